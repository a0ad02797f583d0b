"""Configurations, topologies, models and observations of the channel simulator."""
import copy
import math

import numpy as np

from . import rng as R

SCN = ("dur", "urb", "sur")
CARRIERS = (1.9e9, 2.0e9, 2.2e9, 3.5e9, 4.0e9, 19.0e9, 20.0e9, 28.0e9, 30.0e9, 40.0e9)


def pick(rnd, seq):
    return seq[rnd.randrange(len(seq))]


ANY_PATTERN = ("omni", "38.901", "omni", "38.901", "aperture", "dlp")


def gen_array(rnd, max_el=2, patterns=("omni", "38.901")):
    pol = pick(rnd, ("single", "dual"))
    a = dict(rows=rnd.randint(1, 2) if rnd.random() < 0.3 else 1,
                cols=rnd.randint(1, 2) if rnd.random() < 0.3 else 1,
                prows=rnd.randint(1, max_el), pcols=rnd.randint(1, max_el),
                pol=pol,
                type=pick(rnd, ("V", "H") if pol == "single" else ("VH", "cross")),
                pat=pick(rnd, patterns))
    m = rnd.random()
    if m < 0.2:
        a["esp"] = [pick(rnd, (0.5, 0.62, 0.8, 1.0)), pick(rnd, (0.3, 0.5, 0.75, 1.3))]
    if m < 0.3:
        a["how"] = "default"        # default spacings, where there are defaults
    elif m < 0.4 and a["rows"] == a["cols"] == 1:
        a["how"] = "alias"          # Antenna and AntennaArray
    return a


SIMPLE = dict(rows=1, cols=1, prows=1, pcols=1, pol="single", type="V", pat="omni")


def gen_elev(rnd):
    m = rnd.random()
    if m < 0.5:
        return float(rnd.randint(1, 9)*10)
    if m < 0.6:
        return pick(rnd, (10.0, 90.0))
    while True:
        e = round(rnd.uniform(10.0, 90.0), 3)
        if abs(e % 10.0 - 5.0) > 0.01:
            return e


def gen_cfg(rnd, small=True, arrays=True, patterns=("omni", "38.901"), **kw):
    c = dict(scn=pick(rnd, SCN),
             fc=pick(rnd, CARRIERS) if rnd.random() < 0.8 else
             round(rnd.uniform(1.9e9, 4e9) if rnd.random() < .5 else rnd.uniform(19e9, 40e9)),
             direction=pick(rnd, ("downlink", "uplink")),
             elev=gen_elev(rnd),
             pl=rnd.random() < 0.8, sf=rnd.random() < 0.8,
             doppler=rnd.random() < 0.6,
             agl=rnd.random() < 0.3,
             ut=gen_array(rnd, 2, patterns) if arrays and rnd.random() < 0.5 else dict(SIMPLE),
             bs=gen_array(rnd, 2, patterns) if arrays and rnd.random() < 0.5 else dict(SIMPLE))
    if arrays and rnd.random() < 0.05:
        # one end with a large array
        c["ut"], c["bs"] = dict(SIMPLE), dict(SIMPLE)
        c[pick(rnd, ("ut", "bs"))] = dict(gen_array(rnd, 4, patterns), rows=1, cols=1)
    c.update(kw)
    return c


def gen_sizes(rnd):
    """Batch size and number of users: mostly small, sometimes not"""
    m = rnd.random()
    if m < 0.88:
        return rnd.randint(1, 3), rnd.randint(1, 4)
    if m < 0.96:
        return rnd.randint(4, 8), rnd.randint(1, 6)
    return rnd.randint(1, 2), rnd.randint(5, 16)


def panel_spacing(a):
    """Element and panel spacings of an array in wavelengths"""
    ev, eh = a.get("esp") or (0.5, 0.5)
    if a.get("how") == "default":
        return ev, eh, (a["prows"]-1)*ev+0.5, (a["pcols"]-1)*eh+0.5
    return ev, eh, ev*a["prows"]+0.7, eh*a["pcols"]+0.9


def make_array(a, fc, precision=None):
    from sionna.phy.channel.tr38811 import Antenna, AntennaArray, PanelArray
    kw = {} if precision is None else {"precision": precision}
    kw.update(polarization=a["pol"], polarization_type=a["type"], antenna_pattern=a["pat"], carrier_frequency=fc)
    ev, eh, pv, ph = panel_spacing(a)
    if a.get("how") == "alias" and a["rows"] == a["cols"] == 1:
        if a["prows"] == a["pcols"] == 1:
            return Antenna(**kw)
        if a.get("esp"):
            kw.update(vertical_spacing=ev, horizontal_spacing=eh)
        return AntennaArray(a["prows"], a["pcols"], **kw)
    if a.get("esp"):
        kw.update(element_vertical_spacing=ev, element_horizontal_spacing=eh)
    if (a["rows"] > 1 or a["cols"] > 1) and a.get("how") != "default":
        kw.update(panel_vertical_spacing=pv, panel_horizontal_spacing=ph)
    return PanelArray(num_rows_per_panel=a["prows"], num_cols_per_panel=a["pcols"],
                      num_rows=a["rows"], num_cols=a["cols"], **kw)


def make_model(cfg, arrays=None):
    """Build the channel model through the public constructor"""
    from sionna.phy.channel.tr38811 import DenseUrban, Urban, SubUrban
    cls = {"dur": DenseUrban, "urb": Urban, "sur": SubUrban}[cfg["scn"]]
    p = cfg.get("prec")
    if arrays is None:
        arrays = (make_array(cfg["ut"], cfg["fc"], p), make_array(cfg["bs"], cfg["fc"], p))
    return cls(carrier_frequency=cfg["fc"], ut_array=arrays[0], bs_array=arrays[1],
               direction=cfg["direction"], elevation_angle=cfg["elev"],
               enable_pathloss=cfg["pl"], enable_shadow_fading=cfg["sf"],
               always_generate_lsp=cfg["agl"], doppler_enabled=cfg["doppler"],
               **({} if p is None else {"precision": p}))


FIELDS = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations",
          "ut_velocities", "in_state")
LOC_FIELDS = ("ut_loc", "bs_loc", "in_state")


def gen_topo(seed, b, u, elev, kind=None, heights=None):
    """Numpy topology: one satellite, `u` user terminals, all outdoor"""
    g = np.random.Generator(np.random.Philox(R.key_of("topo", seed) & (2**64-1)))
    if kind is None:
        kind = ("spread", "near", "colocated", "wide")[g.choice(4, p=[.55, .2, .1, .15])]
    if heights is None:
        def height():
            if g.random() < 0.7:
                return float(g.choice([600e3, 650e3, 700e3, 1200e3, 8000e3, 10000e3, 35786e3, 36000e3]))
            return float(round(600e3*60**g.random()))
        heights = [height()]*b if g.random() < 0.4 else [height() for _ in range(b)]
    h = np.asarray(heights, np.float64)
    t = math.radians(elev)
    r = h/math.tan(t) if elev < 89.9 else np.full(b, 50.0)
    # very far drops lose all precision in float32
    r = np.minimum(r, 2e6)
    az = g.uniform(-np.pi, np.pi, b)
    center = np.stack([r*np.cos(az), r*np.sin(az)], -1)[:, None, :]
    spread = {"spread": 250., "near": 3., "colocated": 0., "wide": 5000.}[kind]
    off = g.uniform(-spread, spread, (b, u, 2))
    if kind == "colocated" and u > 1:
        # the first two are at the same place, the others not
        off = g.uniform(-250, 250, (b, u, 2))
        off[:, 1] = off[:, 0]
    z = g.uniform(1.5, 22.5, (b, u, 1))
    ut_loc = np.concatenate([center+off, z], -1)
    bs_loc = np.zeros((b, 1, 3))
    bs_loc[:, 0, 2] = h
    if g.random() < 0.3:
        bs_loc[:, 0, :2] = g.uniform(-1e4, 1e4, (b, 2))
    v = g.uniform(-30, 30, (b, u, 3))
    if g.random() < 0.15:
        v[:] = 0.
    return dict(ut_loc=ut_loc.astype(np.float32),
                bs_loc=bs_loc.astype(np.float32),
                ut_orientations=g.uniform(-np.pi, np.pi, (b, u, 3)).astype(np.float32),
                bs_orientations=g.uniform(-np.pi, np.pi, (b, 1, 3)).astype(np.float32),
                ut_velocities=v.astype(np.float32),
                in_state=np.zeros((b, u), bool))


def tft(d):
    """numpy -> tensors (None kept)"""
    import tensorflow as tf
    return {k: (tf.constant(v) if isinstance(v, np.ndarray) else v)
            for k, v in d.items()}


ENVP = dict(latitude=(20., 60.), lwc=(0.0, 1.0), rain_rate=(0., 100.),
            atmospheric_pressure=(900., 1080.), temperature=(253., 313.),
            water_vapor_density=(1., 20.), relative_humidity=(10., 100.),
            diameter_earth_antenna=(0.6, 4.), antenna_efficiency=(0.3, 0.7))
ZERO_OK = ("lwc", "rain_rate")
ENV_DEFAULT = dict(latitude=47, lwc=0.41, rain_rate=40, atmospheric_pressure=1020,
                   temperature=273, water_vapor_density=7.5, relative_humidity=50,
                   diameter_earth_antenna=3.6, antenna_efficiency=0.5)


def gen_env(rnd):
    ks = [k for k in ENVP if rnd.random() < 0.35] or [pick(rnd, list(ENVP))]
    # dry air, no rain, a clear sky: exact zeros are values like any other
    return {k: 0.0 if k in ZERO_OK and rnd.random() < 0.25 else round(rnd.uniform(*ENVP[k]), 3)
            for k in ks}


SNAP = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities",
        "indoor", "los", "distance_2d", "distance_3d", "distance_2d_in",
        "distance_2d_out", "distance_3d_in", "distance_3d_out",
        "matrix_ut_distance_2d", "los_aod", "los_aoa",
        "los_zod", "los_zoa", "lsp_log_mean", "lsp_log_std", "zod_offset",
        "basic_pathloss", "free_space_pathloss", "gas_pathloss",
        "scintillation_pathloss", "entry_pathloss", "num_clusters_los",
        "num_clusters_nlos", "num_clusters_max", "h_ut", "h_bs", "carrier_frequency",
        "direction", "elevation_angle", "pathloss_enabled", "shadow_fading_enabled",
        "doppler_enabled") + tuple(ENVP)
LSP_NAMES = ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")


def npv(v):
    return v.numpy() if hasattr(v, "numpy") else v


def scen(model):
    return model._scenario


def snapshot(model, lsp=True, corr=True):
    """All public, observable topology state of a model, as numpy"""
    s = scen(model)
    out = {}
    for n in SNAP:
        try:
            v = getattr(s, n)
        except Exception as e:  # not set yet
            v = f"<{type(e).__name__}>"
        v = npv(v)
        out[n] = copy.copy(v) if isinstance(v, np.ndarray) else v
    if corr:
        for o, n in ((model._lsp_sampler, "_cross_lsp_correlation_matrix_sqrt"),
                     (model._lsp_sampler, "_spatial_lsp_correlation_matrix_sqrt"),
                     (model._ray_sampler, "_cluster_mask")):
            out[n] = npv(getattr(o, n, None))
    if lsp:
        out.update(lsp_of(model))
    return out


def lsp_np(l):
    return {"lsp." + n: npv(getattr(l, n)) for n in LSP_NAMES}


def lsp_of(model):
    if getattr(model, "_always_generate_lsp", False):
        return {}                   # what was drawn last is no state
    l = getattr(model, "_lsp", None)
    return {} if l is None else lsp_np(l)


def same(a, b):
    """Bitwise equality of two observations (NaN equals NaN)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    return type(a) == type(b) and (a == b or a != a and b != b)


INNER = ("_cross_lsp_correlation_matrix_sqrt", "_spatial_lsp_correlation_matrix_sqrt", "_cluster_mask")


def diff(a, b, skip=()):
    """Names in which two snapshots differ"""
    # what is internal may also not exist, or not yet
    skip = set(skip) | {k for k in INNER if a.get(k) is None or b.get(k) is None}
    return sorted(k for k in set(a) | set(b)
                  if k not in skip and not (k in a and k in b and same(a[k], b[k])))


_RECS = {}          # id(block) -> Rec
_patched = []


def _patch_classes():
    if _patched:
        return
    from sionna.phy.channel.tr38811 import RaysGenerator, ChannelCoefficientsGenerator
    rays_call = RaysGenerator.__call__
    cc_call = ChannelCoefficientsGenerator.__call__

    def rays(self, *a, **k):
        out = rays_call(self, *a, **k)
        rec = _RECS.get(id(self))
        if rec is not None:
            l = a[0] if a else next(iter(k.values()))
            rec.calls.append(dict(
                lsp=lsp_np(l),
                rays={n: npv(getattr(out, n)) for n in
                      ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")}))
        return out

    def cc(self, *a, **k):
        rec = _RECS.get(id(self))
        if rec is None or k.get("debug"):
            return cc_call(self, *a, **k)
        h, d, phi, ts = cc_call(self, *a, **dict(k, debug=True))
        topo = k.get("topology")
        if topo is None:
            topo = next((x for x in a if hasattr(x, "sat_speed")), None)
        rec.cir.append(dict(h=npv(h), delays=npv(d), phi=npv(phi), t=npv(ts),
                            sat=npv(getattr(topo, "sat_speed", None))))
        return h, d

    RaysGenerator.__call__ = rays
    ChannelCoefficientsGenerator.__call__ = cc
    _patched.append(1)


class Rec:
    """Captures LSPs, rays, phases of every channel generation of a model, at the
    interfaces of its blocks (no change of behaviour)"""

    def __init__(self, model):
        from sionna.phy.channel.tr38811 import RaysGenerator, ChannelCoefficientsGenerator
        _patch_classes()
        self.calls = []
        self.cir = []
        self.model = model
        for v in list(vars(model).values()):
            if isinstance(v, (RaysGenerator, ChannelCoefficientsGenerator)):
                _RECS[id(v)] = self

    def close(self):
        for k in [k for k, v in _RECS.items() if v is self]:
            del _RECS[k]


def cir(model, T, fs, stream=None, batch=None):
    """One channel generation -> numpy (a, tau)"""
    args = (T, fs) if batch is None else (batch, T, fs)
    if stream is not None:
        with R.use(stream):
            a, tau = model(*args)
    else:
        a, tau = model(*args)
    return npv(a), npv(tau)


def set_topo(model, topo, los=None, stream=None):
    kw = tft(topo)
    if los is not None:
        kw["los"] = los
    if stream is None:
        return model.set_topology(**kw)
    with R.use(stream):
        return model.set_topology(**kw)
