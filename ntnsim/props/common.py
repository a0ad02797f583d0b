"""Shared building blocks of the channel-model simulations."""
import hashlib
import random

import numpy as np

from .. import rng as R
from .. import world as W
from .. import ref as F
from ._base import Viol, Digest, Run, check  # noqa: F401

REAL_TF = ("OpenNTN scenarios, LSP generator, rays generator, channel coefficients, "
           "system-level channel and antennas (working tree), Sionna 1.2.2, TensorFlow 2.21 (CPU)")
STUB_RNG = "random number generators (tf.random.*, config.tf_rng): seeded actor streams"


def init():
    R.install()


def runner(body):
    """Turns body(run, plan) raising Viol into run(plan)"""
    def run(plan):
        r = Run(plan)
        from .. import boot
        if getattr(boot, "_done", False):
            R.reset_ambient(plan.get("run", 0) + 77)
        try:
            nt = body(r, plan)
        except Viol as e:
            return r.result(e.viol)
        return r.result(None, nt is not False)
    return run


def close(a, b, cls, what, rtol=1e-4, atol=1e-6, mod=None):
    """|a-b| <= atol + rtol*|b| everywhere (angles modulo `mod`); NaN is never close"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Viol(cls, f"{what}: shape {a.shape} instead of {b.shape}")
    with np.errstate(invalid="ignore"):
        e = np.where(a == b, 0.0, np.abs(a-b))
    if mod:
        e = e % mod
        e = np.minimum(e, mod-e)
    with np.errstate(invalid="ignore"):
        ok = (e <= atol+rtol*np.abs(b)) & ~(np.isinf(e))
    if not np.all(ok):
        i = np.unravel_index(np.argmin(ok), ok.shape) if ok.ndim else ()
        raise Viol(cls, f"{what}[{','.join(map(str, i))}] is {a[i] if ok.ndim else a} "
                        f"and should be {b[i] if ok.ndim else b} "
                        f"({int((~ok).sum())} of {ok.size} values differ)")


def finite(d, cls="not-finite", what=""):
    for k, v in d.items():
        v = np.asarray(v)
        if v.dtype.kind in "fc" and not np.all(np.isfinite(v)):
            raise Viol(cls, f"{what}{k} holds {int((~np.isfinite(v)).sum())} NaN or Inf values")


def same(a, b, cls, what):
    """Two observations (dicts or arrays) must be bit-identical"""
    if isinstance(a, dict):
        d = W.diff(a, b)
        if d:
            k = d[0]
            raise Viol(cls, f"{what}: {', '.join(d)} differ ({_short(a.get(k))} vs {_short(b.get(k))})")
    elif isinstance(a, (tuple, list)):
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, cls, f"{what}[{i}]")
    elif not W.same(a, b):
        raise Viol(cls, f"{what}: {_short(a)} vs {_short(b)}" + _where(a, b))


def _short(x):
    if isinstance(x, np.ndarray):
        return f"{x.dtype}{list(x.shape)} {np.array2string(x.ravel()[:4], precision=6)}"
    return repr(x)[:80]


def _where(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        d = ~((a == b) | ((a != a) & (b != b)))
        i = np.argwhere(d)
        return f" ({len(i)} of {d.size} differ, first at {i[0].tolist()})"
    return ""


def stream(*key, **kw):
    return R.Stream(R.key_of(*key), **kw)


ALL = list(W.FIELDS)


# ------------------------------------------------------------------ histories
def gen_set_op(rnd, first=False, bu=None, elev=45.0):
    """A (partial) topology update. `bu` is the present (batch, users)"""
    op = dict(op="set", seed=rnd.randrange(10**9))
    if first or bu is None or rnd.random() < 0.12:
        op["fields"] = list(ALL)
        op["b"], op["u"] = W.gen_sizes(rnd)
    else:
        op["b"], op["u"] = bu
        m = rnd.random()
        if m < 0.3:
            op["fields"] = [W.pick(rnd, ALL)]
        elif m < 0.45:
            op["fields"] = W.pick(rnd, (["ut_orientations"], ["ut_velocities"],
                                        ["ut_orientations", "ut_velocities"],
                                        ["ut_loc", "ut_velocities"], ["bs_loc"], []))
        else:
            op["fields"] = [f for f in ALL if rnd.random() < 0.5]
    los = rnd.random()
    op["los"] = True if los < 0.2 else False if los < 0.4 else None
    return op


def gen_history(rnd, n, p_env=0.2, p_gen=0.3, p_dop=0.05):
    if rnd.random() < 0.07:
        n += rnd.randint(3, 9)          # now and then a long one
    ops = [gen_set_op(rnd, True)]
    bu = ops[0]["b"], ops[0]["u"]
    while len(ops) < n:
        m = rnd.random()
        if m < p_gen:
            ops.append(gen_gen_op(rnd))
        elif m < p_gen+p_env:
            ops.append(dict(op="env", env=W.gen_env(rnd)))
        elif m < p_gen+p_env+p_dop:
            ops.append(dict(op="doppler", on=rnd.random() < .5))
        else:
            o = gen_set_op(rnd, False, bu)
            bu = o["b"], o["u"]
            ops.append(o)
    return ops


def gen_gen_op(rnd):
    return dict(op="gen", seed=rnd.randrange(10**9), T=W.pick(rnd, (1, 1, 2, 5)) if rnd.random() < .93 else rnd.randint(6, 70),
                fs=W.pick(rnd, (1e3, 15e3, 1e6, 30.72e6)), three=rnd.random() < 0.25)


class Effective:
    """What a model has been told so far (reference state)"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.topo = {}
        self.los = None
        self.env = dict(W.ENV_DEFAULT)
        self.env_given = {}
        self.doppler = cfg["doppler"]
        self.seed = None          # stream of the last location-relevant update
        self.relevant = False

    def copy(self):
        e = Effective(self.cfg)
        e.topo, e.los, e.env = dict(self.topo), self.los, dict(self.env)
        e.env_given = dict(self.env_given)
        e.doppler, e.seed, e.relevant = self.doppler, self.seed, self.relevant
        return e

    def fields_of(self, op):
        """The fields an operation gives (completed where the history demands it)"""
        full = gen_topo_cached(op["seed"], op["b"], op["u"], self.cfg["elev"], op.get("kind"),
                               op.get("heights"))
        fields = list(op["fields"])
        if not self.topo or self.topo["ut_loc"].shape[:2] != (op["b"], op["u"]):
            fields = list(ALL)
        return {f: full[f] for f in fields}

    def apply(self, op):
        if op["op"] == "set":
            f = self.fields_of(op)
            self.topo.update(f)
            if op["los"] is not None:
                self.los = op["los"]
            self.relevant = any(x in f for x in W.LOC_FIELDS) or op["los"] is not None
            if self.relevant:
                self.seed = op["seed"]
        elif op["op"] == "env":
            self.env.update(op["env"])
            self.env_given.update(op["env"])
        elif op["op"] == "doppler":
            self.doppler = op["on"]


_tc = {}


def gen_topo_cached(seed, b, u, elev, kind=None, heights=None):
    k = (seed, b, u, elev, kind, tuple(heights) if heights else None)
    if k not in _tc:
        if len(_tc) > 200:
            _tc.clear()
        _tc[k] = W.gen_topo(seed, b, u, elev, kind, heights)
    return _tc[k]


def do_set(model, eff, op, name="m", **stream_kw):
    """Issue a set operation on a model (`eff` is the state before)"""
    s = stream(name, "set", op["seed"], **stream_kw)
    kw = W.tft(eff.fields_of(op))
    if op["los"] is not None:
        kw["los"] = op["los"]
    with R.use(s):
        model.set_topology(**kw)
    return s


def do_env(model, op):
    if op["op"] == "env":
        model._scenario.set_topology(**op["env"])
    else:
        model._scenario.set_topology(doppler_enabled=op["on"])


def do_gen(model, op, name="m", **kw):
    s = stream(name, "gen", op["seed"], **kw)
    return W.cir(model, op["T"], op["fs"], s, batch=64 if op.get("three") else None)


def twin_of(eff, name="m", arrays=None, cfg=None):
    """A fresh model told everything at once"""
    m = W.make_model(cfg or eff.cfg, arrays)
    with R.use(stream(name, "set", eff.seed)):
        kw = W.tft(eff.topo)
        if eff.los is not None:
            kw["los"] = eff.los
        m.set_topology(**kw)
    if eff.env_given:
        m._scenario.set_topology(**eff.env_given)
    if eff.doppler != eff.cfg["doppler"]:
        m._scenario.set_topology(doppler_enabled=eff.doppler)
    return m


def shrink_sizes(plan):
    """Smaller batches, fewer users, single antennas"""
    import copy
    for i, op in enumerate(plan.get("ops", [])):
        for k, lo in (("b", 1), ("u", 1), ("T", 1)):
            if isinstance(op.get(k), int) and op[k] > lo:
                for v in {lo, op[k]-1}:
                    q = copy.deepcopy(plan)
                    cur = (op.get("b"), op.get("u"))
                    for o in q["ops"]:
                        if k == "T" and o is not q["ops"][i]:
                            continue
                        if k in o and (k == "T" or (op.get("b"), op.get("u")) == cur) and o[k] == op[k]:
                            o[k] = v
                    yield q
        if op.get("fields"):
            for f in op["fields"]:
                q = copy.deepcopy(plan)
                q["ops"][i]["fields"] = [x for x in op["fields"] if x != f]
                yield q
    cfg = plan.get("cfg")
    if cfg:
        for k, v in (("ut", W.SIMPLE), ("bs", W.SIMPLE), ("doppler", False),
                     ("pl", False), ("sf", False), ("agl", False), ("direction", "downlink"),
                     ("scn", "urb"), ("elev", 50.0)):
            if cfg[k] != v:
                q = copy.deepcopy(plan)
                q["cfg"][k] = dict(v) if isinstance(v, dict) else v
                yield q


def ref_check(model, eff, snap=None, cls="wrong-state"):
    """All observable state of a model against the reference model"""
    cfg = eff.cfg
    s = snap or W.snapshot(model)
    for f in ALL:
        k = "indoor" if f == "in_state" else f
        check(W.same(s[k], eff.topo[f]), cls, lambda: f"{f} is not what was given last: "
              f"{_short(s[k])} instead of {_short(eff.topo[f])}")
    for k, v in eff.env.items():
        check(s[k] == v, cls, f"{k} is {s[k]}, last given {v}")
    check(bool(s["doppler_enabled"]) == eff.doppler, cls, "doppler_enabled is not what was given last")
    check(bool(s["pathloss_enabled"]) == cfg["pl"] and bool(s["shadow_fading_enabled"]) == cfg["sf"]
          and s["direction"] == cfg["direction"], cls, "constructor switches changed")
    g = F.geometry(eff.topo, cfg)
    for k in ("distance_2d", "distance_3d"):
        close(s[k], g[k], cls, k, 1e-5, 0.05)
    close(s["matrix_ut_distance_2d"], g["matrix_ut_distance_2d"], cls, "matrix_ut_distance_2d",
          1e-5, 0.3)
    for k in ("los_aod", "los_aoa", "los_zod", "los_zoa"):
        close(s[k], g[k], cls, k, 0, 2e-3, mod=360)
    los = s["los"]
    if eff.los is not None:
        check(bool(np.all(los == eff.los)), cls, f"LoS state {los.tolist()} although {eff.los} was requested")
    for k, v in F.losses(eff.topo, cfg, eff.env, los).items():
        close(s[k], v, cls, k, 1e-4, 1e-3)
    mean, std = F.lsp_mean_std(cfg, los)
    close(s["lsp_log_mean"], mean, cls, "lsp_log_mean", 1e-4, 1e-4)
    close(s["lsp_log_std"], std, cls, "lsp_log_std", 1e-4, 1e-4)
    return s, g


# ------------------------------------------------------------------ statistics
def ks_exp(x):
    """sqrt(n) * Kolmogorov-Smirnov distance to the unit exponential"""
    x = np.sort(np.asarray(x, np.float64).ravel())
    n = len(x)
    c = 1-np.exp(-x)
    k = np.arange(n)
    return np.sqrt(n)*max(np.max(c-k/n), np.max((k+1)/n-c))


def ks_uniform(x):
    x = np.sort(np.asarray(x, np.float64).ravel())
    n = len(x)
    k = np.arange(n)
    return np.sqrt(n)*max(np.max(x-k/n), np.max((k+1)/n-x))


KS = 2.9        # 2 exp(-2*2.9^2) = 1e-7


def rays_of(model, s):
    """One draw of the rays of a model's topology under its present LSPs"""
    with R.use(s):
        l = model._lsp if getattr(model, "_lsp", None) is not None else model._lsp_sampler()
        out = model._ray_sampler(l)
    lsp = W.lsp_np(l)
    rays = {n: W.npv(getattr(out, n)).astype(np.float64) for n in
            ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")}
    return {k: np.asarray(v, np.float64) for k, v in lsp.items()}, rays


def active(cfg, los):
    """[..., clusters] mask of the clusters a link has"""
    nl, nn = F.nclusters(cfg)
    return np.arange(max(nl, nn)) < np.where(los, nl, nn)[..., None]
