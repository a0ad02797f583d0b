"""C28: only supported configurations are accepted, at the bounds exactly, and a refusal leaves the others untouched."""
import copy

import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from ..trace import LineBomb, Interrupt

RUNS = (120, 1800)
RULE = ("distinct = (scenario and band of the live model, sequence of admissible, refused and interrupted attempts); "
        "non-trivial = at least one attempt was refused and one admissible was accepted")
MEASURE = "distinct histories of attempts"
REAL = [REAL_TF]
STUB = [STUB_RNG, "caller's interruption: an exception raised before a seeded line of the code under test"]

BAD_FC = (0.5e9, 1.8e9, 1.89e9, 4.01e9, 5e9, 12e9, 18e9, 18.9e9, 40.1e9, 60e9, 0.0, -2e9, float("nan"), float("inf"))
EDGE_FC = (1.9e9, 4.0e9, 19e9, 40e9)
BAD_EL = (0.0, 5.0, 9.9, -10.0, -50.0, 90.1, 100.0, 170.0, 180.0, 360.0, float("nan"), float("inf"))
BAD_ARRAY = ("pol_name", "single_VH", "single_cross", "dual_V", "dual_H", "pattern", "panel_rows", "panel_cols")
BAD = ("fc", "fc", "elev", "elev", "direction", "ut_type", "bs_type", "ut_fc", "bs_fc", "both_fc", "array", "first", "early", "drop")
GOOD = ("edge_fc", "edge_el", "int_el", "int_fc", "np_el", "plain")


def plan(rnd, i, tier):
    ops = []
    for _ in range(rnd.randint(3, 6 if tier == "quick" else 14)):
        c = W.gen_cfg(rnd)
        if rnd.random() < .62:
            k = W.pick(rnd, BAD)
            o = dict(op="bad", kind=k, cfg=c)
            o["what"] = (W.pick(rnd, BAD_FC) if k == "fc" else W.pick(rnd, BAD_EL) if k == "elev" else
                         W.pick(rnd, ("up", "Downlink", "", None, "both")) if k == "direction" else
                         W.pick(rnd, ("none", "text", "foreign", "element")) if k.endswith("type") else
                         W.pick(rnd, (0.5, 0.99, 0.999, 1.001, 1.01, 2.0)) if k.endswith("_fc") else
                         W.pick(rnd, BAD_ARRAY) if k == "array" else W.pick(rnd, W.FIELDS) if k == "first" else
                         W.pick(rnd, ("umi", "uma", "", "DUR")))
            if isinstance(o["what"], float) and o["what"] != o["what"]:
                o["what"] = "nan"
            elif o["what"] == float("inf"):
                o["what"] = "inf"
        elif rnd.random() < .2:
            o = dict(op="cut", cfg=c, at=rnd.randint(1, 130))
        else:
            o = dict(op="good", kind=W.pick(rnd, GOOD), cfg=c, seed=rnd.randrange(10**9))
            if o["kind"] == "edge_fc":
                c["fc"] = W.pick(rnd, EDGE_FC)
            elif o["kind"] == "edge_el":
                c["elev"] = W.pick(rnd, (10.0, 90.0))
            elif o["kind"] in ("int_el", "np_el"):
                c["elev"] = float(round(c["elev"]))
                if c["elev"] % 10 == 5:
                    c["elev"] += 1.
            elif o["kind"] == "int_fc":
                c["fc"] = float(round(c["fc"]))
        ops.append(o)
    return dict(cfg=W.gen_cfg(rnd), first=gen_set_op(rnd, True), gen=gen_gen_op(rnd), ops=ops)


def build(cfg, **kw):
    """Construct a model with some arguments replaced"""
    from sionna.phy.channel.tr38811 import DenseUrban, Urban, SubUrban
    cls = {"dur": DenseUrban, "urb": Urban, "sur": SubUrban}[cfg["scn"]]
    fa = kw.pop("ut_array_fc", cfg["fc"]), kw.pop("bs_array_fc", cfg["fc"])
    a = dict(carrier_frequency=cfg["fc"], direction=cfg["direction"], elevation_angle=cfg["elev"],
             enable_pathloss=cfg["pl"], enable_shadow_fading=cfg["sf"], always_generate_lsp=cfg["agl"],
             doppler_enabled=cfg["doppler"])
    a.update(kw)
    for k, f in (("ut", fa[0]), ("bs", fa[1])):
        if k+"_array" not in a:
            a[k+"_array"] = W.make_array(cfg[k], f)
    return cls(**a)


def num(x):
    return float(x) if isinstance(x, str) else x


def attempt_bad(op):
    """Must raise"""
    import tensorflow as tf
    from sionna.phy.channel import tr38811, tr38901
    from sionna.phy.channel.tr38811 import utils
    c, k, w = op["cfg"], op["kind"], op["what"]
    if k == "fc":
        f = num(w)
        # arrays of the same carrier where such arrays exist
        try:
            arr = W.make_array(c["ut"], f), W.make_array(c["bs"], f)
        except Exception:
            arr = W.make_array(c["ut"], 2e9), W.make_array(c["bs"], 2e9)
        return build(c, carrier_frequency=f, ut_array=arr[0], bs_array=arr[1])
    if k == "elev":
        return build(c, elevation_angle=num(w))
    if k == "direction":
        return build(c, direction=w)
    if k in ("ut_type", "bs_type"):
        v = {"none": None, "text": "omni",
             "foreign": tr38901.PanelArray(num_rows_per_panel=1, num_cols_per_panel=1, polarization="single",
                                           polarization_type="V", antenna_pattern="omni", carrier_frequency=c["fc"]),
             "element": 1}[w]
        return build(c, **{k[:2]+"_array": v})
    if k.endswith("_fc"):
        f = c["fc"]*w
        return build(c, **{s+"_array_fc": f for s in (("ut", "bs") if k == "both_fc" else (k[:2],))})
    if k == "array":
        a = dict(num_rows_per_panel=2, num_cols_per_panel=2, polarization="dual", polarization_type="VH",
                 antenna_pattern="38.901", carrier_frequency=c["fc"], num_rows=2, num_cols=2)
        a.update({"pol_name": dict(polarization="V"), "single_VH": dict(polarization="single"),
                  "single_cross": dict(polarization="single", polarization_type="cross"),
                  "dual_V": dict(polarization_type="V"), "dual_H": dict(polarization_type="H"),
                  "pattern": dict(antenna_pattern="isotropic"),
                  "panel_rows": dict(panel_vertical_spacing=0.4), "panel_cols": dict(panel_horizontal_spacing=0.4)}[w])
        return tr38811.PanelArray(**a)
    if k == "first":
        t = W.gen_topo(5, 2, 2, c["elev"], "spread")
        del t[w]
        m = build(c)
        with R.use(stream("first", 0)):
            return m.set_topology(**W.tft(t))
    if k == "early":
        m = build(c)
        with R.use(stream("early", 0)):
            return m(1, 1e6)
    return utils.gen_single_sector_topology(1, 1, w, elevation_angle=c["elev"], bs_height=600000.)


def shrink(plan):
    for i, o in enumerate(plan["ops"]):
        for k, v in (("ut", W.SIMPLE), ("bs", W.SIMPLE), ("doppler", False), ("agl", False)):
            if o["cfg"][k] != v:
                q = copy.deepcopy(plan)
                q["ops"][i]["cfg"][k] = v
                yield q


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    do_set(m, eff, plan["first"])
    eff.apply(plan["first"])
    base = W.snapshot(m)
    refused = accepted = 0
    r.sig = [cfg["scn"], cfg["fc"] > 4e9]
    for op in plan["ops"]:
        r.sig.append((op["op"], op.get("kind"), op.get("what"), op["cfg"]["scn"]))
        if op["op"] == "bad":
            try:
                attempt_bad(op)
            except Exception:
                refused += 1
                r.n("fault.refused_"+op["kind"])
            else:
                raise Viol("accepted-unsupported", f"{op['kind']}: {op['what']!r} was accepted "
                           f"({op['cfg']['scn']}, {op['cfg']['direction']}, {op['cfg']['fc']:g} Hz, {op['cfg']['elev']} degrees)")
        elif op["op"] == "cut":
            bomb = LineBomb(op["at"])
            try:
                with bomb:
                    W.make_model(op["cfg"])
            except Interrupt:
                r.n("fault.line")
        else:
            good(r, op)
            accepted += 1
        same(base, W.snapshot(m), "attempt-touches-model", f"state of another model before and after the attempt {op.get('kind', 'cut')}")
    out = do_gen(m, plan["gen"])
    same(do_gen(twin_of(eff), plan["gen"]), out, "attempt-touches-model", "channel of the live model vs. a fresh one")
    r.dg.add(base, *out)
    return refused > 0 and accepted > 0


def good(r, op):
    c = op["cfg"]
    kw = {}
    if op["kind"] == "int_el":
        kw["elevation_angle"] = int(c["elev"])
    elif op["kind"] == "np_el":
        kw["elevation_angle"] = (np.float64, np.float32, np.int64)[op["seed"] % 3](c["elev"])
    elif op["kind"] == "int_fc":
        kw["carrier_frequency"] = int(c["fc"])
    m = build(c, **kw)
    t = W.gen_topo(op["seed"], 1, 2, c["elev"], "spread")
    W.set_topo(m, t, None, stream("good", op["seed"]))
    eff = Effective(c)
    eff.topo = t
    ref_check(m, eff, cls="wrong-acceptance")
    out = W.cir(m, 2, 1e6, stream("good", op["seed"], "g"))
    finite(dict(a=out[0], tau=out[1]))
    if kw:
        t2 = W.make_model(c)
        W.set_topo(t2, t, None, stream("good", op["seed"]))
        same(W.cir(t2, 2, 1e6, stream("good", op["seed"], "g")), out, "wrong-acceptance", f"channel for {kw} vs. plain floats")
    r.n("probe.accepted")
    r.n("sim_s", 2e-6)
    r.dg.add(*out)


run = runner(body)
