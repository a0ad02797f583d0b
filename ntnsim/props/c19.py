"""C19: the drop generator places users, velocities, heights and antennas as promised, for
every parameter set and draw, and its topologies can be used as they are."""
import math

import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (150, 2500)
RULE = ("distinct = (scenario, given parameters, sizes, draw kind, model direction); non-trivial = a topology with at "
        "least one user was generated")
MEASURE = "distinct (parameters, draw kind)"
REAL = [REAL_TF + ", drop generator"]
STUB = [STUB_RNG + ", with extreme and evenly spread draws"]

DEF = dict(dur=200., urb=500., sur=5000.)


def plan(rnd, i, tier):
    ops = []
    for _ in range(rnd.randint(1, 3)):
        o = dict(scn=W.pick(rnd, W.SCN), seed=rnd.randrange(10**9), given={},
                 b=rnd.randint(1, 4), u=rnd.randint(1, 6), draws=W.pick(rnd, ("nominal", "nominal", "extreme", "strat")),
                 big=rnd.random() < 0.4, chan=rnd.random() < 0.5, direction=W.pick(rnd, ("uplink", "downlink")))
        g = o["given"]
        if rnd.random() < .5:
            g["bs_height"] = W.pick(rnd, (600e3, 700e3, 1200e3, 10000e3, 35786e3, 36000e3))
        if rnd.random() < .6:
            g["elevation_angle"] = W.pick(rnd, (10., 20., 45., 50., 63., 80., 88., 90.))
        if rnd.random() < .4:
            g["isd"] = W.pick(rnd, (10., 200., 1732., 5000., 20000., 50000.))
        if rnd.random() < .4:
            g["min_ut_height"], g["max_ut_height"] = W.pick(rnd, ((0., 10.), (1.5, 22.5), (5., 5.)))
        if rnd.random() < .5:
            g["min_ut_velocity"], g["max_ut_velocity"] = W.pick(rnd, ((0., 3.), (10., 30.), (5., 5.), (0., 300.)))
        o["types"] = {k: W.pick(rnd, ("tensor", "tensor", "float", "int", "np64", "npint")) for k in g}
        ops.append(o)
    return dict(ops=ops)


def shrink(plan):
    import copy
    for i, o in enumerate(plan["ops"]):
        for k in list(o["given"]):
            if k.startswith("min_"):
                continue
            q = copy.deepcopy(plan)
            q["ops"][i]["given"].pop(k)
            q["ops"][i]["given"].pop(k.replace("max_", "min_"), None)
            yield q
        for k in o["types"]:
            if o["types"][k] != "tensor":
                q = copy.deepcopy(plan)
                q["ops"][i]["types"][k] = "tensor"
                yield q
        for k, v in (("b", 1), ("u", 1), ("big", False), ("chan", False), ("draws", "nominal")):
            if o[k] != v:
                q = copy.deepcopy(plan)
                q["ops"][i][k] = v
                yield q


def number(v, kind):
    """A parameter as the kind of number a user may have at hand"""
    import tensorflow as tf
    if kind in ("int", "npint") and v == int(v):
        return int(v) if kind == "int" else np.int64(v)
    if kind in ("float", "int"):
        return float(v)
    if kind in ("np64", "npint"):
        return np.float64(v)
    return tf.constant(v, tf.float32)


def generate(o, s):
    from sionna.phy.channel.tr38811 import utils
    with R.use(s):
        out = utils.gen_single_sector_topology(
            o["b"], 300 if o["big"] else o["u"], o["scn"],
            **{k: number(v, o.get("types", {}).get(k)) for k, v in o["given"].items()})
    return [W.npv(x) for x in out]


NAMES = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state")


def body(r, plan):
    r.sig = []
    for o in plan["ops"]:
        g = o["given"]
        isd = g.get("isd", DEF[o["scn"]])
        h = g.get("bs_height", 600e3)
        e = math.radians(g.get("elevation_angle", 80.))
        z0, z1 = g.get("min_ut_height", 1.5), g.get("max_ut_height", 1.5)
        v0, v1 = g.get("min_ut_velocity", 0.), g.get("max_ut_velocity", 0.)
        u = 300 if o["big"] else o["u"]
        b = o["b"]
        kw = dict(mode=o["draws"], ext_p=.2)
        out = generate(o, stream("d", o["seed"], **kw))
        t = dict(zip(NAMES, out))
        r.n("fault.draws_"+o["draws"])
        finite(t)
        for n, sh in zip(NAMES, ((b, u, 3), (b, 1, 3), (b, u, 3), (b, 1, 3), (b, u, 3), (b, u))):
            check(t[n].shape == sh, "shape", f"{n} has shape {t[n].shape} instead of {sh}")
            check(t[n].dtype == (bool if n == "in_state" else np.float32), "dtype", f"{n} is {t[n].dtype}")
        check(not t["in_state"].any(), "indoor", "a user is indoor")
        close(t["bs_loc"], np.broadcast_to(np.array([0, 0, h]), (b, 1, 3)), "satellite", "bs_loc", 1e-6, 1e-3)
        # satellite antennas face straight down
        bo = t["bs_orientations"].astype(np.float64)
        close(F_bore(bo), np.broadcast_to(np.array([0., 0, -1]), (b, 1, 3)), "satellite-orientation",
              "satellite boresight", 0, 1e-5)
        loc = t["ut_loc"].astype(np.float64)
        # users: around a point from which the satellite has the requested elevation
        rr = h/math.tan(e) if e < math.pi/2-1e-6 else 0.
        tol2 = 2e-6*(h*h+rr*rr)
        eps = 1e-6*(rr+isd)+1e-3
        for bb in range(b):
            x, y = loc[bb, :, 0], loc[bb, :, 1]
            for n, q in (("x", x), ("y", y)):
                check(q.max()-q.min() <= isd*(1+1e-5)+2*eps, "spread",
                      f"users of example {bb} are {q.max()-q.min():.3f} m apart in {n}, inter-site distance {isd}")
            xl, xh = x.max()-isd/2-eps, x.min()+isd/2+eps
            yl, yh = y.max()-isd/2-eps, y.min()+isd/2+eps
            far = max(abs(xl), abs(xh))**2+max(abs(yl), abs(yh))**2
            near = (0 if xl <= 0 <= xh else min(abs(xl), abs(xh)))**2 + (0 if yl <= 0 <= yh else min(abs(yl), abs(yh)))**2
            check(near-tol2 <= rr*rr <= far+tol2, "drop-centre",
                  f"the centre of the drop of example {bb} is {math.sqrt(max(near, 0)):.1f} to {math.sqrt(far):.1f} m from "
                  f"the sub-satellite point; an elevation of {math.degrees(e)} deg needs {rr:.1f} m")
        z = loc[..., 2]
        check(np.all((z >= z0-1e-5) & (z <= z1+1e-5)), "height", f"user heights {z.min()}..{z.max()}, requested {z0}..{z1}")
        v = t["ut_velocities"].astype(np.float64)
        vn = np.linalg.norm(v, axis=-1)
        check(np.all((vn >= v0-1e-4) & (vn <= v1*(1+1e-6)+1e-4)), "speed", f"speeds {vn.min()}..{vn.max()}, requested {v0}..{v1}")
        check(np.all(v[..., 2] == 0), "speed", "a user moves vertically")
        # user antennas look at the satellite: towards its azimuth, at the nominal elevation
        bore = F_bore(t["ut_orientations"].astype(np.float64))
        d = np.hypot(loc[..., 0], loc[..., 1])
        want = np.stack([-loc[..., 0]/np.maximum(d, 1e-9)*math.cos(e), -loc[..., 1]/np.maximum(d, 1e-9)*math.cos(e),
                         np.full_like(d, math.sin(e))], -1)
        close(np.where(d[..., None] > 1, bore, want), want, "pointing", "user boresight", 0, 1e-4)
        if o["big"] and o["draws"] == "nominal":
            r.n("probe.statistics")
            n = b*u
            for nm, q in (("x", loc[..., 0]), ("y", loc[..., 1])):
                if isd >= 1e-5*rr:
                    for bb in range(b):
                        q_ = np.sort(q[bb])
                        w = q_[-1]-q_[0]
                        check(w >= 0.85*isd, "spread", f"300 users spread over {w:.1f} m in {nm}, requested {isd}")
                        k = ks_uniform((q_[1:-1]-q_[0])/w)
                        check(k < KS+.3, "not-uniform", f"{nm} is not uniform: sqrt(n)D = {k:.2f}")
            if isd >= 1e-4*rr:
                cx, cy = (loc[:, :, i]-loc[:, :, i].mean(1, keepdims=True) for i in (0, 1))
                c = (cx*cy).mean()/np.sqrt((cx**2).mean()*(cy**2).mean())
                check(abs(c)*math.sqrt(n) < 6, "not-uniform", f"x and y offsets are correlated: {c:.3f}")
            if z1 > z0:
                check(ks_uniform((z-z0)/(z1-z0)) < KS, "not-uniform", "heights are not uniform")
            if v1 > v0:
                check(ks_uniform((vn-v0)/(v1-v0)) < KS+.2, "not-uniform", "speeds are not uniform")
            if v0 > 0:
                a = np.arctan2(v[..., 1], v[..., 0])
                check(ks_uniform(np.clip((a+math.pi)/(2*math.pi), 0, 1)) < KS, "not-uniform", "directions of travel are not uniform")
        # another drop is another drop
        o2 = generate(o, stream("d", o["seed"]+1, **kw))
        if o["draws"] == "nominal":
            check(not np.array_equal(o2[0][..., :2], t["ut_loc"][..., :2]), "frozen-drop", "two drops are identical")
        same(generate(o, stream("d", o["seed"], **kw)), out, "irreproducible", "same draws, other drop")
        if o["chan"]:
            cfg = dict(scn=o["scn"], fc=2e9, direction=o["direction"], elev=g.get("elevation_angle", 80.), pl=True, sf=True,
                       doppler=True, agl=False, ut=dict(W.SIMPLE, pat="38.901"), bs=dict(W.SIMPLE))
            m = W.make_model(cfg)
            k = {n: (q if n.startswith("bs") else q[:, :4]) for n, q in t.items()}
            W.set_topo(m, k, None, stream("t", o["seed"]))
            a, tau = W.cir(m, 2, 1e3, stream("c", o["seed"]))
            finite(dict(a=a, tau=tau))
            s = W.snapshot(m)
            if isd < .02*rr:
                el = np.degrees(np.arctan2(h-k["ut_loc"][..., 2], s["distance_2d"][..., 0]
                                           if s["distance_2d"].shape[:2] == k["ut_loc"].shape[:2] else s["distance_2d"][:, 0]))
                close(el, np.full_like(el, math.degrees(e)), "elevation", "elevation of the users", 0, 1.2)
            r.n("probe.channel")
            r.n("sim_s", 2e-3)
            r.dg.add(a, tau)
        r.sig.append((o["scn"], sorted(g.items()), b, u, o["draws"], o["chan"] and o["direction"]))
        r.dg.add(t)
    return bool(plan["ops"])


def F_bore(o):
    """Boresight (rotated x axis) of orientations [..., 3] (TR 38.901 (7.1-4))"""
    a, b = o[..., 0], o[..., 1]
    return np.stack([np.cos(a)*np.cos(b), np.sin(a)*np.cos(b), -np.sin(b)], -1)


run = runner(body)
