"""C18: every admissible model, topology and draw gives a finite channel of the promised
shape and type."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (170, 3000)
RULE = ("distinct = (scenario, carrier, direction, elevation, arrays, batch and users, extreme topology and draw "
        "kinds); non-trivial = a channel was generated")
MEASURE = "distinct (configuration, extreme kinds)"
REAL = [REAL_TF]
STUB = [STUB_RNG + ", with extreme tails"]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd)
    for k in ("ut", "bs"):
        if rnd.random() < 0.5:
            cfg[k] = W.gen_array(rnd, 3)
    ops = []
    for _ in range(rnd.randint(1, 3)):
        o = gen_set_op(rnd, True)
        o["b"], o["u"] = rnd.randint(1, 3), rnd.randint(1, 6)
        o["kind"] = W.pick(rnd, ("spread", "near", "colocated", "wide"))
        o["extreme"] = [e for e in ("below", "grid", "fast", "nadir", "same", "aligned", "geo", "pointing") if rnd.random() < 0.25]
        o["draws"] = W.pick(rnd, ("nominal", "extreme", "extreme", "c0", "c4", "c-4"))
        o["gen"] = gen_gen_op(rnd)
        ops.append(o)
    return dict(cfg=cfg, ops=ops)


def extreme(t, kinds, cfg):
    t = {k: v.copy() for k, v in t.items()}
    if "below" in kinds:
        t["ut_loc"][:, :, 2] = 0.0
    if "grid" in kinds:
        t["ut_loc"] = np.round(t["ut_loc"])
    if "fast" in kinds:
        t["ut_velocities"] *= 10.0
    if "nadir" in kinds and cfg["elev"] > 80:
        t["ut_loc"][:, 0, :2] = t["bs_loc"][:, 0, :2]
    if "same" in kinds:
        t["ut_loc"][:] = t["ut_loc"][:, :1]
    if "aligned" in kinds:
        t["ut_orientations"][:] = 0
        t["bs_orientations"][:] = 0
        t["ut_loc"][:, :, 1] = 0
        t["bs_loc"][:, :, 1] = 0
    if "geo" in kinds:
        t["bs_loc"][:, :, 2] = 35786e3
    return t


def nant(a):
    return a["rows"]*a["cols"]*a["prows"]*a["pcols"]*(2 if a["pol"] == "dual" else 1)


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    rec = W.Rec(m)
    nu, nb = nant(cfg["ut"]), nant(cfg["bs"])
    r.sig = [{k: v for k, v in cfg.items()}]
    for op in plan["ops"]:
        b, u = op["b"], op["u"]
        topo = extreme(W.gen_topo(op["seed"], b, u, cfg["elev"], op.get("kind")), op["extreme"], cfg)
        d = op["draws"]
        kw = dict(mode="const", c=float(d[1:])) if d[0] == "c" else dict(mode=d)
        for e in op["extreme"]:
            r.n("fault.topology_"+e)
        r.n("fault.draws_"+d)
        W.set_topo(m, topo, op["los"], stream("s", op["seed"], **kw))
        if "pointing" in op["extreme"]:
            # the array of every user turns its z axis to (or away from) its satellite
            c = W.snapshot(m, lsp=False, corr=False)
            o = np.zeros((b, u, 3), np.float32)
            o[..., 0] = np.deg2rad(c["los_aoa"][:, 0])
            o[..., 1] = np.deg2rad(c["los_zoa"][:, 0])+(np.pi if op["seed"] % 2 else 0)
            W.set_topo(m, dict(ut_orientations=o), None, stream("p", op["seed"], **kw))
        s = W.snapshot(m)
        finite({k: v for k, v in s.items() if isinstance(v, np.ndarray) and k not in
                ("lsp_log_mean", "lsp_log_std", "zod_offset", "distance_3d_in", "distance_3d_out", "distance_2d_in")})
        check(all(np.all(v >= 0) for k, v in s.items() if k.startswith("lsp.")), "negative-lsp", "negative LSP")
        g = op["gen"]
        a, tau = W.cir(m, g["T"], g["fs"], stream("g", g["seed"], **kw), batch=b if g.get("three") else None)
        finite(dict(a=a, tau=tau))
        los = s["los"]
        nl, nn = F.nclusters(cfg)
        # two strongest clusters are split in three sub-clusters each
        P = max(nl, nn)+4
        shape = (b, 1, nb, u, nu, P, g["T"]) if cfg["direction"] == "uplink" else (b, u, nu, 1, nb, P, g["T"])
        check(a.shape == shape, "shape", f"coefficients of shape {a.shape}, expected {shape}")
        ts = (b, 1, u, P) if cfg["direction"] == "uplink" else (b, u, 1, P)
        check(tau.shape == ts, "shape", f"delays of shape {tau.shape}, expected {ts}")
        check(a.dtype == np.complex64 and tau.dtype == np.float32, "dtype", f"{a.dtype}, {tau.dtype}")
        # The LoS delay scaling polynomial of TR 38.901 (7.5-3) is positive above -60 dB only
        k = rec.calls[-1]["lsp"]["lsp.k_factor"]
        k = k.reshape(tau.shape[:3]) > 1e-6
        t = tau[k]
        check(np.all(t >= 0), "negative-delay", lambda: f"delay {t.min()}")
        check(np.all(np.diff(t, axis=-1) >= 0), "unsorted-delays", "delays are not in ascending order")
        r.n("probe.delay_sets", len(t))
        # every link carries power
        p = (np.abs(a.astype(np.complex128))**2).sum((2, 4, 5, 6))
        check(np.all(p > 0), "dead-link", f"{int((p == 0).sum())} of {p.size} links carry no power")
        # paths beyond those of the link are empty
        n = np.where(los[:, 0], nl, nn)+4
        for bb in range(b):
            for uu in range(u):
                if not k.reshape(b, u)[bb, uu]:
                    continue        # negative delays reorder the paths
                x = a[bb, :, :, uu] if cfg["direction"] == "uplink" else a[bb, uu]
                x = np.abs(x).reshape(-1, P, g["T"]) if x.ndim > 3 else x
                check(np.all(x[:, n[bb, uu]:] == 0), "extra-paths", f"user {uu} of example {bb} has more paths than clusters")
        r.n("probe.links", p.size)
        r.n("sim_s", g["T"]/g["fs"])
        r.sig.append((b, u, op["extreme"], d, op.get("kind"), g["T"], los.tolist()))
        r.dg.add(s, a, tau)
    return True


run = runner(body)
