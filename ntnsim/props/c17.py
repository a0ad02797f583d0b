"""C17: batch examples and users do not influence one another beyond the specified
correlation."""
import copy

import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (110, 1800)
RULE = ("distinct = (scenario, band, direction, LSP mode, which example or user was perturbed in which fields); "
        "non-trivial = at least one other example or user exists")
MEASURE = "distinct perturbations"
REAL = [REAL_TF]
STUB = [STUB_RNG]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd)
    op = gen_set_op(rnd, True)
    op["b"], op["u"] = rnd.randint(2, 4), rnd.randint(1, 4)
    if rnd.random() < 0.35:
        op["kind"], op["u"] = "wide", rnd.randint(2, 4)
    pert = []
    if op.get("kind") == "wide" and op["u"] > 1:
        pert.append(dict(move=True, b=rnd.randrange(op["b"]), u=rnd.randrange(op["u"]), seed=rnd.randrange(10**9)))
    for _ in range(2 if tier == "quick" else 6):
        user = op["u"] > 1 and rnd.random() < 0.4
        pool = ["ut_orientations", "ut_velocities"] if user else ALL[:5]
        pert.append(dict(user=user, b=rnd.randrange(op["b"]), u=rnd.randrange(op["u"]),
                         fields=[f for f in pool if rnd.random() < 0.6] or [W.pick(rnd, pool)],
                         seed=rnd.randrange(10**9)))
    return dict(cfg=cfg, ops=[op], faults=pert, T=W.pick(rnd, (1, 3)), seed=rnd.randrange(10**9),
                strange=rnd.random() < 0.2)


PER_B = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "indoor", "los",
         "distance_2d", "distance_3d", "matrix_ut_distance_2d", "los_aod", "los_aoa", "los_zod", "los_zoa",
         "lsp_log_mean", "lsp_log_std", "zod_offset", "basic_pathloss", "free_space_pathloss", "gas_pathloss",
         "scintillation_pathloss", "entry_pathloss", "h_ut", "h_bs")


def observe(cfg, topo, op, plan, rec=None):
    m = W.make_model(cfg)
    if rec is not None:
        q = W.Rec(m)
    W.set_topo(m, topo, op["los"], stream("m", op["seed"]))
    s = W.snapshot(m, corr=False)
    a, tau = W.cir(m, plan["T"], 1e5, stream("g", plan["seed"]))
    if rec is not None:
        rec.update(calls=q.calls, cir=q.cir)
        q.close()
    return s, a, tau


def far_apart(topo, b):
    x = topo["ut_loc"][b, :, :2].astype(float)
    d = np.linalg.norm(x[:, None]-x[None], axis=-1)+1e9*np.eye(len(x))
    return d.min() > 1500.0


def const_by_table(k, v):
    """Nothing random in there: all links alike (no tabulated spread, a single cluster)"""
    return bool(np.all(v == v.reshape(-1)[0]))


def move(r, cfg, topo, op, plan, p, s0, a0, t0):
    """A user far from all others (no correlation left) moves: the others notice nothing"""
    pb, pu = p["b"] % op["b"], p["u"] % op["u"]
    other = W.gen_topo(p["seed"], op["b"], op["u"], cfg["elev"], "wide")
    q = {k: v.copy() for k, v in topo.items()}
    # as far off as the others are from one another, in the same region
    q["ut_loc"][pb, pu, :2] += 2000.0+np.abs(other["ut_loc"][pb, pu, :2] % 3000.0)
    q["ut_loc"][pb, pu, 2] = other["ut_loc"][pb, pu, 2]
    if not (far_apart(topo, pb) and far_apart(q, pb)):
        return
    s1, a1, t1 = observe(cfg, q, op, plan)
    r.sig.append(("move", pb, pu))
    r.n("fault.moved_user")
    ks = [u for u in range(op["u"]) if u != pu]
    for n in ("los", "distance_2d", "distance_3d", "los_aod", "los_aoa", "los_zod", "los_zoa", "basic_pathloss",
              "lsp_log_mean", "lsp_log_std", "h_ut"):
        x, y = s0[n], s1[n]
        if not isinstance(x, np.ndarray) or x.ndim < 2:
            continue
        x, y = (x[pb, :, ks], y[pb, :, ks]) if x.ndim > 2 else (x[pb, ks], y[pb, ks])
        same(x, y, "user-crosstalk", f"{n} of users {ks} after user {pu} of example {pb} moved")
    for n in W.LSP_NAMES:
        if "lsp."+n in s0:
            close(s1["lsp."+n][pb, :, ks], s0["lsp."+n][pb, :, ks], "user-crosstalk",
                  f"{n} of distant users {ks} after user {pu} of example {pb} moved", 1e-4, 0)
    x, y = (a0[pb][ks], a1[pb][ks]) if cfg["direction"] == "downlink" else (a0[pb][:, :, ks], a1[pb][:, :, ks])
    x, y = np.abs(x), np.abs(y)          # phases differ by rounding of the spreads
    close(y, x, "user-crosstalk", f"channel of distant users {ks} after user {pu} of example {pb} moved", 0,
          2e-3*x.max())


def body(r, plan):
    cfg = plan["cfg"]
    if not plan["ops"]:
        return False
    op = plan["ops"][0]
    topo = gen_topo_cached(op["seed"], op["b"], op["u"], cfg["elev"], op.get("kind"))
    s0, a0, t0 = observe(cfg, topo, op, plan)
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], cfg["agl"], op["los"]]
    for p in plan["faults"]:
        if p.get("move"):
            move(r, cfg, topo, op, plan, p, s0, a0, t0)
            continue
        pb, pu = p["b"] % op["b"], p["u"] % op["u"]
        other = W.gen_topo(p["seed"], op["b"], op["u"], cfg["elev"], "spread")
        q = {k: v.copy() for k, v in topo.items()}
        for f in p["fields"]:
            if p["user"]:
                q[f][pb, pu] = other[f][pb, pu]
            else:
                q[f][pb] = other[f][pb]
        s1, a1, t1 = observe(cfg, q, op, plan)
        r.sig.append((p["user"], pb, pu, p["fields"]))
        r.n("fault.perturbed_user" if p["user"] else "fault.perturbed_example")
        if p["user"]:
            keep = np.ones((op["b"], op["u"]), bool)
            keep[pb, pu] = False
            for b in range(op["b"]):
                k = np.flatnonzero(keep[b])
                ax = a0[b][k] if cfg["direction"] == "downlink" else a0[b][:, :, k]
                ay = a1[b][k] if cfg["direction"] == "downlink" else a1[b][:, :, k]
                same(ax, ay, "user-crosstalk", f"channel of users {k.tolist()} of example {b} after changing "
                     f"{p['fields']} of user {pu} of example {pb}")
            same(t0, t1, "user-crosstalk", "delays")
            for n in ("los", "distance_2d", "basic_pathloss", "lsp_log_mean"):
                same(s0[n], s1[n], "user-crosstalk", n)
        else:
            k = [b for b in range(op["b"]) if b != pb]
            for n in PER_B + tuple("lsp."+x for x in W.LSP_NAMES):
                if n in s0 and isinstance(s0[n], np.ndarray) and s0[n].ndim and s0[n].shape[0] == op["b"]:
                    same(s0[n][k], s1[n][k], "example-crosstalk", f"{n} of examples {k} after changing {p['fields']} "
                         f"of example {pb}")
            same(a0[k], a1[k], "example-crosstalk", f"channel of examples {k} after changing {p['fields']} of example {pb}")
            same(t0[k], t1[k], "example-crosstalk", f"delays of examples {k} after changing {p['fields']} of example {pb}")
        r.dg.add(a1, t1)
    # equal topologies in all examples still give independent channels
    q = {k: np.repeat(v[:1], op["b"], 0) for k, v in topo.items()}
    rec = {}
    _, a2, _ = observe(cfg, q, op, plan, rec)
    parts = dict(phases=rec["cir"][-1]["phi"])
    L = rec["calls"][-1]["lsp"]
    parts["large-scale parameters"] = np.stack([L[k] for k in sorted(L)], -1)
    parts.update({k: rec["calls"][-1]["rays"][k] for k in ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")})
    if cfg["doppler"] and cfg["elev"] < 89.9:
        parts["flight directions"] = np.asarray(rec["cir"][-1]["sat"]).reshape(-1)
    for b in range(1, op["b"]):
        check(not W.same(a2[0], a2[b]), "shared-randomness", f"examples 0 and {b} have the same random channel")
        for k, v in parts.items():
            if v.shape[0] != op["b"] or const_by_table(k, v):
                continue
            if k in ("aoa", "aod", "zoa", "zod") and v[0].std(-1).max() < 1e-3:
                continue             # no spread: the rays have no order
            check(not np.array_equal(v[0], v[b]), "shared-randomness",
                  f"examples 0 and {b} of equal topology have the same {k}")
    r.n("probe.equal_examples")
    r.dg.add(a2)
    return True


run = runner(body)
