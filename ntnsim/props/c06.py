"""C06: lifetime of LSPs and LoS states: drawn once per topology update, used by every
generation until the next."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (150, 2600)
RULE = ("distinct = (scenario, band, direction, LSP mode, operation history); non-trivial = at least one "
        "generation after an update that must keep the LSPs or one that must renew them")
MEASURE = "distinct operation histories"
REAL = [REAL_TF]
STUB = [STUB_RNG]
shrink = shrink_sizes
DRAWN = ("lsp.ds", "lsp.asa", "lsp.sf", "lsp.zsa")


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, agl=i % 3 == 2)
    ops = gen_history(rnd, rnd.randint(4, 8 if tier == "quick" else 14), p_gen=0.4)
    ops.insert(rnd.randint(1, len(ops)), gen_gen_op(rnd))
    # bursts of generations under one topology
    return dict(cfg=cfg, ops=ops)




def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    rec = W.Rec(m)
    eff = Effective(cfg)
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], cfg["agl"]]
    prev, los, used = None, None, None
    nt = 0
    try:
        for op in plan["ops"]:
            if op["op"] == "gen":
                if not eff.topo:
                    continue
                n0 = len(rec.calls)
                do_gen(m, op)
                if len(rec.calls) != n0+1:
                    continue
                u = rec.calls[-1]["lsp"]
                if cfg["agl"]:
                    if used is not None:
                        check(not all(W.same(u[k], used[k]) for k in DRAWN),
                              "lsp-not-renewed", "always_generate_lsp is set, but a generation used the "
                              "LSPs of an earlier one")
                        r.n("probe.renewed")
                        nt += 1
                else:
                    same(u, prev, "lsp-lifetime", "LSPs used by a generation vs. those drawn with the topology")
                    r.n("probe.kept")
                    nt += 1
                used = u
                r.sig.append("gen")
            elif op["op"] == "set":
                do_set(m, eff, op)
                eff.apply(op)
                r.sig.append((eff.relevant, op["los"]))
                if eff.relevant:
                    new = W.lsp_of(m)
                    if not cfg["agl"]:
                        check(new, "lsp-lifetime", "no LSPs after a topology update")
                        if prev:
                            check(not all(W.same(new[k], prev[k]) for k in DRAWN),
                                  "lsp-not-renewed", "a topology update kept the old LSPs")
                    prev, used = new, None
                    los = np.array(m._scenario.los)
            elif eff.topo:
                do_env(m, op)
                eff.apply(op)
                r.sig.append("env")
            if not eff.topo:
                continue
            same(np.array(m._scenario.los), los, "los-lifetime", "LoS states changed without a topology update")
            if not cfg["agl"]:
                same(W.lsp_of(m), prev, "lsp-lifetime", f"LSPs after {op['op']}")
            r.dg.add(los, prev or {}, used or {})
    finally:
        rec.close()
    # a new draw of LoS states with every location update
    if eff.topo and plan.get("run", 0) % 4 == 0:
        p = np.mean(LOSP[cfg["scn"]][F.angle(cfg)])
        seen = []
        topo = gen_topo_cached(plan.get("run", 0), 3, 12, cfg["elev"], "spread")
        m2 = W.make_model(dict(cfg, ut=W.SIMPLE, bs=W.SIMPLE))
        for k in range(6):
            W.set_topo(m2, topo if k == 0 else dict(ut_loc=topo["ut_loc"]), stream=stream("los", k, plan.get("run", 0)))
            seen.append(np.array(m2._scenario.los))
        if 0.15 <= p <= 0.85:
            check(any(not np.array_equal(seen[0], x) for x in seen[1:]), "los-not-renewed",
                  "LoS states of 36 links did not change over 6 topology updates")
            r.n("probe.los_redraws")
        r.dg.add(*seen)
    return nt > 0


# TR 38.811 Table 6.6.1-1 (per cent)
LOSP = dict(dur=dict(zip(range(10, 100, 10), (.282, .331, .398, .468, .537, .612, .738, .82, .981))),
            urb=dict(zip(range(10, 100, 10), (.246, .386, .493, .613, .726, .805, .919, .968, .992))),
            sur=dict(zip(range(10, 100, 10), (.782, .869, .919, .929, .935, .94, .949, .952, .998))))
run = runner(body)
