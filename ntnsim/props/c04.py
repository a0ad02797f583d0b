"""C04: the state of a model is the last-given value of everything, whatever the
history of updates."""
from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (150, 2600)
RULE = ("distinct = (scenario, band, direction, elevation bucket, sequence of operations with the "
        "set of fields given, LoS request and resize) of the history; non-trivial = at least two updates")
MEASURE = "distinct operation histories"
REAL = [REAL_TF]
STUB = [STUB_RNG]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd)
    return dict(cfg=cfg, ops=gen_history(rnd, rnd.randint(3, 7 if tier == "quick" else 14)))


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], round(cfg["elev"]/10)]
    sets = 0
    for op in plan["ops"]:
        if not eff.topo and op["op"] != "set":
            continue
        if op["op"] == "gen":
            r.sig.append("gen")
            out = do_gen(m, op)
            finite(dict(a=out[0], tau=out[1]))
            r.n("probe.generations")
            r.n("sim_s", op["T"]/op["fs"])
        else:
            if op["op"] == "set":
                do_set(m, eff, op)
                given = sorted(eff.fields_of(op))
                r.sig.append((given, op["los"], op["b"], op["u"]))
                if len(given) < 6:
                    r.n("probe.partial_updates")
                sets += 1
            else:
                do_env(m, op)
                r.sig.append(sorted(op.get("env", ["doppler"])))
                r.n("probe.environment_updates")
            eff.apply(op)
        s, g = ref_check(m, eff)
        r.dg.add(s)
        if op["op"] != "gen":
            # same values in one go: same state, bit by bit, and same channel
            t = twin_of(eff)
            same(W.snapshot(t, lsp=False), W.snapshot(m, lsp=False), "history-dependent",
                 "state after the history vs. a fresh model given the same values at once")
    t = twin_of(eff)
    if not cfg["agl"] and eff.relevant:
        same(W.lsp_of(t), W.lsp_of(m), "history-dependent", "LSPs")
    rec = W.Rec(m)
    go = dict(op="gen", seed=plan["run"] if "run" in plan else 0, T=3, fs=1e5)
    a = do_gen(m, go)
    rec.close()
    b = do_gen(t, go)
    same(a, b, "history-dependent", "channel after the history vs. of a fresh model")
    r.dg.add(*a)
    return sets >= 2


run = runner(body)
