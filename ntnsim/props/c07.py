"""C07: channel generation only reads: it leaves the model as it was and depends on
nothing but the topology, the LSPs and its own randomness."""
from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from ..trace import LineBomb, Interrupt

RUNS = (130, 2200)
RULE = ("distinct = (scenario, band, direction, LSP mode, sequence of generations with their sampling, "
        "faults and locations); non-trivial = at least two generations on one topology")
MEASURE = "distinct generation histories"
REAL = [REAL_TF]
STUB = [STUB_RNG, "caller's interruption: an exception raised before a seeded line of the code under test"]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, patterns=W.ANY_PATTERN)
    ops = [gen_set_op(rnd, True)]
    for _ in range(rnd.randint(2, 5 if tier == "quick" else 10)):
        o = gen_gen_op(rnd)
        m = rnd.random()
        if m < 0.25:
            o["fault"] = dict(kind="line", at=1+int(900*rnd.random()**1.3))
        elif m < 0.4:
            o["fault"] = dict(kind="draw", at=rnd.randrange(16))
        elif m < 0.47:
            o["fault"] = dict(kind="args")
        ops.append(o)
    if i % 10 == 3:
        ops.insert(rnd.randint(1, len(ops)), dict(op="show"))
    return dict(cfg=cfg, ops=ops)


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], cfg["agl"]]
    gens = []
    base = None
    for op in plan["ops"]:
        if op["op"] == "set":
            do_set(m, eff, op)
            eff.apply(op)
            base = W.snapshot(m)
            r.sig.append((op["los"], op["b"], op["u"]))
            continue
        if base is None:
            continue
        if op["op"] == "show":
            import matplotlib.pyplot as plt
            m.show_topology()
            plt.close("all")
            r.n("probe.show_topology")
        else:
            f = op.get("fault") or {}
            bomb = LineBomb(f.get("at") if f.get("kind") == "line" else None)
            err = None
            try:
                with bomb:
                    if f.get("kind") == "args":
                        W.cir(m, -3, op["fs"], stream("bad", 0))
                    else:
                        out = do_gen(m, op, fail_at=f["at"] if f.get("kind") == "draw" else None)
            except (Exception, Interrupt) as e:
                err = e
                if not f:
                    raise
                r.n("fault."+f["kind"])
            if err is None and f.get("kind") != "args":
                gens.append((op, out))
                finite(dict(a=out[0], tau=out[1]))
                r.n("probe.generations")
                r.n("sim_s", op["T"]/op["fs"])
            r.sig.append((op["T"], op.get("three"), f.get("kind"), f.get("at"), bomb.fired))
        s = W.snapshot(m)
        same(base, s, "generation-writes", f"state of the model before and after {op['op']}"
             + (" (interrupted)" if op.get("fault") else ""))
        r.dg.add(s)
    if base is None or not gens:
        return False
    # every generation, alone on a fresh model; the last of them first
    t = twin_of(eff)
    for op, out in reversed(gens):
        o2 = dict(op, three=not op.get("three"))
        same(do_gen(t, o2), out, "generation-history",
             "channel on a fresh model vs. after other generations with the same randomness")
        r.dg.add(*out)
    same(W.snapshot(t), base, "generation-writes", "state of the fresh model after its generations")
    return len(gens) >= 2


run = runner(body)
