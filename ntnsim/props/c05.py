"""C05: a topology update that fails or is interrupted changes nothing."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from ..trace import LineBomb, Interrupt

RUNS = (150, 2600)
RULE = ("distinct = (operation history, kind of every fault, code location it hit); non-trivial = at "
        "least one fault fired inside an update")
MEASURE = "distinct (history, fault kind, fault location) sequences"
REAL = [REAL_TF]
STUB = [STUB_RNG, "caller's interruption: an exception raised before a seeded line of the code under test"]
shrink = shrink_sizes
LINES = 700


def gen_fault(rnd):
    m = rnd.random()
    if m < 0.25:
        return dict(kind="draw", at=W.pick(rnd, (0, 0, 1, 1, 2, 3)))
    if m < 0.7:
        if rnd.random() < 0.3:      # counted from the end of the update
            return dict(kind="line", at=-rnd.randint(1, 8))
        return dict(kind="line", at=1+int(LINES*rnd.random()**1.3))
    return dict(kind="bad", what=W.pick(rnd, ("ut_count", "ut_rank", "bs_batch", "state_count",
                                              "los", "obj", "missing")))


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, patterns=W.ANY_PATTERN)
    ops = gen_history(rnd, rnd.randint(2, 5 if tier == "quick" else 9), p_gen=0.2)
    faults = []
    for k, op in enumerate(ops):
        if op["op"] != "gen":
            for _ in range(W.pick(rnd, (0, 1, 1, 2))):
                faults.append(dict(gen_fault(rnd), before=k,
                                   attempt=gen_set_op(rnd, k == 0, (op["b"], op["u"])
                                                      if "b" in op and k else None)
                                   if rnd.random() < 0.5 else None))
    return dict(cfg=cfg, ops=ops, faults=faults)


def bad_kwargs(eff, what):
    import tensorflow as tf
    t = eff.topo
    if what == "missing" or not t:
        return dict(ut_loc=tf.zeros([1, 2, 3])) if not t else None
    b, u = t["ut_loc"].shape[:2]
    g = np.zeros
    if what == "ut_count":
        return dict(ut_loc=tf.constant(g((b, u+2, 3), np.float32)+1.0))
    if what == "ut_rank":
        return dict(ut_loc=tf.constant(g((u, 3), np.float32)+1.0))
    if what == "bs_batch":
        return dict(bs_loc=tf.constant(g((b+3, 1, 3), np.float32)+6e5))
    if what == "state_count":
        return dict(in_state=tf.constant(g((b, u+2), bool)))
    if what == "los":
        return dict(los="line-of-sight")
    return dict(ut_loc=tf.constant(t["ut_loc"]), bs_loc=object())


def body(r, plan):
    cfg = plan["cfg"]
    m, c = W.make_model(cfg), W.make_model(cfg)
    eff = Effective(cfg)
    hit = 0
    for k, op in enumerate(plan["ops"]):
        for f in plan["faults"]:
            if f["before"] != k or op["op"] == "gen":
                continue
            att = f.get("attempt") or op
            if not eff.topo and att["op"] != "set":
                continue
            before = W.snapshot(m)
            err = None
            at = f["at"] if f["kind"] == "line" else None
            if at is not None and at < 0:
                # the length of this update, on a model with the same history
                dry, count = twin_of(eff) if eff.topo else W.make_model(cfg), LineBomb(None)
                with count:
                    do_set(dry, eff, att) if att["op"] == "set" else do_env(dry, att)
                at = max(1, count.count+1+at)
            bomb = LineBomb(at)
            kw = {}
            if f["kind"] == "draw":
                kw = dict(fail_at=f["at"])
            try:
                if f["kind"] == "bad":
                    bk = bad_kwargs(eff, f["what"])
                    if bk is None:
                        continue
                    with R.use(stream("bad", 1)):
                        m.set_topology(**bk)
                elif att["op"] == "set":
                    with bomb:
                        do_set(m, eff, att, **kw)
                else:
                    with bomb:
                        do_env(m, att)
            except (Exception, Interrupt) as e:
                err = e
            after = W.snapshot(m)
            if err is None:
                if not W.diff(before, after):
                    continue
                if f["kind"] == "bad":
                    # accepted: nothing is known about such a topology
                    r.n("probe.bad_input_accepted")
                    return hit > 0
                # the fault was never reached: a normal update
                if att["op"] == "set":
                    do_set(c, eff, att)
                else:
                    do_env(c, att)
                eff.apply(att)
                r.n("probe.fault_not_reached")
                continue
            hit += 1
            r.n("fault."+f["kind"] + ("_"+f["what"] if f["kind"] == "bad" else ""))
            where = bomb.fired if f["kind"] == "line" else type(err).__name__
            r.sig.append((f["kind"], where, f.get("at") if f["kind"] == "line" else f.get("what", f.get("at"))))
            d = W.diff(before, after)
            if d and f["kind"] == "line":
                # interrupted after its last effect: then it must be complete
                e2 = eff.copy()
                e2.apply(att)
                t = twin_of(e2)
                if not W.diff(W.snapshot(t, lsp=e2.relevant), W.snapshot(m, lsp=e2.relevant)):
                    eff = e2
                    if att["op"] == "set":
                        do_set(c, eff, att)
                    else:
                        do_env(c, att)
                    continue
            check(not d, "partial-update",
                  f"after a failed update ({f['kind']} at {where}) {', '.join(d)} changed")
            r.dg.add(after)
        if op["op"] == "gen":
            if not eff.topo:
                continue
            a, b = do_gen(m, op), do_gen(c, op)
            same(a, b, "failed-update-leaks", "channel of a model with and without failed updates")
            r.dg.add(*a)
            r.sig.append("gen")
        elif op["op"] == "set":
            do_set(m, eff, op)
            do_set(c, eff, op)
            r.sig.append((sorted(eff.fields_of(op)), op["los"]))
            eff.apply(op)
        else:
            if not eff.topo:
                continue
            do_env(m, op)
            do_env(c, op)
            eff.apply(op)
            r.sig.append("env")
        a, b = W.snapshot(m), W.snapshot(c)
        same(a, b, "failed-update-leaks", "state of a model with and without failed updates")
        r.dg.add(a)
    if eff.topo:
        go = dict(op="gen", seed=5, T=2, fs=1e5)
        a, b = do_gen(m, go), do_gen(c, go)
        same(a, b, "failed-update-leaks", "channel of a model with and without failed updates")
        r.dg.add(*a)
        ref_check(m, eff)
    return hit > 0


run = runner(body)
