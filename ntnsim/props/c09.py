"""C09: channels generated concurrently from one model are the channels generated one
after the other."""
import random

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from ..trace import ThreadSim

RUNS = (110, 2000)
RULE = ("distinct = realised schedule (which caller ran for how many lines, in order) with the configuration; "
        "non-trivial = at least two preemptions inside a generation")
MEASURE = "distinct realised schedules"
REAL = [REAL_TF]
STUB = [STUB_RNG, "thread scheduler: seeded, preempts at line granularity inside the code under test"]


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, patterns=W.ANY_PATTERN)
    n = rnd.randint(2, 3)
    return dict(cfg=cfg, set=gen_set_op(rnd, True),
                callers=[[gen_gen_op(rnd) for _ in range(rnd.randint(1, 2 if tier == "quick" else 4))]
                         for _ in range(n)],
                readers=rnd.random() < 0.4,
                draw=W.pick(rnd, (None, None, None, 0, 3, 7)),
                sched=dict(seed=rnd.randrange(10**9), burst=W.pick(rnd, (3, 10, 40, 150)), max=2500))


def shrink(plan):
    import copy
    for j in range(len(plan["callers"])):
        if len(plan["callers"]) > 1:
            q = copy.deepcopy(plan)
            del q["callers"][j]
            yield q
        for i in range(len(plan["callers"][j])):
            if len(plan["callers"][j]) > 1:
                q = copy.deepcopy(plan)
                del q["callers"][j][i]
                yield q
    if plan["readers"] or plan["draw"] is not None:
        yield dict(plan, readers=False, draw=None)
    mx = plan["sched"]["max"]
    for v in (1, 2, 3, 5, 10, mx//2):
        if v < mx:
            yield dict(plan, sched=dict(plan["sched"], max=v))


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    do_set(m, eff, plan["set"])
    eff.apply(plan["set"])
    base = W.snapshot(m)

    # caller 0 may meet failures of its own random source
    def work(i):
        def f():
            out = []
            for k, op in enumerate(plan["callers"][i]):
                if plan["draw"] is not None and i == 0:
                    try:
                        do_gen(m, op, f"c{i}{k}", fail_at=plan["draw"])
                    except R.InjectedFault:
                        r.n("fault.draw")
                out.append(do_gen(m, op, f"c{i}{k}"))
            return out
        return f

    def reader():
        return [W.snapshot(m) for _ in range(3)]

    rnd = random.Random(plan["sched"]["seed"])
    sim = ThreadSim(rnd, plan["sched"]["burst"], plan["sched"]["max"])
    fns = [work(i) for i in range(len(plan["callers"]))]
    if plan["readers"]:
        fns.append(reader)
    res, errs = sim.run(fns)
    for e in errs:
        if e is not None:
            raise e
    r.sig = [sim.schedule[:500], cfg["scn"], cfg["direction"]]
    r.n("probe.preemptions", sim.switches)
    r.n("probe.lock_waits", sim.blocked)
    if plan["readers"]:
        for s in res[-1]:
            same(s, base, "torn-read", "state read during concurrent generations")
    same(W.snapshot(m), base, "concurrent-write", "state after concurrent generations")
    t = twin_of(eff)
    for i, ops in enumerate(plan["callers"]):
        for k, op in enumerate(ops):
            ref = do_gen(t, op, f"c{i}{k}")
            same(res[i][k], ref, "concurrent-generation",
                 f"channel {k} of caller {i}, concurrent vs. alone")
            r.dg.add(*ref)
    return sim.switches > 2


run = runner(body)
