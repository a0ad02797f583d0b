"""C08: models are isolated from one another, however their use is interleaved and
whatever they share."""
import random

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from ..trace import LineBomb, Interrupt, ThreadSim

RUNS = (90, 1600)
RULE = ("distinct = (operation histories of all models, shared arrays, realised schedule of operations or "
        "of line bursts); non-trivial = at least one switch between models")
MEASURE = "distinct realised schedules"
REAL = [REAL_TF]
STUB = [STUB_RNG, "thread scheduler: seeded, preempts at line granularity inside the code under test"]


def plan(rnd, i, tier):
    n = rnd.randint(2, 3)
    first = W.gen_cfg(rnd, patterns=W.ANY_PATTERN)
    cfgs = [first]
    for _ in range(n-1):
        m = rnd.random()
        c = W.gen_cfg(rnd, patterns=W.ANY_PATTERN)
        if m < 0.6:
            # same arrays, otherwise different
            c.update(fc=first["fc"], ut=first["ut"], bs=first["bs"])
        if m < 0.3:
            c["scn"] = first["scn"]
        cfgs.append(c)
    hs = []
    for c in cfgs:
        h = gen_history(rnd, rnd.randint(2, 4 if tier == "quick" else 7), p_gen=0.4)
        if not any(o["op"] == "gen" for o in h):
            h.append(gen_gen_op(rnd))
        for o in h:
            if rnd.random() < 0.12:
                o["fault"] = dict(kind=W.pick(rnd, ("line", "draw")), at=rnd.randrange(1, 400))
                if o["fault"]["kind"] == "draw":
                    o["fault"]["at"] %= 6
        hs.append(h)
    threads = i % 2 == 1
    return dict(cfgs=cfgs, hs=hs, share=rnd.random() < 0.8, mode="threads" if threads else "ops",
                sched=dict(seed=rnd.randrange(10**9), burst=W.pick(rnd, (5, 25, 100, 400)),
                           max=1500))


def shrink(plan):
    import copy
    for j in range(len(plan["hs"])):
        if len(plan["hs"]) > 1:
            q = copy.deepcopy(plan)
            del q["hs"][j]
            del q["cfgs"][j]
            yield q
        for i in range(1, len(plan["hs"][j])):
            q = copy.deepcopy(plan)
            del q["hs"][j][i]
            yield q
    if plan["sched"]["max"] > 1:
        for v in (1, 2, plan["sched"]["max"]//2, plan["sched"]["max"]-1):
            if v < plan["sched"]["max"]:
                q = copy.deepcopy(plan)
                q["sched"]["max"] = v
                yield q


def actor(cfg, hist, arrays, name, threads, stats):
    """Generator: one operation per step, yields observations"""
    m = W.make_model(cfg, arrays)
    eff = Effective(cfg)
    for op in hist:
        f = op.get("fault") or {}
        bomb = None
        if f.get("kind") == "line" and not threads:
            bomb = LineBomb(f["at"])
        kw = dict(fail_at=f["at"]) if f.get("kind") == "draw" else {}
        out = None
        try:
            if bomb:
                bomb.__enter__()
            try:
                if op["op"] == "set":
                    do_set(m, eff, op, name, **kw)
                elif op["op"] == "gen":
                    if eff.topo:
                        out = do_gen(m, op, name, **kw)
                elif eff.topo:
                    do_env(m, op)
            finally:
                if bomb:
                    bomb.__exit__()
            if op["op"] != "gen" and (eff.topo or op["op"] == "set"):
                eff.apply(op)
        except (Interrupt, R.InjectedFault):
            stats[f["kind"]] = stats.get(f["kind"], 0)+1
            out = "fault"
        s = W.snapshot(m) if eff.topo else {}
        yield (s, out)


def array_state(a):
    """Everything observable of an antenna array"""
    th, ph = np.meshgrid(np.linspace(0.1, 3.0, 5), np.linspace(-3, 3, 5))
    out = {}
    for n in ("ant_pos", "ant_pos_pol1", "ant_pos_pol2", "ant_ind_pol1", "ant_ind_pol2", "num_ant",
              "polarization", "polarization_type", "element_vertical_spacing", "element_horizontal_spacing",
              "panel_vertical_spacing", "panel_horizontal_spacing", "_lambda_0"):
        try:
            out[n] = np.array(W.npv(getattr(a, n)))
        except (AttributeError, AssertionError):
            pass
    for n in ("ant_pol1", "ant_pol2"):
        try:
            e = getattr(a, n)
        except (AttributeError, AssertionError):
            continue
        out[n] = np.array([W.npv(x) for x in e.field(th.astype(np.float32), ph.astype(np.float32))])
    return out


def body(r, plan):
    cfgs, hs = plan["cfgs"], plan["hs"]
    threads = plan["mode"] == "threads"
    n = len(cfgs)
    shared, was = {}, {}

    def arrays(c, alone):
        if alone or not plan["share"]:
            return None
        k = repr((c["fc"], c["ut"], c["bs"]))
        if k not in shared:
            shared[k] = (W.make_array(c["ut"], c["fc"]), W.make_array(c["bs"], c["fc"]))
            was[k] = [array_state(x) for x in shared[k]]
        return shared[k]

    st = {}
    together = [[] for _ in range(n)]
    rnd = random.Random(plan["sched"]["seed"])
    if threads:
        sim = ThreadSim(rnd, plan["sched"]["burst"], plan["sched"]["max"])

        def fn(i):
            def f():
                together[i] += list(actor(cfgs[i], hs[i], arrays(cfgs[i], False), f"m{i}", True, st))
            return f
        _, errs = sim.run([fn(i) for i in range(n)])
        for e in errs:
            if e is not None:
                raise e
        r.sig = [sim.schedule[:400]]
        r.n("probe.thread_switches", sim.switches)
        r.n("probe.lock_waits", sim.blocked)
    else:
        gens = [actor(cfgs[i], hs[i], arrays(cfgs[i], False), f"m{i}", False, st) for i in range(n)]
        alive = list(range(n))
        order = []
        while alive:
            i = alive[rnd.randrange(len(alive))] if len(order) < plan["sched"]["max"] else alive[0]
            order.append(i)
            try:
                together[i].append(next(gens[i]))
            except StopIteration:
                alive.remove(i)
        r.sig = [order, [[(o["op"], o.get("fields"), (o.get("fault") or {}).get("at")) for o in h] for h in hs]]
        r.n("probe.operation_switches", len(order))
    for k, v in st.items():
        r.n("fault."+k, v)
    for k, pair in shared.items():
        for x, old in zip(pair, was[k]):
            same(old, array_state(x), "array-modified", "an antenna array that models share")
    for i in range(n):
        alone = list(actor(cfgs[i], hs[i], arrays(cfgs[i], True), f"m{i}", threads, {}))
        check(len(alone) == len(together[i]), "cross-talk", f"model {i} stopped early")
        for k, ((s, o), (s2, o2)) in enumerate(zip(together[i], alone)):
            same(s, s2, "cross-talk", f"state of model {i} after operation {k} with and without other models")
            if o is not None and o2 is not None and not isinstance(o, str) and not isinstance(o2, str):
                same(o, o2, "cross-talk", f"channel of model {i} (operation {k}) with and without other models")
            else:
                check(type(o) == type(o2), "cross-talk", f"operation {k} of model {i}: {o!r:.50} vs {o2!r:.50}")
            r.dg.add(s, o)
    return n >= 2


run = runner(body)
