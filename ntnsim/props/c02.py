"""C02: however often and however concurrently the post-install runs, the registration ends
up in the file exactly once, in the right place, and readers never see anything else."""
import errno
import hashlib
import random

from .common_light import *  # noqa: F401,F403
from ..fs import inst as I
from ..fs import sim as S
from .c01 import state, describe, shrink as shrink0

NEEDS_TF = False
RUNS = (500, 9000)
RULE = ("distinct = (script, file variant, number of installers, sequence in which they alternate, faults); non-trivial = "
        "at least two installers ran and file operations of one were between those of another, or at least three runs in sequence")
MEASURE = "distinct interleavings of file operations"
REAL = ["post_install.py and post_install_legacy.py (working tree) in real, concurrent CPython processes, kernel file system"]
STUB = ["pkg_resources and the installed Sionna package (fake installation in a scratch directory)",
        "scheduling of the processes (seeded, one file operation at a time)"]


def plan(rnd, i, tier):
    v = I.gen_variant(rnd)
    if v["state"] != "todo" and rnd.random() < .6:
        v["state"] = "todo"
    n = rnd.choice((1, 2, 2, 2, 3, 3))
    f = None
    if n > 1 and rnd.random() < .35:
        f = dict(proc=rnd.randrange(n), at=rnd.randrange(18), kind=rnd.choice(("K", "K", "E", "S", "I", "T")), pick=rnd.randrange(100),
                 cut=rnd.random())
    return dict(v=v, n=n, seed=rnd.randrange(10**9), burst=rnd.choice((1, 1, 2, 4, 8)), fault=f, rounds=rnd.randint(1, 3),
                schedule=None)


def shrink(plan):
    import copy
    for q in shrink0(dict(plan, faults=[])):
        q.pop("faults")
        yield q
    if plan["fault"]:
        q = copy.deepcopy(plan)
        q["fault"] = None
        yield q
    if plan["n"] > 2:
        q = copy.deepcopy(plan)
        q["n"] = 2
        yield q
    if plan["rounds"] > 1:
        q = copy.deepcopy(plan)
        q["rounds"] = 1
        yield q
    if plan["burst"] < 30:
        q = copy.deepcopy(plan)
        q["burst"] = 40
        yield q


def body(r, plan):
    v, n = plan["v"], plan["n"]
    w = S.World()
    try:
        init, rel = I.setup(w, v)
        want = I.expected(init)
        start = w.tree()
        cmd, env = I.command(w, v), I.env(w)
        rnd = random.Random(plan["seed"])
        cur = dict(p=None, left=0)
        f = plan["fault"]
        fired = []
        per = {}

        def choose(ready):
            if cur["left"] <= 0 or cur["p"] not in ready:
                cur["p"] = ready[rnd.randrange(len(ready))]
                cur["left"] = 1+int(rnd.expovariate(1/plan["burst"]))
            cur["left"] -= 1
            return cur["p"]

        def decide(op):
            k = per.get(op.proc, 0)
            per[op.proc] = k+1
            if f and op.proc == f["proc"] and k >= f["at"] and not fired:
                c = S.opclass(op.op)
                if f["kind"] == "E":
                    es = S.ERRNOS.get(c)
                    if not es:
                        return "P"
                    e = es[f["pick"] % len(es)]
                    fired.append((op.op, e))
                    return f"E {getattr(errno, e)}"
                if f["kind"] in "ST" and (c != "write" or op.size < 2):
                    return "P"
                fired.append((op.op, f["kind"]))
                return f["kind"] if f["kind"] in "KI" else f"{f['kind']} {max(1, int(op.size*f['cut']))}"
            return "P"

        def on_state(t):
            state(t, start, rel, (init, want), "while installers run", init, True)
            r.n("probe.states_checked")

        res = w.run([cmd]*n, decide, choose, extra_env=env, on_state=on_state)
        check(not res.outside, "outside", lambda: f"installer wants to {res.outside[0][0]} {res.outside[0][1]}")
        order = [op.proc for op, _ in res.ops]
        switches = sum(a != b for a, b in zip(order, order[1:]))
        r.n("probe.operations", len(order))
        r.n("probe.switches", switches)
        if fired:
            r.n("fault."+{"K": "kill", "I": "sigint", "T": "torn", "S": "short"}.get(fired[0][1], fired[0][1]))
        what = f"{n} concurrent installers"+(f", one with {fired[0][1]} at {fired[0][0]}," if fired else "")
        ok = (want,) if n > 1 or not fired else (init, want)
        state(res.final, start, rel, ok, what, init, bool(fired))
        # whatever comes later changes nothing
        for k in range(plan["rounds"]):
            res = w.run([cmd], lambda op: "P", extra_env=env)
            state(res.final, start, rel, (want,), f"run {k+1} after {what}", init, True)
        r.n("probe.repeated_runs", plan["rounds"])
        r.sig = [v["layout"], v["state"], v["crlf"], v["last"], v["unterminated"], v["link"], order, fired]
        r.dg.add(order, fired, hashlib.sha256(res.final[I.resolve(res.final, rel)[0]][3]).hexdigest())
        return n > 1 and switches > n-1 or plan["rounds"] > 2
    finally:
        w.close()


run = runner(body)
