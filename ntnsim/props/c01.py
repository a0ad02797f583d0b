"""C01: a failing or interrupted post-install never damages the Sionna installation, and
a repeated one completes it."""
import errno
import hashlib
import os
import random

from .common_light import *  # noqa: F401,F403
from ..fs import inst as I
from ..fs import sim as S

NEEDS_TF = False
RUNS = (1200, 16000)
RULE = ("distinct = (script, file variant, faults and the operations they hit); non-trivial = a fault was injected into a "
        "file operation of the script")
MEASURE = "distinct (file variant, operation hit, fault)"
REAL = ["post_install.py and post_install_legacy.py (working tree) in real CPython processes, kernel file system"]
STUB = ["pkg_resources and the installed Sionna package (fake installation in a scratch directory)",
        "durable storage: model of what survives a power loss (unsynced names and data may be lost)"]
ASSUMES = ["a completed fsync makes the data of a file durable; names become durable in the order of their changes"]

KINDS = ("kill", "kill", "torn", "power", "power", "power", "errno", "errno", "errno", "sticky", "short", "sigint", "none")


def plan(rnd, i, tier):
    v = I.gen_variant(rnd)
    if v["state"] == "missing" and rnd.random() < .7:
        v["state"] = "todo"
    faults = []
    for _ in range(1 if rnd.random() < .8 else 2):
        faults.append(dict(kind=rnd.choice(KINDS), frac=rnd.random(), pick=rnd.randrange(1000), cut=rnd.random(),
                           seed=rnd.randrange(10**6), by="class" if rnd.random() < .5 else "place"))
        if faults[-1]["kind"] in ("errno", "sticky", "short", "sigint") and rnd.random() < .7:
            # a second fault while the script deals with the first
            faults[-1]["then"] = dict(kind=rnd.choice(("kill", "power", "torn", "errno", "errno", "sigint")), after=rnd.randrange(6),
                                      pick=rnd.randrange(1000), cut=rnd.random())
    return dict(v=v, faults=faults, late=rnd.randrange(10**6))


def shrink(plan):
    import copy
    for k, d in (("big", 0), ("utf8", False), ("comment", False), ("twice", False), ("crlf", False), ("unterminated", False),
                 ("link", False), ("last", False), ("mode", 0o644), ("layout", "main"), ("state", "todo")):
        if plan["v"][k] != d:
            q = copy.deepcopy(plan)
            q["v"][k] = d
            yield q
    for i in range(len(plan["faults"])):
        q = copy.deepcopy(plan)
        q["faults"][i]["kind"] = "none"
        if plan["faults"][i]["kind"] != "none":
            yield q
        if "then" in plan["faults"][i]:
            q = copy.deepcopy(plan)
            del q["faults"][i]["then"]
            yield q


MUT = ("open", "write", "ftruncate", "fsync", "close", "rename", "chmod", "unlink", "mkdir", "symlink", "link", "truncate",
       "read", "chown", "utimens")


def by_class(ops):
    """Positions of the operations of an undisturbed run, by kind of operation"""
    d = {}
    for i, (op, _) in enumerate(ops):
        d.setdefault(S.opclass(op.op), []).append(i)
    return [d[k] for k in sorted(d)]


def decider(r, f, nops, fired, classes=()):
    """Answers of the controller for fault `f`, and for the one that follows it"""
    first = single(r, f, nops, fired, classes)
    if "then" not in f:
        return first
    t, more, st = f["then"], [], dict(n=0)
    second = single(r, dict(t, frac=0.0), 0, more)

    def decide(op):
        if not fired:
            return first(op)
        if not more:
            st["n"] += 1
            if st["n"] > t["after"]:
                a = second(op)
                if more:
                    fired.append(more[0])
                    r.n("fault.second_"+t["kind"])
                    return a
        return first(op)
    return decide


def single(r, f, nops, fired, classes=()):
    at = int(f["frac"]*(nops+1))
    if f.get("by") == "class" and classes:
        c = classes[f["pick"]//7 % len(classes)]
        at = c[int(f["frac"]*len(c))]
    kind = f["kind"]
    state = dict(on=False)

    def decide(op):
        c = S.opclass(op.op)
        if kind == "none" or (fired and not state["on"]):
            return "P"
        if op.n < at and not state["on"]:
            return "P"
        if kind in ("kill", "power"):
            fired.append((op.op, kind))
            return "K"
        if kind == "torn":
            if c != "write":
                return "P"
            fired.append((op.op, kind))
            return f"T {int(op.size*f['cut'])}"
        if kind == "short":
            if c not in ("write", "read") or op.size < 2:
                return "P"
            fired.append((op.op, kind))
            return f"S {max(1, int(op.size*f['cut']))}"
        if kind == "sigint":
            fired.append((op.op, kind))
            return "I"
        es = S.ERRNOS.get(c) or ()
        if kind == "errno":
            if not es:
                return "P"
            e = es[f["pick"] % len(es)]
            fired.append((op.op, e))
            return f"E {getattr(errno, e)}"
        if kind == "sticky":
            # full or read-only or broken disk from now on; removing still works on a full one
            e = ("ENOSPC", "EROFS", "EIO")[f["pick"] % 3]
            hit = dict(ENOSPC=("write", "mkdir", "symlink", "link"), EROFS=("rename", "chmod", "unlink", "mkdir", "link"),
                       EIO=("write", "read", "fsync"))[e]
            if c in hit or c == "open" and (op.op.startswith("openw") and e != "EIO") and (e == "EROFS" or "c" in op.op):
                state["on"] = True
                fired.append((op.op, "sticky "+e))
                return f"E {getattr(errno, e)}"
        return "P"
    return decide


def body(r, plan):
    v = plan["v"]
    w = S.World()
    try:
        init, rel = I.setup(w, v)
        want = I.expected(init)
        start = w.tree()
        cmd, env = I.command(w, v), I.env(w)
        # undisturbed run: the result, and the number of operations
        base = w.run([cmd], lambda op: "P", extra_env=env)
        outcome(r, base, start, rel, (want,), "an undisturbed run", init)
        nops, classes = len(base.ops), by_class(base.ops)
        r.n("probe.operations", nops)
        # the power fails after a run that reported its end
        rnd = random.Random(plan["late"])
        for k in range(3):
            t, lost, names = base.power_loss(rnd)
            r.n("fault.late_power_loss")
            r.n("fault.lost_data", lost)
            state(t, start, rel, (init, want), f"power loss ({lost} files lost data, {names} name changes lost) after a "
                  "complete run", init, True)
        again = w.run([cmd], lambda op: "P", extra_env=env)
        outcome(r, again, start, rel, (want,), "a second run", init)
        w.load(start)
        sig = [v["layout"], v["state"], v["link"], v["crlf"], v["last"], v["unterminated"], v["big"], nops]
        any_fault = False
        tree = start
        for f in plan["faults"]:
            fired = []
            w.load(tree)
            tree = w.tree()
            d = decider(r, f, nops, fired, classes)
            res = w.run([cmd], d, extra_env=env)
            what = "a run with "+" and ".join(f"{x[1]} at {x[0]}" for x in fired[:2]) if fired else "an undisturbed run"
            died = bool(res.killed)
            if fired:
                any_fault = True
                r.n("fault."+(f["kind"] if f["kind"] != "errno" else fired[0][1]), len(fired))
            sig.append((f["kind"], fired[:1]))
            ok = (init, want) if fired else (want,)
            outcome(r, res, start, rel, ok, what, init, debris=died or bool(set(tree)-set(start)))
            finals = [res.final]
            if "power" in (f["kind"], f.get("then", {}).get("kind")) and fired:
                rnd = random.Random(f["seed"])
                for k in range(4):
                    t, lost, names = res.power_loss(rnd)
                    r.n("fault.lost_data", lost)
                    r.n("fault.lost_names", names > 0)
                    state(t, start, rel, ok, f"power loss ({lost} files lost data, {names} name changes lost) in {what}", init, True)
                    finals.append(t)
            if not died and fired and not any("unlink" in x[0] or x[1] in ("sigint",) for x in fired):
                extra = set(res.final)-set(start)-set(tree)
                extra = {e for e in extra if not e.startswith("tmp")}
                check(not extra, "debris", f"{what} leaves {sorted(extra)} behind")
            if not fired and f["kind"] != "none":
                r.n("probe.fault_not_reached")
            # recovery: the surviving disk, no more faults
            for t in finals:
                w.load(t)
                rec = w.run([cmd], lambda op: "P", extra_env=env)
                outcome(r, rec, start, rel, (want,), f"a repeated run after {what}", init, debris=True)
                r.n("probe.recoveries")
            tree = res.final
            r.dg.add(repr(sig[-1]), hashlib.sha256(repr(sorted((k, x[0], x[3]) for k, x in res.final.items() if k in start)).encode()).hexdigest())
        r.sig = sig
        return any_fault
    finally:
        w.close()


def state(tree, start, rel, ok, what, init, debris):
    t, e = I.resolve(tree, rel)
    t0, e0 = I.resolve(start, rel)
    check(tree.get(rel, " ")[0] == start[rel][0], "init-lost", f"{what}: __init__.py is gone or no longer a {start[rel][0]}")
    check(e is not None and e[0] == "f", "init-lost", f"{what}: __init__.py is gone")
    check(e[3] in ok, "init-damaged", lambda: f"{what}: __init__.py is {describe(e[3], init)}")
    check(e[2] == e0[2], "mode-changed", f"{what}: mode {oct(e[2])} instead of {oct(e0[2])}")
    for k, x in start.items():
        if k in (rel, t0) or k.startswith("tmp"):
            continue
        y = tree.get(k)
        check(y is not None and (y[0], y[2], y[3]) == (x[0], x[2], x[3]), "other-file", f"{what}: {k} was changed")
    if not debris:
        extra = {k for k in tree if k not in start and not k.startswith("tmp")}
        check(not extra, "debris", f"{what} leaves {sorted(extra)} behind")


def outcome(r, res, start, rel, ok, what, init, debris=False):
    check(not res.outside, "outside", lambda: f"{what} wants to {res.outside[0][0]} {res.outside[0][1]}")
    state(res.final, start, rel, ok, what, init, debris or len(ok) > 1)


def describe(c, init):
    want = I.expected(init)
    if c == init:
        return "as before (not registered)"
    if c == want:
        return "registered"
    if init.startswith(c):
        return f"cut to {len(c)} of {len(init)} bytes"
    if want.startswith(c):
        return f"cut to {len(c)} of {len(want)} bytes"
    return f"{len(c)} bytes that are neither the old nor the registered content: ...{c[-120:]!r}"


run = runner(body)
