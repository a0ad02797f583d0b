"""C22: however an installation run ends, Sionna stays importable; a repeated run completes the
installation."""
import errno
import hashlib
import os
import random

from .common_light import *  # noqa: F401,F403
from ..fs import inst as I
from ..fs import shell as H
from ..fs import sim as S
from .c01 import by_class, decider, describe

NEEDS_TF = False
RUNS = (500, 9000)
RULE = ("distinct = (script, faults of tools, file operation hit and fault); non-trivial = a fault was injected into a tool "
        "or a file operation of the installation")
MEASURE = "distinct (tool fault, operation hit, fault)"
REAL = ["install.sh, install_legacy.sh, post_install.py and post_install_legacy.py (working tree) in real bash and CPython "
        "processes, coreutils, kernel file system"]
STUB = ["pip, curl, wget, pkg_resources and the installed Sionna package (stand-ins acting on a scratch directory)",
        "durable storage: model of what survives a power loss"]
ASSUMES = ["pip installs the package completely or reports an error", "names become durable in the order of their changes"]

KINDS = ("kill", "kill", "power", "power", "torn", "errno", "errno", "errno", "sticky", "sigint", "none")


def plan(rnd, i, tier):
    v = I.gen_variant(rnd)
    v.update(big=0, state="todo", space=rnd.random() < .2)
    faults = []
    for _ in range(rnd.choice((1, 1, 1, 2, 3))):
        tools = {}
        if rnd.random() < .6:
            for _ in range(rnd.choice((1, 1, 1, 2))):
                t = rnd.choice(sorted(H.FAULTS))
                tools[t] = rnd.choice(H.FAULTS[t])
        faults.append(dict(tools=tools, kind=rnd.choice(KINDS) if not tools or rnd.random() < .25 else "none",
                           frac=rnd.random(), pick=rnd.randrange(1000), cut=rnd.random(), seed=rnd.randrange(10**6),
                           by="class" if rnd.random() < .4 else "place"))
        if faults[-1]["kind"] in ("errno", "sticky", "short", "sigint") and rnd.random() < .4:
            faults[-1]["then"] = dict(kind=rnd.choice(("kill", "power", "torn", "errno", "errno", "sigint")), after=rnd.randrange(8),
                                      pick=rnd.randrange(1000), cut=rnd.random())
    return dict(v=v, faults=faults)


def shrink(plan):
    import copy
    for k, d in (("utf8", False), ("comment", False), ("twice", False), ("crlf", False), ("unterminated", False),
                 ("link", False), ("last", False), ("mode", 0o644), ("layout", "main"), ("space", False)):
        if plan["v"][k] != d:
            q = copy.deepcopy(plan)
            q["v"][k] = d
            yield q
    for i, f in enumerate(plan["faults"]):
        if f["kind"] != "none":
            q = copy.deepcopy(plan)
            q["faults"][i]["kind"] = "none"
            yield q
        for t in f["tools"]:
            q = copy.deepcopy(plan)
            del q["faults"][i]["tools"][t]
            yield q


class Ctx:
    pass


def walk(w, tree, rel):
    """Entry at `rel`, following links (relative to the scratch root)"""
    parts = rel.split("/")
    cur = ""
    for n, p in enumerate(parts):
        nxt = f"{cur}/{p}" if cur else p
        for _ in range(8):
            e = tree.get(nxt)
            if e is None or e[0] != "l":
                break
            t = e[3] if e[3].startswith("/") else os.path.join(w.root, os.path.dirname(nxt), e[3])
            nxt = os.path.relpath(os.path.normpath(t), w.root)
            if nxt.startswith(".."):
                return None
        if e is None:
            return None
        cur = nxt
    return tree.get(cur)


def state(c, tree, what, complete=False):
    w = c.w
    rel, e = I.resolve(tree, c.rel)
    check(e is not None and e[0] == "f" and e[3] in (c.init, c.want), "init-damaged",
          lambda: f"{what}: __init__.py is {describe(e[3], c.init) if e and e[0] == 'f' else 'gone'}")
    pkg = os.path.dirname(c.rel)+"/tr38811"
    ini = walk(w, tree, pkg+"/__init__.py")
    there = ini is not None and ini[0] == "f"
    if I.NEW in e[3]:
        check(there, "unimportable", lambda: f"{what}: Sionna imports tr38811, but there is no such package "
              f"({'link to '+repr(tree[pkg][3]) if pkg in tree else 'no link'}): Sionna cannot be imported any more")
    if complete:
        check(I.NEW in e[3] and there, "incomplete", lambda: f"{what}: "
              f"{'not registered' if I.NEW not in e[3] else 'not linked'}, {sorted(set(tree)-set(c.start))}")
        check(e[3] == c.want, "init-damaged", f"{what}: __init__.py is {describe(e[3], c.init)}")
    t0 = I.resolve(c.start, c.rel)[0]
    for k, x in c.start.items():
        if k in (c.rel, t0) or k.split("/")[0] == "tmp":
            continue
        y = tree.get(k)
        check(y is not None and (y[0], y[2], y[3]) == (x[0], x[2], x[3]), "other-file", f"{what}: {k} was changed")


def pollution(c, tree, what, home):
    """Names an installation has no business to make"""
    own = (f"{c.site}/OpenNTN", f"{c.site}/OpenNTN-1.0.dist-info", f"{c.site}/OpenNTN/models", f"{c.site}/OpenNTN/__init__.py",
           f"{c.site}/OpenNTN/models/__init__.py", f"{c.site}/OpenNTN/models/a.json", f"{c.site}/OpenNTN/models/models_init.py",
           os.path.dirname(c.rel)+"/tr38811")
    extra = [k for k in tree if k not in c.start and k not in own and not k.startswith("tmp/")
             and (home or not k.startswith("home/"))]
    check(not extra, "debris", lambda: f"{what} leaves {sorted(extra)}")


def body(r, plan):
    v = plan["v"]
    w = S.World()
    try:
        c = Ctx()
        c.w = w
        c.init, c.rel, c.site = H.setup(w, v)
        c.want = I.expected(c.init)
        w.put("home/notes.txt", "my notes\n")
        w.put("home/simulate.py", "import sionna\n")
        w.put("home/install.log", "mine\n")
        c.start = w.tree()
        cmd = H.command(w, v)
        tree = c.start
        nops = None
        sig = [v["layout"], v["space"], v["link"]]
        any_fault = False

        def go(tools, decide, what, trusted=True):
            bad = []

            def on_state(t):
                state(c, t, f"{what}, in between")
                r.n("probe.states_checked")
            res = w.run([cmd], lambda op: "P" if op.path == "tmp/shell" else decide(op),
                        extra_env=H.env(w, c.site, tools), on_state=on_state)
            check(not res.outside, "outside", lambda: f"{what}: wants to {res.outside[0][0]} {res.outside[0][1]}")
            return res

        # one undisturbed installation, and a second one on top
        res = go({}, lambda op: "P", "an undisturbed installation")
        nops, classes = len(res.ops), by_class(res.ops)
        state(c, res.final, "an undisturbed installation", True)
        pollution(c, res.final, "an undisturbed installation", True)
        shell(res.final, "an undisturbed installation", w)
        res = go({}, lambda op: "P", "a second installation")
        state(c, res.final, "a second installation", True)
        pollution(c, res.final, "a second installation", True)
        if plan["faults"] and plan["faults"][0]["pick"] % 3:
            w.load(c.start)
            tree = c.start
        else:
            tree = res.final            # faults hit an upgrade
            sig.append("upgrade")
        for f in plan["faults"]:
            w.load(tree)
            tree = w.tree()
            fired = []
            d = decider(r, f, nops, fired, classes)
            res = go(f["tools"], d, f"an installation with {f['tools'] or ''} {f['kind']}")
            hurt = [f"{t}: {x}" for t, x in sorted(f["tools"].items())]+[f"{x[1]} at {x[0]}" for x in fired[:2]]
            what = "an installation with "+(", ".join(hurt) or "no fault")
            for t, x in f["tools"].items():
                r.n(f"fault.{t}_{x}")
            if fired:
                r.n("fault."+(f["kind"] if f["kind"] != "errno" else fired[0][1]))
            any_fault |= bool(hurt)
            sig.append((sorted(f["tools"].items()), f["kind"], [(x[0], x[1]) for x in fired[:1]], len(tree) > len(c.start)))
            state(c, res.final, what, not hurt)
            died = bool(res.killed)
            if not died and not any(x[1] == "sigint" for x in fired):
                shell(res.final, what, w)
            finals = [res.final]
            if "power" in (f["kind"], f.get("then", {}).get("kind")) and fired:
                rnd = random.Random(f["seed"])
                for _ in range(3):
                    t, lost, names = res.power_loss(rnd)
                    # what pip wrote is pip's business
                    for k, x in res.final.items():
                        if k in t and k.startswith((c.site+"/OpenNTN", "home/")) and x[0] == "f":
                            t[k] = t[k][:3]+(x[3],)
                    r.n("fault.lost_names", names > 0)
                    state(c, t, f"power loss in {what}")
                    finals.append(t)
            for t in finals:
                w.load(t)
                rec = go({}, lambda op: "P", f"an installation after {what}")
                state(c, rec.final, f"a repeated installation after {what}", True)
                r.n("probe.recoveries")
            tree = res.final
            r.dg.add(repr(sig[-1]), [(k, x[0], x[3].replace(w.root, "") if x[0] == "l" else x[3])
                                     for k, x in sorted(res.final.items())
                                     if not k.startswith("tmp") and (k in c.start or "tr38811" in k or "OpenNTN" in k)])
        r.sig = sig
        return any_fault
    finally:
        w.close()


def shell(tree, what, w):
    e = tree.get("tmp/shell")
    check(e is not None, "shell-exited", f"{what} ends the shell it is sourced into")
    flags, cwd = e[3].decode().split("\n")[:2]
    check(cwd == os.path.join(w.root, "home"), "shell-changed", f"{what} leaves the user's shell in {cwd}")
    check(not set(flags) & set("eun"), "shell-changed", f"{what} leaves the user's shell with the options {flags}")


run = runner(body)
