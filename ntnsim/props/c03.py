"""C03: the parameter tables of a model are the standard's for its scenario, band, direction,
LoS state and elevation, whatever was constructed before, concurrently or in vain."""
import errno
import gc
import os
import shutil
import sys

import numpy as np

from .common import *  # noqa: F401,F403
from .common import init as _init, runner, R, W, F  # noqa: F401
from ..trace import LineBomb, ThreadSim, Interrupt
import random

RUNS = (84, 1200)
RULE = ("distinct = (sequence of constructions with their faults, and what became of them); non-trivial = at "
        "least one model was constructed and its tables read")
MEASURE = "distinct (construction sequence, fault, outcome) histories"
REAL = [REAL_TF + " (working tree copied to a scratch directory so that its data files can be damaged)"]
STUB = [STUB_RNG, "opening of data files: error injection at the interpreter's open audit event",
        "caller threads: cooperative scheduler at line granularity"]
ASSUMES = ["every damage of a data file makes it an invalid JSON document (truncation, zeros, garbage)"]

ERR = ("EIO", "EMFILE", "EACCES", "ENOENT", "ENOMEM", "ESTALE", "EINTR")
DAMAGE = ("trunc", "empty", "zeros", "garbage", "missing", "dir", "loop", "torn")

_open_fault = None      # callable(path)
_opened = [0]


def _hook(event, args):
    if event == "open" and isinstance(args[0], str) and _models and \
            args[0].startswith(_models) and args[0].endswith(".json"):
        _opened[0] += 1
        if _open_fault is not None:
            _open_fault(args[0])


_models = None


def preboot():
    global _models
    from .. import boot
    d = os.path.join(os.environ["NTN_SCRATCH"], f"w{os.getpid()}")
    shutil.copytree(boot.NTN_DIR, os.path.join(d, "OpenNTN"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    boot.NTN_DIR = os.path.join(d, "OpenNTN")
    _models = os.path.join(boot.NTN_DIR, "models") + os.sep


def init():
    _init()
    sys.addaudithook(_hook)


# ----------------------------------------------------------------------- plan
CELLS = [(s, f, d, e) for s in W.SCN for f in (2e9, 28e9) for d in ("downlink", "uplink") for e in range(10, 91, 10)]
random.Random(3).shuffle(CELLS)


def gen_build(rnd, cfgs):
    # often the same model as before, or one which differs in a single respect
    if cfgs and rnd.random() < 0.6:
        c = dict(W.pick(rnd, cfgs))
        k = W.pick(rnd, ("none", "elev", "direction", "fc", "scn", "elev"))
        if k == "elev":
            c["elev"] = W.gen_elev(rnd)
        elif k == "direction":
            c["direction"] = "uplink" if c["direction"] == "downlink" else "downlink"
        elif k == "fc":
            c["fc"] = 2e9 if c["fc"] > 4e9 else 28e9
        elif k == "scn":
            c["scn"] = W.pick(rnd, W.SCN)
    else:
        c = W.gen_cfg(rnd, arrays=False)
    cfgs.append(c)
    op = dict(op="build", cfg=c)
    m = rnd.random()
    if m < 0.22:
        op["fault"] = dict(kind="open", nth=rnd.randint(1, 2), err=W.pick(rnd, ERR),
                           times=W.pick(rnd, (1, 1, 99)))
    elif m < 0.44:
        op["fault"] = dict(kind="damage", how=W.pick(rnd, DAMAGE), los=rnd.random() < 0.5,
                           frac=round(rnd.random(), 4))
    elif m < 0.56:
        op["fault"] = dict(kind="interrupt", at=rnd.randint(1, 150),
                           exc=W.pick(rnd, ("Interrupt", "KeyboardInterrupt", "MemoryError")))
    return op


def plan(rnd, i, tier):
    cfgs, ops = [], []
    for _ in range(rnd.randint(3, 6 if tier == "quick" else 12)):
        m = rnd.random()
        if m < 0.10:
            ops.append(dict(op="chdir"))
        elif m < 0.25 and ops:
            ops.append(dict(op="use", i=rnd.randrange(8), seed=rnd.randrange(10**9)))
        elif m < 0.40:
            ops.append(dict(op="concurrent", cfgs=[gen_build(rnd, cfgs)["cfg"] for _ in range(rnd.randint(2, 4))],
                            seed=rnd.randrange(10**9), burst=W.pick(rnd, (3, 15, 60))))
        else:
            ops.append(gen_build(rnd, cfgs))
    ops.append(dict(op="build", cfg=W.pick(rnd, cfgs) if cfgs else W.gen_cfg(rnd, arrays=False)))
    # every combination of scenario, band, direction and tabulated elevation comes up
    for k in (2*i, 2*i+1):
        scn, fc, d, e = CELLS[k % len(CELLS)]
        c = W.gen_cfg(rnd, arrays=False)
        c.update(scn=scn, direction=d, fc=c["fc"] if (c["fc"] > 4e9) == (fc > 4e9) else fc,
                 elev=float(e) if rnd.random() < .6 else min(90.0, max(10.0, round(e+rnd.uniform(-4.9, 4.9), 3))))
        ops.insert(rnd.randint(0, len(ops)), dict(op="build", cfg=c))
    return dict(ops=ops)


# ------------------------------------------------------------------------ run
def fname(cfg, los):
    name = {"dur": "Dense_Urban", "urb": "Urban", "sur": "Sub_Urban"}[cfg["scn"]]
    return (f"{name}_{'LOS' if los else 'NLOS'}_{'S' if cfg['fc'] <= 4e9 else 'Ka'}_band_"
            f"{'UL' if cfg['direction'] == 'uplink' else 'DL'}.json")


class Damage:
    def __init__(self, cfg, f):
        self.path = os.path.join(_models, fname(cfg, f["los"]))
        self.f = f

    def __enter__(self):
        p, h = self.path, self.f["how"]
        if not os.path.exists(p):
            # a tree which keeps its tables elsewhere: nothing to damage
            self.data = None
            return
        with open(p, "rb") as f:
            self.data = d = f.read()
        n = int(len(d)*self.f["frac"])
        os.unlink(p)
        if h == "missing":
            return
        if h == "dir":
            os.mkdir(p)
        elif h == "loop":
            os.symlink(os.path.basename(p), p)
        else:
            end = d.rstrip()
            new = {"trunc": end[:min(n, len(end)-1)], "empty": b"",
                   "zeros": b"\0"*len(d), "garbage": bytes((i*37+n) % 256 for i in range(len(d))),
                   "torn": end[:min(n, len(end)-1)]+b"\0"*(len(d)-min(n, len(end)-1))}[h]
            with open(p, "wb") as f:
                f.write(new)

    def __exit__(self, *a):
        if self.data is None:
            return
        p = self.path
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            os.rmdir(p)
        with open(p, "wb") as f:
            f.write(self.data)


def names(cfg):
    t = F.table(cfg, True)
    return sorted({k.rsplit("_", 1)[0] for k in t if k.rsplit("_", 1)[-1].isdigit()} - {"LoS_p"}) \
        + ["CPhiNLoS", "CThetaNLoS"]


def verify(m, cfg, what):
    """The tables of a model, read through its scenario, against the standard's"""
    s = m._scenario
    topo = W.gen_topo(5, 1, 2, cfg["elev"], "spread")
    digest = []
    for los in (True, False):
        with R.use(stream("tab", los)):
            m.set_topology(**dict(W.tft(topo), los=los))
        got = {n: np.array(s.get_param(n), np.float64) for n in names(cfg)}
        ok = False
        for a in F.angles(cfg):
            t = F.table(cfg, los)
            bad = []
            for n, v in got.items():
                e = float(t[n] if n in t else t[f"{n}_{a}"])
                if v.shape != (1, 1, 2) or not np.allclose(v, e, rtol=1e-5, atol=1e-7):
                    bad.append((n, e, v.ravel().tolist()))
            nc = int(t[f"numClusters_{a}"])
            g = int(s.num_clusters_los if los else s.num_clusters_nlos)
            if g != nc:
                bad.append(("number of clusters", nc, g))
            if not bad:
                ok = True
                break
        check(ok, "wrong-table", lambda: f"{what}: {cfg['scn']} {cfg['fc']/1e9:g} GHz {cfg['direction']} "
              f"{cfg['elev']} degrees {'LoS' if los else 'NLoS'}: {bad[0][0]} is {bad[0][2]}, in the standard "
              f"{bad[0][1]} ({len(bad)} parameters differ)")
        digest.append({k: v.ravel()[:1] for k, v in got.items()})
    a = [W.npv(s.los_probability)]
    p = F.table(cfg, True)
    check(any(np.allclose(a[0], p[f"LoS_p_{x}"], rtol=1e-5) for x in F.angles(cfg)), "wrong-table",
          lambda: f"{what}: LoS probability {np.unique(a[0])}")
    return digest


def body(r, plan):
    global _open_fault
    cwd = os.getcwd()
    try:
        return _body(r, plan)
    finally:
        _open_fault = None
        os.chdir(cwd)


def _body(r, plan):
    global _open_fault
    models = []
    arrays = {}

    def arr(cfg):
        # PanelArrays are made beforehand: only the construction of the model is faulted
        if cfg["fc"] not in arrays:
            arrays[cfg["fc"]] = (W.make_array(W.SIMPLE, cfg["fc"]), W.make_array(W.SIMPLE, cfg["fc"]))
        return arrays[cfg["fc"]]

    def note(cfg, *more):
        r.sig.append((cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], F.angle(cfg)) + more)

    for k, op in enumerate(plan["ops"]):
        what = f"step {k}"
        if op["op"] == "chdir":
            d = os.path.join(os.environ["NTN_SCRATCH"], f"cwd{os.getpid()}")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            os.rmdir(d)                      # the working directory is gone
            r.n("fault.working_directory_removed")
            r.sig.append("chdir")
        elif op["op"] == "use":
            if models:
                cfg, m = models[op["i"] % len(models)]
                W.set_topo(m, W.gen_topo(op["seed"], 2, 3, cfg["elev"]), stream=stream("use", op["seed"]))
                W.cir(m, 2, 1e5, stream("gen", op["seed"]))
                r.sig.append(("use", op["i"] % len(models)))
        elif op["op"] == "concurrent":
            cs = op["cfgs"]
            for c in cs:
                arr(c)
            sim = ThreadSim(random.Random(op["seed"]), mean_burst=op["burst"])
            out, err = sim.run([lambda c=c: W.make_model(c, arr(c)) for c in cs])
            for c, m, e in zip(cs, out, err):
                if e is not None:
                    raise e
                note(c, "concurrent")
                r.dg.add(verify(m, c, f"{what}, constructed concurrently"))
                models.append((c, m))
            r.n("fault.preemption", sim.switches)
        else:
            cfg, f = op["cfg"], op.get("fault")
            arr(cfg)
            m, exc = None, None
            kind = f["kind"] if f else None
            if kind == "open":
                left = [f["nth"], f["times"]]

                def bad(path):
                    left[0] -= 1
                    if left[0] <= 0 and left[1] > 0:
                        left[1] -= 1
                        r.n("fault.open_" + f["err"])
                        raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), path)
                _open_fault = bad
            bomb = None
            try:
                if kind == "damage":
                    r.n("fault.table_" + f["how"])
                    with Damage(cfg, f):
                        m = W.make_model(cfg, arr(cfg))
                elif kind == "interrupt":
                    E = {"Interrupt": Interrupt, "KeyboardInterrupt": KeyboardInterrupt,
                         "MemoryError": MemoryError}[f["exc"]]
                    with LineBomb(f["at"], E) as bomb:
                        m = W.make_model(cfg, arr(cfg))
                else:
                    m = W.make_model(cfg, arr(cfg))
            except BaseException as e:
                if f is None:
                    raise
                exc = type(e).__name__
                e.__traceback__ = None
            finally:
                _open_fault = None
            if bomb is not None and bomb.fired:
                r.n("fault.interrupted_construction")
            note(cfg, kind, f and (f.get("err") or f.get("how") or (bomb.fired if bomb else None)),
                 "ok" if m is not None else "failed")
            r.dg.add(exc or "built")
            if m is not None:
                r.n("probe.models")
                # whatever happened, a model which was handed out has the right tables
                r.dg.add(verify(m, cfg, what + (f", constructed under {kind}" if f else "")))
                models.append((cfg, m))
            else:
                r.n("probe.failed_constructions")
                # once the fault is gone the same construction succeeds
                try:
                    m = W.make_model(cfg, arr(cfg))
                except Exception as e:
                    raise Viol("poisoned", f"{what}: after a construction which failed with {exc} under {kind}, "
                                           f"the same construction fails without a fault: {type(e).__name__}: {e}")
                r.dg.add(verify(m, cfg, f"{what}, constructed again after a failure"))
                models.append((cfg, m))
    gc.collect()
    leaked = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if t.startswith(_models):
            leaked.append(t)
    check(not leaked, "leaked-file", lambda: f"files left open: {leaked}")
    # every model that ever was constructed still has its tables
    for k, (cfg, m) in enumerate(models):
        r.dg.add(verify(m, cfg, f"model {k} at the end"))
    return bool(models)


def shrink(plan):
    import copy
    for i, op in enumerate(plan["ops"]):
        if op.get("fault"):
            q = copy.deepcopy(plan)
            del q["ops"][i]["fault"]
            yield q
        if op["op"] == "concurrent" and len(op["cfgs"]) > 1:
            for j in range(len(op["cfgs"])):
                q = copy.deepcopy(plan)
                del q["ops"][i]["cfgs"][j]
                yield q


run = runner(body)
