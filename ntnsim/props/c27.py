"""C27: a simulation of any length leaves no residue: neither successful nor failing operations accumulate memory,
files or threads, and the state of the hosting process is left alone."""
import gc
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from .common import *  # noqa: F401,F403
from .common import init as init0, runner, R, W, F  # noqa: F401
from ..trace import LineBomb, Interrupt

RUNS = (48, 420)
RULE = ("distinct = (scenario, band, direction, LSP mode, the repeated cycle of operations and faults); non-trivial = the "
        "cycle was repeated to the end and includes a generation")
MEASURE = "distinct cycles of operations"
REAL = [REAL_TF]
STUB = [STUB_RNG, "caller's interruption: an exception raised before a seeded line of the code under test"]
ASSUMES = ["what is kept must show as tensors, objects known to the garbage collector, values reachable from the package, descriptors or threads; "
           "memory inside TensorFlow's C++ runtime is not seen"]
WARM, MEAS = 3, 6
KINDS = ("set", "set", "part", "env", "doppler", "gen", "gen", "badset", "badgen", "model", "badmodel", "drop", "array", "show")


def init():
    init0()


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, prec=W.pick(rnd, (None, None, "single", "double")))
    b, u = rnd.randint(1, 3), rnd.randint(1, 4)
    cyc = [dict(op="set")]
    for _ in range(rnd.randint(2, 5 if tier == "quick" else 9)):
        k = W.pick(rnd, KINDS)
        o = dict(op=k)
        if k == "part":
            o["fields"] = [f for f in ALL if rnd.random() < .5]
        if k in ("badset", "badgen", "badmodel"):
            m = rnd.random()
            o["fault"] = dict(kind="line", at=1+int((120 if k == "badmodel" else 700)*rnd.random()**1.3)) if m < .5 else \
                dict(kind="draw", at=rnd.randrange(4 if k == "badset" else 14)) if m < .8 else dict(kind="args")
        if k == "show" and i % 4:
            o["op"] = "gen"
        cyc.append(o)
    cyc.append(dict(op="gen"))
    return dict(cfg=cfg, b=b, u=u, ops=cyc, seed=rnd.randrange(10**8), los=W.pick(rnd, (None, None, True, False)),
                three=rnd.random() < .3)


def shrink(plan):
    import copy
    for k, lo in (("b", 1), ("u", 1)):
        if plan[k] > lo:
            q = copy.deepcopy(plan)
            q[k] = lo
            yield q
    yield from shrink_sizes(plan)


def process_state():
    """Everything a library must leave as its host has set it"""
    import tensorflow as tf
    import matplotlib
    import logging
    from sionna.phy import config
    from tensorflow.python.eager import context
    c = context.context()
    return dict(
        cwd=os.getcwd(), environ=dict(os.environ), path=list(sys.path), argv=list(sys.argv),
        umask=_umask(), signals=[repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        numpy_random=np.random.get_state()[1].tobytes()+bytes([np.random.get_state()[2] & 255]),
        python_random=random.getstate(), numpy_errors=np.geterr(), numpy_print=repr(np.get_printoptions()),
        warnings=len(warnings.filters), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
        gc=(gc.isenabled(), gc.get_threshold()), hooks=(sys.excepthook, sys.stdout, sys.stderr),
        trace=sys.gettrace(), profile=sys.getprofile(),
        tf_seed=c._seed, tf_eager=tf.executing_eagerly(), tf_run_eagerly=tf.config.functions_run_eagerly(),
        tf_placement=tf.config.get_soft_device_placement(), tf_devices=len(tf.config.get_visible_devices()),
        sionna_seed=config.seed, sionna_precision=config.precision, sionna_device=getattr(config, "device", None),
        mpl={k: repr(v) for k, v in matplotlib.rcParams.items() if not k.startswith("backend")},
        logging=(logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable))


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


NTN = ("sionna.phy.channel.tr38811", "OpenNTN")


def reachable(model):
    """Number of values (and bytes of arrays) kept by the package's modules, classes, functions and a model"""
    todo = [m.__dict__ for n, m in list(sys.modules.items()) if m is not None and (n in NTN or n.startswith(tuple(x+"." for x in NTN)))]
    todo.append(model)
    seen, n, size = set(), 0, 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        n += 1
        t = type(o)
        if isinstance(o, np.ndarray):
            size += o.nbytes
        elif isinstance(o, (str, bytes, bytearray)):
            size += len(o)
        if t in (dict, list, tuple, set, frozenset) or isinstance(o, (dict, list, tuple, set)) \
                or str(getattr(t if not isinstance(o, type) else o, "__module__", "")).startswith(NTN) \
                or (callable(o) and str(getattr(o, "__module__", "")).startswith(NTN)) or t.__name__ in ("cell", "deque", "mappingproxy"):
            x = gc.get_referents(o)
            n += len(x)                  # also entries that are the same small number again and again
            todo.extend(y for y in x if not isinstance(y, type(sys)))
    return n, size


def residue(model):
    from tensorflow.python.framework import ops
    E = ops.EagerTensor
    for _ in range(3):
        gc.collect()
    objs = gc.get_objects()
    ten = sum(1 for o in objs if type(o) is E)
    n = len(objs)
    del objs
    return (ten, n, len(os.listdir("/proc/self/fd")), threading.active_count())+reachable(model)


def one_cycle(r, plan, m, c):
    """The same operations with other values in every cycle"""
    from sionna.phy.channel.tr38811 import utils
    import tensorflow as tf
    cfg, b, u = plan["cfg"], plan["b"], plan["u"]
    for k, op in enumerate(plan["ops"]):
        key = (plan["seed"], c, k)
        topo = W.gen_topo(plan["seed"]*100+c*17+k, b, u, cfg["elev"], "spread")
        if cfg.get("prec") == "double":
            topo = {x: v.astype(np.float64) if v.dtype.kind == "f" else v for x, v in topo.items()}
        f = op.get("fault") or {}
        st = stream("m", *key, fail_at=f["at"] if f.get("kind") == "draw" else None)
        # every sampling that occurs later has occurred in the cycles before measuring
        T, fs = (1, 3, 2)[c % 3], (1e6, 15e3, 30.72e6)[c % 3]
        kind = op["op"]
        rnd = random.Random(f"{key}")
        try:
            if kind == "set":
                W.set_topo(m, topo, plan["los"], st)
            elif kind == "part":
                W.set_topo(m, {x: topo[x] for x in op["fields"]}, None, st)
            elif kind == "env":
                W.scen(m).set_topology(**{x: round(rnd.uniform(*W.ENVP[x]), 3) for x in ("rain_rate", "temperature", "latitude")})
            elif kind == "doppler":
                W.scen(m).set_topology(doppler_enabled=bool((c+k) % 2))
            elif kind == "gen":
                W.cir(m, T, fs, st, 64 if plan["three"] else None)
                r.n("probe.generations")
                r.n("sim_s", T/fs)
            elif kind == "drop":
                with R.use(st):
                    t = utils.gen_single_sector_topology(b, u, cfg["scn"], max_ut_velocity=10., elevation_angle=cfg["elev"],
                                                         precision=cfg.get("prec"))
                    m.set_topology(*t, los=plan["los"])
                    del t
            elif kind == "array":
                W.make_array(cfg["ut"], cfg["fc"]).ant_pos
            elif kind == "model":
                m2 = W.make_model(cfg)
                W.set_topo(m2, topo, plan["los"], st)
                with R.use(st):
                    m2(T, fs)
                del m2
            elif kind == "show":
                import matplotlib.pyplot as plt
                m.show_topology(batch_index=b-1)
                plt.close("all")
            else:
                bomb = LineBomb(f.get("at") if f.get("kind") == "line" else None)
                with bomb:
                    if kind == "badset":
                        kw = dict(topo)
                        if f["kind"] == "args":
                            kw["ut_loc"] = np.zeros((b, u+2, 3), np.float32)+1
                        W.set_topo(m, kw, plan["los"], st)
                    elif kind == "badgen":
                        W.cir(m, -3 if f["kind"] == "args" else T, fs, st)
                    else:
                        W.make_model(dict(cfg, elev=cfg["elev"] if f["kind"] != "args" else 5.0))
        except (Exception, Interrupt):
            if not f:
                raise
            r.n("fault."+f["kind"])


def body(r, plan):
    cfg = plan["cfg"]
    plan = dict(plan, ops=[o for o in plan["ops"]])
    if not plan["ops"] or plan["ops"][0]["op"] != "set":
        return False
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], cfg["agl"], plan["three"], plan["los"],
             [(o["op"], o.get("fields"), o.get("fault")) for o in plan["ops"]]]
    start = process_state()
    m = W.make_model(cfg)
    hist = np.zeros((MEAS+1, 6), np.int64)      # takes no new blocks while measuring
    before = None
    for c in range(WARM+MEAS):
        one_cycle(r, plan, m, c)
        if c >= WARM-1:
            hist[c-WARM+1] = residue(m)
            if before is None:
                before = process_state()
    after = process_state()
    bad = [k for k in before if before[k] != after[k]]
    if not bad:
        # libraries set these up lazily during their first use
        before = start
        bad = [k for k in before if before[k] != after[k] and k not in ("warnings", "path", "logging", "mpl")]
    check(not bad, "process-state", lambda: f"the process' {', '.join(bad)} changed: {str(before[bad[0]])[:120]} -> {str(after[bad[0]])[:120]}")
    for j, k in enumerate(("tensors", "objects", "files", "threads", "values", "bytes")):
        v = hist[:, j].tolist()
        if os.environ.get("NTN_DEBUG"):
            print(k, v, file=sys.stderr)
        check(int(np.min(np.diff(hist[:, j]))) < 1, "accumulates-"+k, f"the number of live {k} grows in every cycle of operations: {v}")
    r.n("probe.cycles", MEAS)
    r.dg.add(bool(bad))
    return any(o["op"] == "gen" for o in plan["ops"])


run = runner(body)
