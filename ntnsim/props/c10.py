"""C10: one seed, one execution: with the random generators seeded, a whole session is
bit-for-bit reproducible, whatever happened in the process before."""
import gc
import random

import numpy as np

from .common import *  # noqa: F401,F403
from .common import runner, R, W, F  # noqa: F401
from .. import rng as RNG

RUNS = (100, 1800)
RULE = ("distinct = (session of operations, ambient disturbances before and between its repetitions); "
        "non-trivial = the session draws random numbers and generates channels")
MEASURE = "distinct sessions"
REAL = [REAL_TF, "the real random generators of TensorFlow and Sionna (no stand-in)"]
STUB = ["wall clock (time.time, time_ns, perf_counter, monotonic): simulated, jumps between repetitions",
        "ambient Python and NumPy random state: disturbed between repetitions"]
shrink = shrink_sizes


def init():
    # the seam stays transparent (no stream is ever active here)
    R.install()


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd)
    ops = gen_history(rnd, rnd.randint(2, 4 if tier == "quick" else 8), p_gen=0.35)
    for o in ops:
        if o["op"] == "set" and rnd.random() < 0.5:
            o["drop"] = True
    ops.append(gen_gen_op(rnd))
    return dict(cfg=cfg, ops=ops, seed=rnd.randrange(2**31-1),
                noise=[dict(kind=W.pick(rnd, ("draws", "models", "gc", "clock", "numpy")), n=rnd.randint(1, 5))
                       for _ in range(rnd.randint(1, 3))],
                split=i % 2 == 0)


def seed_all(seed, amb):
    import tensorflow as tf
    from sionna.phy import config
    config.seed = seed
    RNG._refresh_config()
    tf.random.set_seed(seed)
    # everything else is ambient and must not matter
    np.random.seed(amb % 2**31)
    random.seed(amb)


class Clock:
    """Simulated wall clock"""
    NAMES = ("time", "time_ns", "perf_counter", "perf_counter_ns", "monotonic", "monotonic_ns")

    def __init__(self, start, step):
        self.t = start
        self.step = step

    def __enter__(self):
        import time
        self.real = {n: getattr(time, n) for n in self.NAMES}

        def mk(ns):
            def f():
                self.t += self.step
                return int(self.t*1e9) if ns else self.t
            return f
        for n in self.NAMES:
            setattr(time, n, mk(n.endswith("_ns")))
        return self

    def __exit__(self, *a):
        import time
        for n, f in self.real.items():
            setattr(time, n, f)


def session(plan, r=None):
    from sionna.phy.channel.tr38811 import utils
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    obs = []
    for op in plan["ops"]:
        if op["op"] == "set":
            f = eff.fields_of(op)
            kw = W.tft(f)
            if op.get("drop"):
                t = utils.gen_single_sector_topology(op["b"], op["u"], cfg["scn"], min_ut_velocity=0.,
                                                     max_ut_velocity=30., elevation_angle=cfg["elev"])
                d = dict(zip(ALL, t))
                obs.append({k: W.npv(v) for k, v in d.items()})
                for k in kw:
                    kw[k] = d[k]
                    f[k] = W.npv(d[k])
            if op["los"] is not None:
                kw["los"] = op["los"]
            m.set_topology(**kw)
            eff.topo.update(f)
        elif not eff.topo:
            continue
        elif op["op"] == "gen":
            a, tau = W.cir(m, op["T"], op["fs"], None, 64 if op.get("three") else None)
            obs.append(dict(a=a, tau=tau))
            if r:
                r.n("probe.generations")
                r.n("sim_s", op["T"]/op["fs"])
        else:
            do_env(m, op)
        obs.append(W.snapshot(m))
    return obs


def disturb(plan, r, salt):
    import tensorflow as tf
    from sionna.phy import config
    for z in plan["noise"]:
        r.n("fault."+z["kind"])
        if z["kind"] == "draws":
            for _ in range(z["n"]):
                tf.random.normal([3])
                config.tf_rng.normal([2])
        elif z["kind"] == "models":
            c = dict(plan["cfg"], scn="sur", ut=W.SIMPLE, bs=W.SIMPLE)
            m = W.make_model(c)
            W.set_topo(m, W.gen_topo(salt, 1, z["n"], c["elev"], "spread"))
            W.cir(m, 1, 1e3)
        elif z["kind"] == "gc":
            gc.collect()
        elif z["kind"] == "numpy":
            np.random.random(z["n"])


def body(r, plan):
    s = plan["seed"]
    r.sig = [[(o["op"], o.get("fields"), o.get("los"), o.get("drop")) for o in plan["ops"]],
             [(z["kind"], z["n"]) for z in plan["noise"]], plan["cfg"]["scn"], plan["cfg"]["direction"]]
    jump = any(z["kind"] == "clock" for z in plan["noise"])
    with Clock(1e9, 0.001):
        seed_all(s, 1)
        one = session(plan, r)
    disturb(plan, r, 1)
    with Clock(2e9 if jump else 1e9, 0.7 if jump else 0.001):
        seed_all(s, 2)
        two = session(plan)
    for k, (a, b) in enumerate(zip(one, two)):
        same(a, b, "not-reproducible", f"observation {k} of two sessions with the same seeds")
    r.dg.add(*one)
    r.n("probe.repeated_sessions")
    # another seed gives another channel
    with Clock(1e9, 0.001):
        seed_all(s ^ 0x5a5a5a, 1)
        three = session(plan)
    la, lb = [o for o in one if "a" in o], [o for o in three if "a" in o]
    if la:
        check(not all(W.same(x["a"], y["a"]) for x, y in zip(la, lb)), "seed-ignored",
              "two sessions with different seeds gave the same channels")
    if plan["split"]:
        # Sionna's own seed alone (finding F10): LSPs and LoS states follow it ...
        import tensorflow as tf
        with Clock(1e9, 0.001):
            seed_all(s, 3)
            tf.random.set_seed(s ^ 0x77)
            four = session(dict(plan, ops=[dict(o, drop=False) for o in plan["ops"]]))
            seed_all(s, 4)
            five = session(dict(plan, ops=[dict(o, drop=False) for o in plan["ops"]]))
        for k, (a, b) in enumerate(zip(four, five)):
            if "los" in a:
                sub = {x: a[x] for x in a if x == "los" or x.startswith("lsp.")}
                same(sub, {x: b[x] for x in sub}, "seed-lsp",
                     f"LSPs and LoS states of observation {k} under the same Sionna seed")
            elif "a" in a and not W.same(a["a"], b["a"]):
                # ... the rays, phases and satellite directions do not
                r.known.append(dict(cls="config-seed", key="config.seed-does-not-govern-rays",
                                    msg="channels differ although Sionna's seed is the same"))
        r.n("probe.sionna_seed_only")
    return bool(la)


run = runner(body)
