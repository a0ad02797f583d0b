"""C20: compiled (graph, XLA) execution is equivalent to eager execution, whatever was
compiled, called or failed before, and draws anew in each call."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init as init0, runner, R, W, F  # noqa: F401

RUNS = (63, 600)
RULE = ("distinct = (scenario, band, direction, switches, compiler, form of the compiled step, LoS mode, call history, "
        "trace fault); non-trivial = at least one compiled call was compared")
MEASURE = "distinct (configuration, compiled history)"
REAL = [REAL_TF, "tf.function tracing, Grappler, XLA"]
STUB = ["random number generators: integer-hash streams that give the same numbers in eager, graph and XLA execution"]
ASSUMES = ["the phase of a LoS path is compared only where the float32 distances agree: it turns by several radians "
           "per rounding step of the distance"]


def init():
    init0()


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd)
    form = W.pick(rnd, ("args", "args", "args", "drop", "partial"))
    nshape = 2 if form == "args" and rnd.random() < .4 else 1
    calls = [dict(shape=rnd.randrange(nshape), topo=rnd.randrange(3), key=rnd.randrange(1, 2**31-1))
             for _ in range(rnd.randint(2, 4))]
    calls[0]["shape"] = 0
    if nshape == 2:
        calls[-1]["shape"] = 0
        calls[1]["shape"] = 1
        if len(calls) == 2:
            calls.append(dict(shape=0, topo=rnd.randrange(3), key=rnd.randrange(1, 2**31-1)))
    return dict(cfg=cfg, form=form, jit=rnd.random() < .4, ops=calls, los=W.pick(rnd, (None, None, True, False)),
                seed=rnd.randrange(10**9), T=W.pick(rnd, (1, 2, 3)), fs=W.pick(rnd, (1e6, 30.72e6)),
                shapes=[[rnd.randint(1, 3), rnd.randint(1, 4)] for _ in range(2)],
                three=rnd.random() < .3, fault=rnd.randint(0, 14) if rnd.random() < .3 else None)


def shrink(plan):
    import copy
    for k, v in (("fault", None), ("jit", False), ("three", False), ("T", 1)):
        if plan[k] != v:
            q = copy.deepcopy(plan)
            q[k] = v
            yield q
    for k, v in (("ut", W.SIMPLE), ("bs", W.SIMPLE), ("doppler", False), ("pl", False), ("sf", False), ("agl", False)):
        if plan["cfg"][k] != v:
            q = copy.deepcopy(plan)
            q["cfg"][k] = dict(v) if isinstance(v, dict) else v
            yield q


def body(r, plan):
    import tensorflow as tf
    from sionna.phy.channel.tr38811 import utils
    cfg, form = plan["cfg"], plan["form"]
    key = tf.Variable(1, dtype=tf.int32)
    s = R.Stream(R.key_of("g", plan["seed"]), stateless=True)
    s.key_var = key
    topos = {}

    def topo(sh, i):
        b, u = plan["shapes"][sh]
        return W.gen_topo(plan["seed"]+i, b, u, cfg["elev"], "spread")

    def prepare():
        m = W.make_model(cfg)
        if form == "partial":
            W.set_topo(m, topo(0, 7), plan["los"], stream("pre", plan["seed"]))
        b0 = plan["shapes"][0][0]

        def step(*args):
            s.count = 0
            b = b0
            if form == "drop":
                t = utils.gen_single_sector_topology(plan["shapes"][0][0], plan["shapes"][0][1], cfg["scn"],
                                                     bs_height=tf.constant(600e3), max_ut_velocity=tf.constant(10.),
                                                     elevation_angle=tf.constant(cfg["elev"], tf.float32))
                m.set_topology(*t, los=plan["los"])
            elif form == "partial":
                m.set_topology(ut_orientations=args[2], ut_velocities=args[4])
            else:
                b = args[0].shape[0]
                m.set_topology(*args, los=plan["los"])
            a, tau = m(b, plan["T"], plan["fs"]) if plan["three"] else m(plan["T"], plan["fs"])
            sc = W.scen(m)
            return dict(a=a, tau=tau, los=sc.los, distance_3d=sc.distance_3d, basic_pathloss=sc.basic_pathloss,
                        ut_velocities=sc.ut_velocities, ut_loc=sc.ut_loc, lsp_mean=sc.lsp_log_mean)
        return step

    compiled = tf.function(prepare(), jit_compile=True if plan["jit"] else None)

    def call(f, c):
        t = topo(c["shape"], c["topo"])
        args = [] if form == "drop" else [tf.constant(t[k]) for k in W.FIELDS]
        key.assign(c["key"])
        with R.use(s):
            return {k: W.npv(v) if k != "lsp_mean" else np.nan_to_num(W.npv(v)) for k, v in f(*args).items()}

    if plan["fault"] is not None and plan["ops"]:
        s.fail_at, s.fired = plan["fault"], False
        try:
            call(compiled, plan["ops"][0])
        except R.InjectedFault:
            r.n("fault.trace_aborted")
        except Exception as e:
            if "injected at draw" not in str(e):
                raise
            r.n("fault.trace_aborted")
        s.fail_at = None
    seen = []
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], cfg["agl"], cfg["sf"], cfg["pl"], cfg["doppler"], form,
             plan["jit"], plan["los"], plan["fault"], plan["T"], [(c["shape"], c["topo"]) for c in plan["ops"]]]
    kind = "XLA" if plan["jit"] else "graph"
    last = None
    for n, c in enumerate(plan["ops"]):
        g = call(compiled, c)
        e = call(prepare(), c)
        what = f"call {n} ({kind}, {form})"
        finite(g, what=what+" ")
        for k in ("los", "ut_velocities", "ut_loc"):
            check(W.same(g[k], e[k]) or form == "drop" and k != "los" and np.allclose(g[k], e[k], rtol=1e-3, atol=1e-1), "compiled-differs",
                  lambda: f"{what}: {k} {g[k].tolist()} instead of {e[k].tolist()}")
        close(g["distance_3d"], e["distance_3d"], "compiled-differs", what+" distance_3d", 3e-6, 0)
        close(g["basic_pathloss"], e["basic_pathloss"], "compiled-differs", what+" basic_pathloss", 1e-5, 1e-4)
        close(g["lsp_mean"], e["lsp_mean"], "compiled-differs", what+" lsp_log_mean", 1e-5, 1e-5)
        # rounding of a location moves the correlation between users
        exact = W.same(g["ut_loc"], e["ut_loc"])
        if exact:
            close(g["tau"], e["tau"], "compiled-differs", what+" delays", 1e-3, 1e-11)
        else:
            r.n("probe.drop_rounded")
        ga, ea = g["a"], e["a"]
        check(ga.shape == ea.shape, "compiled-differs", lambda: f"{what}: shape {ga.shape} instead of {ea.shape}")
        if cfg["direction"] == "uplink":
            ga, ea = ga[:, 0].swapaxes(1, 2), ea[:, 0].swapaxes(1, 2)      # b, u, nb, nu, P, T
        else:
            ga, ea = ga[:, :, :, 0], ea[:, :, :, 0]
        los = g["los"].reshape(g["los"].shape[0], -1)
        sameD = np.reshape((g["distance_3d"] == e["distance_3d"]), los.shape)
        for b in range(ga.shape[0]):
            for u in range(ga.shape[1]):
                x, y = ga[b, u], ea[b, u]
                if los[b, u] and (plan["jit"] or not sameD[b, u]):
                    x, y = x[..., 1:, :], y[..., 1:, :]
                    r.n("probe.los_phase_skipped")
                sc_ = np.abs(ea[b, u]).max()
                err = np.abs(x-y).max()/sc_ if x.size else 0
                check(err < 5e-3 or not exact, "compiled-differs",
                      lambda: f"{what}: channel of user {u} of example {b} differs by {err:.2e} from eager execution")
                r.n("probe.links")
        # the same call again gives the same, another key another channel
        if n == 0:
            g2 = call(compiled, c)
            same(g2, g, "compiled-state", f"{what} repeated")
            g3 = call(compiled, dict(c, key=(c["key"]*7+1) % (2**31-1)))
            check(not np.array_equal(g3["a"], g["a"]) and not np.array_equal(g3["tau"], g["tau"]), "frozen-randomness",
                  f"{what}: two calls with different random numbers give the same channel")
            if form == "drop":
                check(not np.array_equal(g3["ut_loc"], g["ut_loc"]), "frozen-randomness", "the compiled drop is frozen")
        r.n("sim_s", plan["T"]/plan["fs"])
        r.dg.add(g["los"], np.round(np.log10(np.abs(g["a"]).max()+1e-30), 2))
    r.n("probe.xla" if plan["jit"] else "probe.graph", len(plan["ops"]))
    return bool(plan["ops"])


run = runner(body)
