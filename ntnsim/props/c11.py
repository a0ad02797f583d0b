"""C11: LoS states: forced where requested (and until told otherwise), drawn with the
tabulated probability otherwise, independently for every link."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from .c06 import LOSP

RUNS = (100, 1600)
RULE = ("distinct = (scenario, elevation, sequence of requests and updates); non-trivial = the LoS state "
        "of at least one update was drawn or forced")
MEASURE = "distinct (scenario, elevation, request history)"
REAL = [REAL_TF]
STUB = [STUB_RNG]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, arrays=False, agl=rnd.random() < .5)
    ops = []
    for k in range(rnd.randint(2, 5 if tier == "quick" else 9)):
        m = rnd.random()
        ops.append(dict(op="set", seed=rnd.randrange(10**9),
                        b=2, u=rnd.randint(2, 6),
                        fields=ALL if k == 0 else W.pick(rnd, (["ut_loc"], ["bs_loc"], ["in_state"], [],
                                                               ["ut_velocities"], ["ut_loc", "bs_loc"])),
                        los=W.pick(rnd, (None, None, True, False)),
                        indoor=rnd.random() < 0.2))
    for o in ops:
        o["u"] = ops[0]["u"]
    return dict(cfg=cfg, ops=ops, probe=rnd.randrange(10**9))


def body(r, plan):
    cfg = plan["cfg"]
    r.sig = [cfg["scn"], F.angle(cfg), cfg["fc"] > 4e9, cfg["direction"],
             [(sorted(o["fields"]), o["los"], o["indoor"]) for o in plan["ops"]]]
    # 1. request history
    m = W.make_model(cfg)
    eff = Effective(cfg)
    for op in plan["ops"]:
        f = eff.fields_of(op)
        if "in_state" in f and op["indoor"]:
            f = dict(f, in_state=np.random.Generator(np.random.Philox(op["seed"])).random(
                (op["b"], op["u"])) < 0.5)
        old = np.array(m._scenario.los) if eff.topo else None
        kw = W.tft(f)
        if op["los"] is not None:
            kw["los"] = op["los"]
        with R.use(stream("los", op["seed"])):
            m.set_topology(**kw)
        eff.apply(op)
        eff.topo.update(f)
        los = np.array(m._scenario.los)
        ind = eff.topo["in_state"][:, None]
        check(los.shape == ind.shape and los.dtype == bool, "los-state", f"LoS state {los.dtype}{los.shape}")
        check(not np.any(los & ind), "los-state", "an indoor user is in LoS")
        if eff.los is not None:
            check(np.array_equal(los, ~ind if eff.los else np.zeros_like(ind)), "los-request",
                  f"LoS={eff.los} was requested, the states are {los.tolist()}")
            r.n("probe.forced")
        elif not eff.relevant and old is not None:
            same(los, old, "los-state", "LoS states without a topology update")
        r.dg.add(los)
    # 2. probability and independence over many links
    ps = LOSP[cfg["scn"]]
    adm = [ps[a] for a in F.angles(cfg)]
    m = W.make_model(cfg)
    B, U = 40, 25
    topo = W.gen_topo(plan["probe"], B, U, cfg["elev"], "wide")
    st = []
    for k in range(3):
        # evenly covered randomness: the frequency is exact up to the resolution
        s = stream("p", plan["probe"], k, mode="strat" if k == 0 else "nominal")
        W.set_topo(m, topo if k == 0 else dict(ut_loc=topo["ut_loc"]), stream=s)
        st.append(np.array(m._scenario.los)[:, 0])
    n = B*U
    fr = st[0].mean()
    check(any(abs(fr-p) <= 3.0/n+1e-6 for p in adm), "los-probability",
          f"{cfg['scn']} at {cfg['elev']} degrees: fraction of LoS links {fr:.4f} under evenly covered "
          f"randomness, probability in TR 38.811 {adm}")
    p = min(adm, key=lambda q: abs(q-fr))
    v = p*(1-p)
    for k in (1, 2):
        x = st[k].astype(float)
        check(abs(x.mean()-p) < 6*np.sqrt(v/n)+6/n, "los-probability", f"fraction of LoS links {x.mean():.4f}, not {p}")
        if v*min(B, U) > 1.5:
            for ax, what in ((0, "examples"), (1, "users")):
                cnt = x.sum(ax)
                nn = x.shape[ax]
                chi = ((cnt-nn*p)**2/(nn*v)).sum()
                df = len(cnt)
                check(chi < df+8*np.sqrt(2*df)+30, "los-dependence",
                      f"LoS states are not independent across {what} (chi2 {chi:.0f}, {df} degrees of freedom)")
    if v > 0.05:
        c = ((st[1]-p)*(st[2]-p)).mean()/v*np.sqrt(n)
        check(abs(c) < 6.5, "los-dependence", f"LoS states of two updates are correlated ({c:.1f} sigma)")
    r.n("probe.links", 3*n)
    r.dg.add(*st)
    return True


run = runner(body)
