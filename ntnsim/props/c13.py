"""C13: cluster delays and powers."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (130, 2200)
RULE = ("distinct = (scenario, band, direction, elevation bucket, LoS pattern, random modes); non-trivial = "
        "rays of at least one link were drawn")
MEASURE = "distinct (configuration, LoS pattern)"
REAL = [REAL_TF]
STUB = [STUB_RNG]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, arrays=False, agl=False)
    ops = [dict(op="set", seed=rnd.randrange(10**9), b=rnd.randint(1, 6), u=rnd.randint(1, 8), fields=ALL,
                los=W.pick(rnd, (None, None, None, True, False)), kind="wide")
           for _ in range(rnd.randint(1, 3))]
    return dict(cfg=cfg, ops=ops, draws=8 if tier == "quick" else 30)


def unscaled(cfg, los, lsp, D):
    k = 10*np.log10(lsp["lsp.k_factor"])
    c = 0.7705-0.0433*k+0.0002*k**2+0.000017*k**3
    return D*np.where(los, c, 1.0)[..., None]


def basics(cfg, los, rays, what):
    act = active(cfg, los)
    D, P = rays["delays"], rays["powers"]
    check(D.shape == act.shape and P.shape == act.shape, "shape",
          f"delays {D.shape}, powers {P.shape}, expected {act.shape}")
    Da, Pa = np.where(act, D, 0), np.where(act, P, 0)
    finite(dict(delays=Da, powers=P), what=what)
    check(np.all(P[~act] == 0), "extra-cluster", f"{what}power in clusters the link does not have")
    check(np.all(Pa >= 0), "negative-power", f"{what}negative cluster power")
    close(P.sum(-1), np.ones(P.shape[:-1]), "power-sum", f"{what}sum of the cluster powers", 0, 1e-4)
    check(np.all(Da[..., 0] == 0), "first-delay", f"{what}first delay is {Da[..., 0].ravel()[:8]}")
    return act


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    spac, resid, dof, cors = [], 0.0, 0, []
    for op in plan["ops"]:
        do_set(m, eff, op)
        eff.apply(op)
        los = np.array(m._scenario.los)
        r.sig.append((cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], F.angle(cfg), los.tolist()))
        rT, zeta = F.param(cfg, "rTau", los)[..., None], F.param(cfg, "zeta", los)[..., None]
        nact = active(cfg, los).sum(-1, keepdims=True)
        # exact: with constant normal draws the powers follow from the delays
        for c in (0.0, 1.0):
            lsp, rays = rays_of(m, stream("r", op["seed"], c, mode="const", c=c))
            act = basics(cfg, los, rays, "")
            U = unscaled(cfg, los, lsp, rays["delays"])
            DS = lsp["lsp.ds"][..., None]
            w = np.where(act, np.exp(-np.where(act, U, 0)*(rT-1)/(rT*DS)), 0)
            close(rays["powers"], w/w.sum(-1, keepdims=True), "power-profile",
                  "cluster powers without shadowing [batch, satellite, user, cluster]", 2e-3, 1e-6)
            r.dg.add(rays["delays"], rays["powers"])
        for k in range(plan["draws"]):
            mode = "extreme" if k == 0 else "nominal"
            lsp, rays = rays_of(m, stream("n", op["seed"], k, mode=mode))
            act = basics(cfg, los, rays, f"({mode}) ")
            U = np.where(act, unscaled(cfg, los, lsp, rays["delays"]), 0)
            dif = np.diff(U, axis=-1)
            check(np.all(dif[act[..., 1:]] >= -1e-12), "delay-order", "delays are not sorted")
            if mode == "extreme":
                r.n("fault.extreme_draws")
                continue
            DS = lsp["lsp.ds"][..., None]
            n = act.shape[-1]
            # normalised spacings of n iid exponentials are iid exponentials
            sp = dif*(nact-1-np.arange(n-1))/(rT*DS)
            spac.append(sp[act[..., 1:]])
            with np.errstate(divide="ignore"):
                z = np.where(act, 10*np.log10(np.maximum(rays["powers"], 1e-300))
                             + 10/np.log(10)*U*(rT-1)/(rT*DS), 0)/np.maximum(zeta, 1e-9)
            ok = np.broadcast_to(zeta > 0, act.shape) & act & (rays["powers"] > 1e-30)
            full = (ok == act).all(-1) & (act.sum(-1) > 1)
            mean = np.where(act, z, 0).sum(-1)/nact[..., 0]
            e = np.where(act, z-mean[..., None], 0)
            resid += (e[full]**2).sum()
            dof += int((act.sum(-1)-1)[full].sum())
            x = np.where(act, np.argsort(np.argsort(U, -1), -1)-(nact-1)/2, 0)
            cors.append((e*x)[full].sum(-1)/np.sqrt((x**2).sum(-1)[full]))
            r.n("probe.draws")
            r.dg.add(rays["delays"], rays["powers"])
    sp = np.concatenate(spac)
    if len(sp) > 30:
        k = ks_exp(sp)
        check(k < KS, "delay-distribution", f"cluster delays are not exponentially distributed with the delay "
              f"scaling and spread of their link: KS {k:.2f} over {len(sp)} spacings, mean {sp.mean():.3f}")
        check(abs(sp.mean()-1) < 6.5/np.sqrt(len(sp)), "delay-distribution",
              f"mean normalised delay spacing {sp.mean():.3f} over {len(sp)}")
    if dof > 30:
        v = resid/dof
        check(abs(v-1) < 6.5*np.sqrt(2/dof), "cluster-shadowing",
              f"variance of the per-cluster shadowing is {v:.3f} of its table value ({dof} degrees of freedom)")
        c = np.concatenate(cors)
        check(abs(c.mean()) < 6.5/np.sqrt(len(c)), "cluster-shadowing",
              f"per-cluster shadowing depends on the delay ({c.mean()*np.sqrt(len(c)):.1f} sigma)")
    return True


run = runner(body)
