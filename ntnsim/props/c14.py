"""C14: ray angles and cross-polarization."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from .c13 import basics

RUNS = (130, 2200)
RULE = ("distinct = (scenario, band, direction, elevation bucket, LoS pattern); non-trivial = angles of at "
        "least one cluster away from the LoS direction were checked")
MEASURE = "distinct (configuration, LoS pattern)"
REAL = [REAL_TF]
STUB = [STUB_RNG]
shrink = shrink_sizes
ANG = ("aoa", "aod", "zoa", "zod")
PAIRS = [(a, b) for i, a in enumerate(ANG) for b in ANG[i+1:]]
OFF = np.array([x*s for x in (0.0447, 0.1413, 0.2492, 0.3715, 0.5129, 0.6797, 0.8844, 1.1481, 1.5195, 2.1551)
                for s in (1, -1)])


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, arrays=False, agl=False)
    ops = [dict(op="set", seed=rnd.randrange(10**9), b=rnd.randint(1, 4), u=rnd.randint(1, 5), fields=ALL,
                los=W.pick(rnd, (None, None, None, True, False)), kind="wide")
           for _ in range(rnd.randint(1, 2))]
    return dict(cfg=cfg, ops=ops, draws=4 if tier == "quick" else 12)


def wrap(x):
    return (x+180.0) % 360.0-180.0


def fold(x):
    x = x % 360.0
    return np.where(x > 180, 360-x, x)


def primes(cfg, los, lsp, rays):
    """Angle spans of all clusters before sign, [b,1,u,n] for azimuth and zenith"""
    K = lsp["lsp.k_factor"][..., None]
    kd = 10*np.log10(K)
    P = rays["powers"].copy()
    Pl = P/(K+1)
    Pl[..., 0] += (K/(K+1))[..., 0]
    P = np.where(los[..., None], Pl, P)
    z = np.clip(P/P.max(-1, keepdims=True), 1e-6, 1)
    cphi = F.param(cfg, "CPhiNLoS", los)[..., None]
    cphi = np.where(los[..., None], cphi*(1.1035-0.028*kd-0.002*kd**2+0.0001*kd**3), cphi)
    cth = F.param(cfg, "CThetaNLoS", los)[..., None]
    cth = np.where(los[..., None], cth*(1.3086+0.0339*kd-0.0077*kd**2+0.0002*kd**3), cth)
    az = 2*lsp["lsp.asa"][..., None]/1.4*np.sqrt(-np.log(z))/cphi
    ze = -lsp["lsp.zsa"][..., None]*np.log(z)/cth
    return az, ze


def match(angles, bases, offs, zen, tol):
    """Do the rays (degrees) of a cluster sit at one of the candidate centres?
    Returns the index of the candidate or None, and the smallest error"""
    best = (None, 1e9)
    for i, b in enumerate(bases):
        if zen:
            e = np.abs(np.sort(angles)-np.sort(fold(b+offs))).max()
        else:
            e = np.abs(np.sort(wrap(angles-b))-np.sort(offs)).max()
        if e < best[1]:
            best = (i, e)
    return best if best[1] < tol else (None, best[1])


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    plus, tot, moved = 0, 0, 0
    xs, pats = [], {p: [] for p in PAIRS}
    corr = {p: [0.0, 0] for p in PAIRS}
    for op in plan["ops"]:
        do_set(m, eff, op)
        eff.apply(op)
        los = np.array(m._scenario.los)
        g = F.geometry(eff.topo, cfg)
        r.sig.append((cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], F.angle(cfg), los.tolist()))
        cs = {k: F.param(cfg, "c"+k, los) for k in ("ASD", "ASA", "ZSA")}
        with np.errstate(over="ignore"):
            czsd = 3/8*10.0**F.param(cfg, "muZSD", los)
        for c in (0.0, 1.0):
            lsp, rays = rays_of(m, stream("r", op["seed"], c, mode="const", c=c))
            act = basics(cfg, los, rays, "")
            az, ze = primes(cfg, los, lsp, rays)
            deg = {k: np.degrees(rays[k]) for k in ("aoa", "aod", "zoa", "zod")}
            for k in ("aoa", "aod"):
                check(np.all(np.abs(deg[k]) <= 180.001), "angle-range", f"{k} outside (-180, 180)")
            for k in ("zoa", "zod"):
                check(np.all((deg[k] >= -0.001) & (deg[k] <= 180.001)), "angle-range", f"{k} outside (0, 180)")
            for b in range(los.shape[0]):
                for u in range(los.shape[2]):
                    L = bool(los[b, 0, u])
                    i = (b, 0, u)
                    for n in range(int(act[i].sum())):
                        where = f"cluster {n} of a {'LoS' if L else 'NLoS'} link"
                        o = OFF
                        # departure: no spread between clusters seen from a satellite
                        k, e = match(deg["aod"][i][n], [g["los_aod"][i]], o*cs["ASD"][i], False, 0.02)
                        check(k is not None, "aod", f"azimuth of departure of {where}: rays are off by {e:.3f} degrees")
                        k, e = match(deg["zod"][i][n], [g["los_zod"][i]], o*czsd[i], True,
                                     0.02+(0 if L else 2.0/max(g["distance_2d"][i], 1.0)))
                        check(k is not None, "zod", f"zenith of departure of {where}: rays are off by {e:.3f} degrees")
                        for name, ang, lo, sp, cl, zen in (
                                ("aoa", deg["aoa"], g["los_aoa"][i], lsp["lsp.asa"][i], cs["ASA"][i], False),
                                ("zoa", deg["zoa"], g["los_zoa"][i], lsp["lsp.zsa"][i], cs["ZSA"][i], True)):
                            pr = (ze if zen else az)[i]
                            com = c*sp/7.0
                            if L:
                                cand = [lo] if n == 0 else [lo+s*pr[n]-t*pr[0] for s in (1, -1) for t in (1, -1)]
                            else:
                                cand = [lo+s*pr[n]+com for s in (1, -1)]
                            k, e = match(ang[i][n], cand, o*cl, zen, 0.03+3e-4*np.abs(pr).max())
                            check(k is not None, name, f"{name} of {where} ({'median' if c == 0 else 'one sigma'} draw): "
                                  f"rays are off by {e:.3f} degrees from {np.round(cand, 3).tolist()}")
                            if not L and pr[n] > 0.5 and not zen:
                                plus += k == 0
                                tot += 1
                                moved += 1
                            elif L and n > 0 and pr[n] > 0.5:
                                moved += 1
            mu, sg = F.param(cfg, "muXPR", los), F.param(cfg, "sigmaXPR", los)
            close(np.where(act[..., None], 10*np.log10(rays["xpr"]), 0),
                  np.where(act, (mu+c*sg)[..., None], 0)[..., None]*np.ones(20), "xpr",
                  f"cross-polarization ratio [dB] at {c} sigma", 1e-3, 1e-3)
            r.dg.add(rays)
        for k in range(plan["draws"]):
            lsp, rays = rays_of(m, stream("n", op["seed"], k, mode="extreme" if k == 0 else "nominal"))
            finite(rays)
            # whatever was drawn, the first cluster of a LoS link is in the LoS direction
            for b, u in zip(*np.nonzero(los[:, 0])):
                i = (b, 0, u)
                for name, o, zen in (("aoa", cs["ASA"][i], False), ("aod", cs["ASD"][i], False),
                                     ("zoa", cs["ZSA"][i], True), ("zod", czsd[i], True)):
                    x = np.degrees(rays[name][i][0])
                    q, e = match(x, [g["los_"+name][i]], OFF*o, zen, 0.05)
                    check(q is not None, name, f"first cluster of a LoS link (any draw): {name} is off the LoS "
                          f"direction by {e:.3f} degrees")
                r.n("probe.first_clusters")
            if k == 0:
                r.n("fault.extreme_draws")
                continue
            act = active(cfg, los)
            mu, sg = F.param(cfg, "muXPR", los), F.param(cfg, "sigmaXPR", los)
            if np.all(sg > 0):
                x = (10*np.log10(rays["xpr"])-mu[..., None, None])/sg[..., None, None]
                xs.append(x[act].ravel())
            # rays of one angle are coupled to those of any other at random; one user per example
            ok = act[:, 0, 0]
            rank = {}
            for name in ANG:
                x = np.degrees(rays[name][:, 0, 0]).astype(np.float64)
                if name[0] == "a":
                    x = wrap(x-np.degrees(np.angle(np.exp(1j*np.radians(x)).mean(-1, keepdims=True))))
                s_ = np.sort(x, -1)
                fine = ok & (np.diff(s_, axis=-1).min(-1) > 2e-4)
                if name[0] == "z":        # not folded at the poles
                    fine &= (s_[..., 0] > 0.1+3*(s_[..., -1]-s_[..., 0])) & (s_[..., -1] < 179.9-3*(s_[..., -1]-s_[..., 0]))
                rank[name] = (np.argsort(np.argsort(x, -1), -1)-9.5, fine)
            for p in PAIRS:
                (x, f1), (y, f2) = rank[p[0]], rank[p[1]]
                q = ((x*y).sum(-1)/665.0*np.sqrt(19))[f1 & f2]
                corr[p][0] += q.sum()
                corr[p][1] += q.size
                f = f1 & f2
                pats[p] += [tuple(v) for v in np.take_along_axis(y[f], np.argsort(x[f], -1), -1).tolist()]
            r.n("probe.draws")
            r.dg.add(rays)
    r.n("probe.clusters", moved)
    if tot > 40:
        # Signs are shared by the users of an example: only about tot/users are independent
        nmin = tot/max(o["u"] for o in plan["ops"])/2
        check(abs(plus/tot-0.5) < 6.5*0.5/np.sqrt(max(nmin, 1)), "sign", f"{plus} of {tot} azimuths are right of LoS")
    if xs:
        x = np.concatenate(xs)
        check(abs(x.mean()) < 6.5/np.sqrt(len(x)) and abs(x.var()-1) < 6.5*np.sqrt(2/len(x)), "xpr",
              f"cross-polarization ratios: mean {x.mean():.3f} sigma, variance {x.var():.3f} ({len(x)} rays)")
    for p, (c, n) in corr.items():
        if n > 3:
            check(abs(c)/np.sqrt(n) < 6.5, "coupling", f"rays of {p[0]} and {p[1]} are coupled systematically: rank "
                  f"correlation {c/np.sqrt(n):.1f} sigma over {n} clusters")
            r.n("probe.coupled_pairs", n)
            # each of the 20! couplings is as likely: none comes twice
            check(len(set(pats[p])) == n, "coupling", f"rays of {p[0]} and {p[1]} are coupled alike in several "
                  f"clusters, examples or generations ({len(set(pats[p]))} couplings of {n} clusters)")
    return moved > 0


run = runner(body)
