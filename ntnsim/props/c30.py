"""C30: small-scale randomness is drawn independently for every ray, link, example and generation."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from .c13 import unscaled
from .c14 import primes, wrap

RUNS = (64, 900)
RULE = ("distinct = (scenario, band, direction, elevation bucket, LoS mode, sizes, history of updates and generations); "
        "non-trivial = several generations of several links were compared")
MEASURE = "distinct (configuration, history)"
REAL = [REAL_TF]
STUB = [STUB_RNG]
ASSUMES = ["tests on the draws of fixed seeds: a correlation counts beyond 6.5 standard deviations",
           "the coupling of rays and the signs of cluster angles may be common to the users of an example"]
shrink = shrink_sizes
ANG = ("aoa", "aod", "zoa", "zod")
LIM = 6.5


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, arrays=False, doppler=rnd.random() < .3)
    b, u = rnd.randint(2, 4), rnd.randint(2, 4)
    deep = i % 3 == 0          # scattered links only, and more of them: sides and displacements of clusters
    if deep:
        b, u = rnd.randint(4, 8), rnd.randint(3, 5)
        cfg["elev"] = round(rnd.uniform(12, 45), 1)
    ops = [dict(op="set", seed=rnd.randrange(10**9), b=b, u=u, fields=ALL, kind=W.pick(rnd, ("spread", "wide")),
                los=False if deep else W.pick(rnd, (None, True, False)))]
    for _ in range(rnd.randint(8, 12)+8*deep if tier == "quick" else rnd.randint(12, 30)+15*deep):
        m = rnd.random()
        if m < .12:
            ops.append(dict(gen_set_op(rnd, False, (b, u)), b=b, u=u, kind=W.pick(rnd, ("spread", "wide"))))
        elif m < .2:
            ops.append(dict(op="env", env=W.gen_env(rnd)))
        else:
            # the same or another generation again and again, alone or between those of another model
            ops.append(dict(op="gen", seed=rnd.randrange(10**9), T=W.pick(rnd, (1, 1, 1, 4)), fs=W.pick(rnd, (1e5, 1e5, 1e6)),
                            other=rnd.random() < .2))
    return dict(cfg=cfg, ops=ops)


class Pool:
    """Mean product of standardised variables along an axis, over a whole run"""

    def __init__(self):
        self.d = {}

    def add(self, key, x, y, ok=None):
        """Arrays of (real or complex) values of unit variance"""
        p = (x*np.conj(y))
        ok = np.isfinite(p) if ok is None else ok & np.isfinite(p)
        p = p[ok]
        s, n = self.d.get(key, (0.0, 0))
        self.d[key] = (s+p.sum(), n+p.size)

    def judge(self, r):
        for key, (s, n) in sorted(self.d.items()):
            # few terms: the sum is not normal yet (orders count coincidences, sides are +-1)
            if n < (8 if key[0].startswith("order") else 43 if key[0].startswith("sides") else 50):
                continue
            z = abs(s)/np.sqrt(n)
            r.n("probe.correlations")
            check(z < LIM, "dependent-draws", f"{key[0]} of different {key[1]}{' (distance %d)' % key[2] if key[2:] else ''} depend on each other: "
                  f"correlation {abs(s)/n:.3f} over {n} pairs ({z:.1f} standard deviations)")


def normal(u):
    from scipy.special import ndtri
    return ndtri(np.clip(u, 1e-12, 1-1e-12))


def along(pool, name, x, ok, axes, mirrored=False, bylag=True):
    """Values at some distance along every axis; axes: name by number"""
    for ax, an in axes.items():
        n = x.shape[ax]
        for lag in sorted({1, 2, 3, n//2, n-1}):
            if not 0 < lag < n:
                continue
            a = [slice(None)]*x.ndim
            b = [slice(None)]*x.ndim
            a[ax], b[ax] = slice(0, n-lag), slice(lag, n)
            a, b = tuple(a), tuple(b)
            pool.add((name, an, lag) if bylag else (name, an), x[a], x[b], ok[a] & ok[b])
            if mirrored:
                pool.add((name+" (mirrored)", an, lag), x[a], np.conj(x[b]), ok[a] & ok[b])


def ranks(ang, act):
    """[..., cluster, ray] rank of each ray in its cluster, and where that is well defined"""
    x = np.exp(1j*ang)
    d = np.angle(x*np.conj(x.mean(-1, keepdims=True)))
    s = np.sort(d, -1)
    ok = act & (np.diff(s, axis=-1).min(-1) > np.radians(2e-3)) & (s[..., -1]-s[..., 0] < 2.5)
    return np.argsort(np.argsort(d, -1), -1), ok


def matches(pool, name, what, p, q, ok):
    n = p.shape[-1]
    for w, e in ((q, ""), (n-1-q, " (reversed)")):
        m = (p == w).sum(-1)-1.0
        pool.add((name+e, what), m, np.ones_like(m), ok)


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    other = None
    eff = Effective(cfg)
    pool = Pool()
    uni = []
    last = []
    drawn = []
    lastlsp = None
    ngen = 0
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], F.angle(cfg), cfg["agl"],
             [(o["op"], o.get("los"), o.get("fields"), o.get("T"), o.get("other")) for o in plan["ops"]]]
    updated = False
    for op in plan["ops"]:
        if op["op"] == "set":
            do_set(m, eff, op)
            eff.apply(op)
            updated = updated or eff.relevant
            continue
        if op["op"] == "env":
            do_env(m, op)
            eff.apply(op)
            continue
        if op.get("other"):
            if other is None:
                other = W.make_model(dict(cfg, agl=not cfg["agl"]))
                W.set_topo(other, eff.topo, None, stream("o", op["seed"]))
            W.cir(other, 1, 1e5, stream("og", op["seed"]))
        rec = W.Rec(m)
        a, tau = do_gen(m, op)
        rec.close()
        if not rec.calls or not rec.cir:
            continue
        ngen += 1
        los = np.array(m._scenario.los)
        act = active(cfg, los)
        ray = {k: v.astype(float) for k, v in rec.calls[-1]["rays"].items()}
        lsp = {k: v.astype(float) for k, v in rec.calls[-1]["lsp"].items()}
        phi = rec.cir[-1]["phi"].astype(float)
        AX = {0: "examples", 2: "users", 3: "clusters", 4: "rays"}
        V = {}
        # phases, [batch, tx, rx, cluster, ray, 4]; brought to [batch, sat, user, ...]
        if phi.shape[1] != 1 or phi.shape[2] != los.shape[2]:
            phi = np.swapaxes(phi, 1, 2)
        ok = np.broadcast_to(act[..., None, None], phi.shape)
        uni.append(phi[ok])
        e = np.exp(1j*phi)
        along(pool, "initial phases", e, ok, {**AX, 5: "polarisations"}, True)
        V["initial phases"] = (e, ok)
        # cross-polarisation, [batch, sat, user, cluster, ray]
        mu, sg = F.param(cfg, "muXPR", los)[..., None, None], F.param(cfg, "sigmaXPR", los)[..., None, None]
        with np.errstate(all="ignore"):
            x = (10*np.log10(ray["xpr"])-mu)/np.maximum(sg, 1e-9)
        ok = np.broadcast_to(act[..., None] & (sg > 0), x.shape)
        along(pool, "cross-polarisation ratios", x, ok, AX)
        V["cross-polarisation ratios"] = (x, ok)
        # delays: normalised spacings are independent exponentials
        rT, zeta = F.param(cfg, "rTau", los)[..., None], F.param(cfg, "zeta", los)[..., None]
        nact = act.sum(-1, keepdims=True)
        U = np.where(act, unscaled(cfg, los, lsp, ray["delays"]), 0)
        DS = lsp["lsp.ds"][..., None]
        n = act.shape[-1]
        sp = np.diff(U, axis=-1)*(nact-1-np.arange(n-1))/(rT*DS)
        k = 10*np.log10(np.maximum(lsp["lsp.k_factor"], 1e-30))
        sane = (~los | (k > -30))[..., None]         # the standard's delay scaling has a sign there
        ok = act[..., 1:] & sane & (sp >= 0)
        x = normal(-np.expm1(-np.maximum(sp, 0)))
        along(pool, "cluster delays", x, ok, {0: "examples", 2: "users", 3: "clusters"})
        V["cluster delays"] = (x, ok)
        # shadowing of clusters: relative to the mean of the link
        with np.errstate(all="ignore"):
            z = np.where(act, 10*np.log10(np.maximum(ray["powers"], 1e-300))
                         + 10/np.log(10)*U*(rT-1)/(rT*DS), 0)/np.maximum(zeta, 1e-9)
        full = ((ray["powers"] > 1e-30) | ~act).all(-1, keepdims=True) & (nact > 1) & sane & (zeta > 0)
        mean = np.where(act, z, 0).sum(-1, keepdims=True)/nact
        x = (z-mean)/np.sqrt(np.maximum(1-1/nact, 1e-9))
        ok = act & full
        # residuals of one link have correlation -1/(n-1): only across links
        along(pool, "cluster shadowing", x, ok, {0: "examples", 2: "users"})
        V["cluster shadowing"] = (x, ok)
        # displacement of clusters from the direct path, of links without line of sight: +-p and a normal variable
        g = F.geometry(eff.topo, cfg)
        az, ze = primes(cfg, los, lsp, ray)
        S = {}
        for name, pr, sp in (("aoa", az, lsp["lsp.asa"]), ("zoa", ze, lsp["lsp.zsa"])):
            lo = np.asarray(g["los_"+name], float)[..., None]
            sd = sp[..., None]/7.0
            x = np.degrees(ray[name])
            if name == "aoa":
                d = wrap(np.degrees(np.angle(np.exp(1j*np.radians(x)).mean(-1)))-lo)
                ok = pr+4*sd < 150
            else:
                lo = lo % 360.0
                up = np.where(lo > 180, -1.0, 1.0)
                lo = np.where(lo > 180, 360-lo, lo)
                d = (x.mean(-1)-lo)*up
                ok = np.minimum(lo, 180-lo) > pr+4*sd+2.2*F.param(cfg, "cZSA", los)[..., None]
            sign = np.sign(d)
            ok = ok & act & ~los[..., None] & (pr > 4*sd) & (sp[..., None] > 0.2)
            y = (d-sign*pr)/np.maximum(sd, 1e-9)
            y = np.clip(y, -6, 6)
            along(pool, f"displacements of clusters ({name.upper()})", y, ok, {0: "examples", 2: "users", 3: "clusters"}, bylag=False)
            V[f"displacements of clusters ({name.upper()})"] = (y, ok)
            # the same side for all users: one user counts
            along(pool, f"sides of clusters ({name.upper()})", sign[:, :, :1], ok[:, :, :1], {0: "examples", 3: "clusters"}, bylag=False)
            V[f"sides of clusters ({name.upper()})"] = (sign[:, :, :1], ok[:, :, :1])
            pool.add((f"sides of clusters ({name.upper()})", "and the right hand side"), sign[:, :, 0], np.ones_like(sign[:, :, 0]), ok[:, :, 0])
            S[name] = (y, sign, ok)
        pool.add(("displacements of clusters", "kinds"), S["aoa"][0], S["zoa"][0], S["aoa"][2] & S["zoa"][2])
        pool.add(("sides of clusters", "kinds"), S["aoa"][1][:, :, 0], S["zoa"][1][:, :, 0], (S["aoa"][2] & S["zoa"][2])[:, :, 0])
        # order of the rays, [batch, sat, user, cluster, ray]
        P = {}
        for a_ in ANG:
            p, ok = ranks(ray[a_], act)
            P[a_] = (p, ok)
            pos = np.arange(p.shape[-1])-(p.shape[-1]-1)/2
            rho = (p-(p.shape[-1]-1)/2) @ pos/np.sum(pos**2)*np.sqrt(p.shape[-1]-1)
            # the same order for all users: one user counts
            pool.add((f"order of the {a_.upper()}", "and position of rays"), rho[:, :, 0], np.ones_like(rho[:, :, 0]), ok[:, :, 0])
            q, okq = p[:, :, 0], ok[:, :, 0]
            matches(pool, f"order of the {a_.upper()}", "clusters", q[:, :, :-1], q[:, :, 1:], okq[:, :, :-1] & okq[:, :, 1:])
            if q.shape[0] > 1:
                matches(pool, f"order of the {a_.upper()}", "examples", q[:-1], q[1:], okq[:-1] & okq[1:])
        for i, a_ in enumerate(ANG):
            for b_ in ANG[i+1:]:
                p, q = P[a_], P[b_]
                matches(pool, f"order of {a_.upper()} and {b_.upper()}", "kinds", p[0][:, :, 0], q[0][:, :, 0], p[1][:, :, 0] & q[1][:, :, 0])
        # from one generation to the next
        for lag, old in enumerate(reversed(last), 1):
            if old[0]["initial phases"][0].shape != e.shape:
                break
            for name, (x, ok) in V.items():
                y, oky = old[0][name]
                pool.add((name, "generations") if "of clusters" in name else (name, "generations", lag), x, y, ok & oky)
                if x.dtype.kind == "c":
                    pool.add((name+" (mirrored)", "generations", lag), x, np.conj(y), ok & oky)
            for a_ in ANG:
                p, q = P[a_], old[1][a_]
                matches(pool, f"order of the {a_.upper()}", "generations", p[0][:, :, 0], q[0][:, :, 0], p[1][:, :, 0] & q[1][:, :, 0])
        last = (last+[(V, P)])[-3:]
        # large-scale parameters: new at each relevant update, or at each generation if so asked
        mean, std = F.lsp_mean_std(cfg, los)
        v = np.stack([lsp["lsp."+q] for q in ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")], -1)
        with np.errstate(all="ignore"):
            y = np.where(std > 0, (np.log10(v)-mean)/std, np.nan)
        if lastlsp is not None and lastlsp.shape == y.shape and (cfg["agl"] or updated):
            # the others are capped; one user, for these are correlated
            for q, n in ((0, "delay spreads"), (3, "shadow fading values")):
                pool.add((n, "updates or generations"), y[..., :1, q], lastlsp[..., :1, q])
        if cfg["agl"] or updated or lastlsp is None:
            # nor does any earlier draw come back
            v = y[..., [0, 3]].reshape(-1, 2)
            v = v[np.isfinite(v).all(-1)]
            for w in drawn:
                k = (np.abs(v[:, None]-w[None]) < 1e-4).all(-1)
                check(not k.any(), "repeated-draw", lambda: f"the large-scale parameters of a link are those of an earlier update or "
                      f"generation (delay spread and shadow fading at {v[np.nonzero(k)[0][0]].round(4).tolist()} sigma)")
            drawn.append(v)
        lastlsp = y
        updated = False
        r.n("probe.generations")
        r.n("sim_s", op["T"]/op["fs"])
        r.dg.add(ray, phi)
    pool.judge(r)
    if uni:
        x = np.concatenate(uni)
        check(np.all(np.abs(x) <= np.pi*(1+1e-6)), "phase-range", f"initial phase {np.abs(x).max():.4f}")
        k = ks_uniform((x+np.pi)/(2*np.pi))
        check(k < KS, "phase-distribution", f"initial phases are not uniform over (-pi, pi): KS {k:.2f} over {len(x)}")
    return ngen > 1


run = runner(body)
