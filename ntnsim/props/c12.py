"""C12: LSPs have the tabulated medians and spreads, cross- and spatial correlations and
caps, for every topology."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (130, 2200)
RULE = ("distinct = (scenario, band, direction, elevation bucket, LoS pattern, number of users and examples, "
        "geometry kind, history length); non-trivial = the covariance of at least one link was recovered")
MEASURE = "distinct (configuration, LoS pattern, geometry)"
REAL = [REAL_TF]
STUB = [STUB_RNG + " (unit impulses recover the exact linear map of the LSP generator)"]
AMP = 0.25
CAPS = dict(ASD=104., ASA=104., ZSA=52., ZSD=52.)


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, arrays=False)
    ops = []
    for k in range(rnd.randint(1, 3)):
        b, u = W.pick(rnd, ((1, 1), (1, 2), (1, 3), (2, 2), (2, 1), (1, 4)))
        if rnd.random() < .12:
            b, u = W.pick(rnd, ((1, 8), (2, 7), (1, 12), (5, 2), (4, 3), (6, 1)))
        ops.append(dict(op="set", seed=rnd.randrange(10**9), b=b, u=u, fields=ALL,
                        los=W.pick(rnd, (None, None, True, False)),
                        kind=W.pick(rnd, (None, "near", "spread", "colocated", "wide"))))
    return dict(cfg=cfg, ops=ops)


shrink = shrink_sizes


def logs(m, s):
    with R.use(s):
        l = m._lsp_sampler()
    v = np.stack([np.asarray(getattr(l, n)) for n in ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")], -1)
    check(np.all(np.isfinite(v)) and np.all(v >= 0), "not-finite", f"LSPs {v.ravel()[:14]}")
    for i, n in enumerate(F.LSPN):
        if n in CAPS:
            check(np.all(v[..., i] <= CAPS[n]*(1+1e-6)), "lsp-cap",
                  f"{n} is {v[..., i].max()} degrees, limit {CAPS[n]}")
    with np.errstate(divide="ignore"):
        return np.log10(v.astype(np.float64))


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    for op in plan["ops"]:
        do_set(m, eff, op)
        eff.apply(op)
        los = np.array(m._scenario.los)
        b, _, u = los.shape
        r.sig.append((cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], F.angle(cfg), los.tolist(), op.get("kind")))
        mean, std = F.lsp_mean_std(cfg, los)
        cap = np.array([np.log10(CAPS.get(n, np.inf)) for n in F.LSPN])
        s0 = stream("c", 0, mode="const", c=0.0)
        y0 = logs(m, s0)
        close(y0, np.minimum(mean, cap), "lsp-median", "log10 of LSPs [batch, satellite, user, LSP] at the median",
              2e-5, 2e-5)
        N = s0.normals
        cols = []
        for k in range(N):
            cols.append(logs(m, stream("i", k, mode="impulse", imp=k, c=AMP)))
        Y = np.stack(cols, -1)                       # [b,1,u,7,N]
        ok = np.isfinite(mean) & (std > 0) & (mean+1.1*AMP*std < cap)
        with np.errstate(divide="ignore", invalid="ignore"):
            A = np.where(ok[..., None], (Y-mean[..., None])/(AMP*std[..., None]), 0.0)
        fixed = ~ok & ~(mean+1.1*AMP*std >= cap)
        for k in range(N):
            close(np.where(fixed, Y[..., k], 0), np.where(fixed, mean, 0), "lsp-median",
                  "LSPs without spread", 2e-5, 2e-5)
        A = A.reshape(b*u*7, N)
        C = (A @ A.T).reshape(b, u, 7, b, u, 7)
        okk = ok.reshape(b, u, 7)
        tol = 4e-3
        g = F.geometry(eff.topo, cfg)
        for i in range(b):
            for j in range(b):
                if i != j:
                    e = np.abs(C[i, :, :, j]).max()
                    check(e < tol, "lsp-batch", f"LSPs of examples {i} and {j} are correlated ({e:.3f})")
            L = los[i, 0]
            sp = F.spatial_corr(cfg, L, g["matrix_ut_distance_2d"][i])
            for q in range(7):
                w = np.outer(okk[i, :, q], okk[i, :, q])
                want = np.where(w, sp[q], 0)
                got = np.where(w, C[i, :, q, i, :, q], 0)
                close(got, want, "lsp-spatial", f"correlation of {F.LSPN[q]} between users {L.tolist()} at distances "
                      f"{np.round(g['matrix_ut_distance_2d'][i], 1).tolist()}", 0, tol)
            for uu in range(u):
                # links that are (nearly) uncorrelated with all others
                off = sp[:, uu].copy()
                off[:, uu] = 0
                if off.max() > 1e-4:
                    continue
                w = np.outer(okk[i, uu], okk[i, uu])
                want = np.where(w, F.cross_corr(cfg, bool(L[uu])), 0)
                close(np.where(w, C[i, uu, :, i, uu], 0), want, "lsp-cross",
                      f"cross-correlations of the LSPs {F.LSPN} of a {'LoS' if L[uu] else 'NLoS'} link", 0, 2*tol)
                r.n("probe.cross_correlations")
        # linear in the randomness: large and ordinary draws
        for c in (1.0, -2.0, 3.0):
            y = logs(m, stream("c", c, mode="const", c=c))
            s = (A.sum(-1)*c).reshape(b, 1, u, 7)
            want = np.where(ok, np.minimum(mean+std*s, cap), y)
            close(y, want, "lsp-distribution", f"log10 of LSPs at {c} sigma", 2e-3, 4e-3)
        r.n("probe.impulses", N)
        r.dg.add(Y, y0)
        # what a generation uses is drawn in this way, too: same stream, same LSPs
        if not cfg["agl"]:
            st = stream("n", op["seed"])
            y = logs(m, st)
            z = logs(m, stream("n", op["seed"]))
            same(y, z, "lsp-state", "LSPs drawn twice with the same randomness")
    return True


run = runner(body)
