"""C21: the impulse response is the superposition of the rays, seen by both arrays."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (130, 2200)
RULE = ("distinct = (scenario, carrier, direction, elevation bucket, both arrays, LoS pattern, sampling, update "
        "history); non-trivial = every link of a generation was compared with the reference model")
MEASURE = "distinct (configuration, arrays, LoS pattern)"
REAL = [REAL_TF]
STUB = [STUB_RNG]
ASSUMES = ["the absolute phase of the LoS path is only required to differ between links of distinct length (2 pi d/lambda "
           "is below single precision at orbital distances)"]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, patterns=W.ANY_PATTERN)
    for k in ("ut", "bs"):
        if rnd.random() < 0.6:
            cfg[k] = W.gen_array(rnd, 2, W.ANY_PATTERN)
    op = gen_set_op(rnd, True)
    ops = [op]
    for _ in range(rnd.randint(0, 2 if tier == "quick" else 4)):
        ops.append(dict(gen_set_op(rnd, False, (op["b"], op["u"])), b=op["b"], u=op["u"]))
    return dict(cfg=cfg, ops=ops, T=W.pick(rnd, (1, 2, 5)), fs=W.pick(rnd, (1e4, 1e6)), phase=i % 6 == 0, seed=rnd.randrange(10**9))


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    r.sig = [{k: v for k, v in cfg.items()}, plan["T"], plan["fs"]]
    nt = False
    phases = {}
    for k in ("ut", "bs"):
        geometry(W.make_array(cfg[k], cfg["fc"]), cfg, k)
    for op in plan["ops"]:
        do_set(m, eff, op)
        eff.apply(op)
        nt |= compare(r, cfg, m, eff, plan["T"], plan["fs"], stream("g", plan["seed"], op["seed"]), phases)
    if plan.get("phase"):
        # the phase of the LoS path follows the distance: over links of distinct length it is
        # not one and the same (ten within 2 degrees by chance: less than 1e-15)
        g = np.random.RandomState(plan["seed"] % 2**31)
        b = 10
        alt = np.sort(g.uniform(601e3, 1900e3, b))+np.arange(b)*1e3
        op = dict(op="set", b=b, u=1, fields=list(ALL), seed=plan["seed"], los=True, alts=alt.tolist())
        eff.topo = W.gen_topo(plan["seed"], b, 1, F.angle(cfg) if cfg["elev"] is None else cfg["elev"], "spread", alt)
        W.set_topo(m, eff.topo, True, stream("ph", "set", plan["seed"]))
        phases = {}
        compare(r, cfg, m, eff, 1, 1e4, stream("ph", plan["seed"]), phases)
        x = np.array(list(phases.values()))
        if len(x) >= 6:
            r.n("probe.los_phases", len(x))
            check(abs(x.mean()) < 0.9995, "los-phase",
                  f"the LoS paths of {len(x)} links of distinct length all have the phase {np.degrees(np.angle(x[0])):.2f} degrees")
    return nt


def geometry(a, cfg, k):
    """What an array says of itself is where its antennas are and how they are polarised"""
    spec = cfg[k]
    pos, sl = F.array_elements(spec, cfg["fc"])
    ev, eh, pv, ph = W.panel_spacing(spec)
    lam = F.C0/cfg["fc"]
    close(np.array(a.ant_pos), pos, "array-geometry", f"{k} array: positions of the antennas", 1e-5, 1e-5*lam)
    check(int(a.num_ant) == len(pos) and int(a.num_panels) == spec["rows"]*spec["cols"]
          and int(a.num_panels_ant)*int(a.num_panels) == len(pos)
          and [int(x) for x in (a.num_rows, a.num_cols, a.num_rows_per_panel, a.num_cols_per_panel)]
          == [spec[x] for x in ("rows", "cols", "prows", "pcols")]
          and (a.polarization, a.polarization_type) == (spec["pol"], spec["type"]), "array-geometry",
          f"{k} array: numbers of antennas and panels")
    close(np.array([a.element_vertical_spacing, a.element_horizontal_spacing]), np.array([ev, eh]), "array-geometry",
          f"{k} array: element spacing", 1e-6, 0)
    if spec["rows"] > 1 or spec["cols"] > 1:
        close(np.array([a.panel_vertical_spacing, a.panel_horizontal_spacing]), np.array([pv, ph]), "array-geometry",
              f"{k} array: panel spacing", 1e-6, 0)
    for n, s in ((1, sl[0]), (2, sl[-1]))[:1 if spec["pol"] == "single" else 2]:
        ind = np.flatnonzero(sl == s)
        got = np.array(getattr(a, f"ant_ind_pol{n}"))
        check(np.array_equal(np.sort(got), ind), "array-geometry", f"{k} array: antennas of polarisation {n}: {got.tolist()}, should be {ind.tolist()}")
        close(np.array(getattr(a, f"ant_pos_pol{n}")), pos[got], "array-geometry",
              f"{k} array: positions of the antennas of polarisation {n}", 1e-5, 1e-5*lam)


def compare(r, cfg, m, eff, T, fs, st, phases):
    rec = W.Rec(m)
    a, tau = W.cir(m, T, fs, st)
    rec.close()
    if not rec.cir or not rec.calls:
        return False
    c, ray = rec.cir[-1], rec.calls[-1]
    los = np.array(m._scenario.los)
    r.sig.append(los.tolist())
    topo = eff.topo
    geo = F.geometry(topo, cfg)
    t = np.arange(T)/fs
    close(c["t"].astype(float), t, "sampling-times", "sampling instants", 1e-5, 1e-9)
    down = cfg["direction"] == "downlink"
    PL = F.total_loss(topo, cfg, eff.env, los)
    phi = c["phi"]
    check(np.all(np.abs(phi) <= np.pi+1e-5), "phases", "initial phases outside (-pi, pi)")
    for b in range(los.shape[0]):
        for u in range(los.shape[2]):
            d, p, L = F.link_cir(dict(cfg, doppler=eff.doppler), topo, geo, los, ray["rays"], ray["lsp"], phi,
                                 c["sat"], t, b, u)
            A = a[b, u, :, 0] if down else a[b, 0, :, u]
            D = tau[b, u, 0] if down else tau[b, 0, u]
            g = 10**(-PL[b, 0, u]/20) if cfg["pl"] else 1.0
            if cfg["sf"]:
                g *= np.sqrt(float(ray["lsp"]["lsp.sf"][b, 0, u]))
            A = np.moveaxis(A.astype(np.complex128), 2, 0)/g
            n = len(d)
            what = f"{'LoS' if los[b, 0, u] else 'NLoS'} link of user {u} in example {b}"
            check(A.shape[0] >= n and A.shape[1:] == p.shape[1:], "shape", f"{A.shape} vs {p.shape}")
            close(D[:n], d, "delays", f"path delays of the {what}", 1e-4, 2e-12)
            check(np.all(A[n:] == 0), "extra-paths", f"{what} has additional paths")
            res = A[:n]-p
            if L is not None:
                x = np.vdot(L, res[0])
                if abs(x) > 0:
                    res[0] = res[0]-x/abs(x)*L
                    phases[round(float(np.array(m._scenario.distance_3d)[b, 0, u]))] = x/abs(x)
            # a tie between delays or powers leaves the order open
            sc = np.sqrt((np.abs(A)**2).sum(0).max())
            e = np.abs(res).max((1, 2, 3))/max(sc, 1e-300)
            k = int(np.argmax(e))
            if not e.max() < 2e-3 and ties(ray["rays"], d, b, u, n):
                r.n("probe.ties")
                continue
            check(e.max() < 2e-3, "superposition",
                  lambda: f"path {k} of {n} of the {what}: coefficients differ from the superposition of the rays by "
                  f"{e.max():.1e} of the strongest ({np.abs(A[k]).max():.3e} vs {np.abs(A[k]-res[k]).max():.3e})")
            r.n("probe.links")
    r.dg.add(a, tau)
    r.n("sim_s", T/fs)
    return True


def ties(rays, d, b, u, n):
    P = np.sort(rays["powers"][b, 0, u].astype(float))[::-1]
    return bool(np.any(np.diff(d[:n]) < 1e-13)) or (len(P) > 2 and P[1]-P[2] < 1e-6*P[0]) or P[0]-P[1] < 1e-6*P[0]


run = runner(body)
