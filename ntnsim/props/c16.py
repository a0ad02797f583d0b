"""C16: time evolution: one continuous-time channel, sampled."""
import math

import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (110, 1800)
RULE = ("distinct = (scenario, band, direction, elevation bucket, LoS pattern, sampling, kind of motion); "
        "non-trivial = the channel had more than one time sample")
MEASURE = "distinct (configuration, sampling, motion)"
REAL = [REAL_TF]
STUB = [STUB_RNG]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, agl=rnd.random() < .3)
    op = gen_set_op(rnd, True)
    return dict(cfg=cfg, ops=[op], T=rnd.randint(2, 24), fs=W.pick(rnd, (1e4, 1e5, 1e6, 15e3, 30.72e6)),
                q=rnd.randint(2, 3), still=rnd.random() < 0.3, seed=rnd.randrange(10**9),
                stat=i % 5 == 0)


def rel(a, b):
    """Error relative to the strongest coefficient of the link"""
    sc = np.abs(b).max((2, 4, 5, 6), keepdims=True)
    return float((np.abs(a-b)/np.maximum(sc, 1e-300)).max())


def body(r, plan):
    cfg = plan["cfg"]
    eff = Effective(cfg)
    op = plan["ops"][0] if plan["ops"] else gen_set_op(__import__("random").Random(1), True)
    if plan["still"]:
        f = eff.fields_of(op)
        f["ut_velocities"] = np.zeros_like(f["ut_velocities"])
        eff.topo = f
        op = dict(op, fields=["ut_velocities"])
    topo = dict(eff.fields_of(op) if not eff.topo else eff.topo)
    m = {}
    for d in (False, True):
        m[d] = W.make_model(dict(cfg, doppler=d))
        W.set_topo(m[d], topo, op["los"], stream("m", "set", op["seed"]))
    los = np.array(m[True]._scenario.los)
    T, fs, q, sd = plan["T"], plan["fs"], plan["q"], plan["seed"]
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], F.angle(cfg), los.tolist(), T, fs, q, plan["still"]]

    def g(d, T, fs, s=sd):
        return W.cir(m[d], T, fs, stream("g", s))
    out = {}
    for d in (False, True):
        a, tau = out[d] = g(d, T, fs)
        check(a.shape[-1] == T, "shape", f"{a.shape[-1]} time samples instead of {T}")
        finite(dict(a=a, tau=tau))
        # the same number of samples at another rate, from the same model, next
        a3, _ = g(d, T, fs*q)
        k = (T-1)//q+1
        e = rel(a3[..., ::q], a[..., :k])
        check(e < 3e-3, "resampling", f"{T} samples, {q} times faster, are another channel at the same instants ({e:.2e})")
        # stopping earlier
        k = max(1, T//2)
        a1, tau1 = g(d, k, fs)
        check(rel(a[..., :k], a1) < 1e-4 and np.array_equal(tau, tau1), "prefix",
              f"the first {k} samples depend on how many are asked for ({rel(a[..., :k], a1):.2e})")
        # sampling faster
        a2, _ = g(d, (T-1)*q+1, fs*q)
        e = rel(a2[..., ::q], a)
        check(e < 3e-3, "resampling", f"sampling {q} times faster is another channel at the same instants ({e:.2e})")
        r.n("sim_s", T/fs)
        r.dg.add(a, tau)
    a0, a1 = out[False][0], out[True][0]
    check(np.array_equal(out[False][1], out[True][1]), "delays-drift", "Doppler changes the delays")
    if plan["still"]:
        e = rel(np.broadcast_to(a0[..., :1], a0.shape), a0)
        check(e < 1e-5, "no-motion", f"the channel changes with time although nothing moves ({e:.2e})")
        r.n("probe.still")
    # the satellite adds one common rotation per example
    t = np.arange(T)/fs
    vmax = np.sqrt(F.GM/(F.RE+topo["bs_loc"][:, 0, 2].astype(float)))*math.cos(math.radians(cfg["elev"]))
    lam = F.C0/cfg["fc"]
    for b in range(a0.shape[0]):
        x, y = a0[b].reshape(-1, T).astype(complex), a1[b].reshape(-1, T).astype(complex)
        if T < 2:
            continue
        # rotation at each instant, estimated over all coefficients
        rho = (y*x.conj()).sum(0)
        mag = (np.abs(x)**2).sum(0)
        check(np.all(np.abs(np.abs(rho)-mag) < 2e-3*mag+1e-300), "satellite-doppler",
              f"Doppler of the satellite is not a common phase rotation in example {b}")
        z = rho/np.abs(rho)
        check(abs(z[0]-1) < 2e-3, "satellite-doppler", "rotation at time zero")
        st = z[1:]*z[:-1].conj()
        check(np.abs(st-st[0]).max() < 4e-3, "satellite-doppler", f"rotation of example {b} is not uniform")
        f = np.angle(st[0])*fs/2/np.pi
        if vmax[b]/lam*1.01 < fs/2:
            check(abs(f) <= vmax[b]/lam*(1+1e-3)+2e-3*fs, "satellite-doppler",
                  f"Doppler {f:.1f} Hz of example {b} exceeds the orbital {vmax[b]/lam:.1f} Hz")
            r.n("probe.doppler_bounds")
    if plan["stat"]:
        # direction of flight: uniform, new for every example and generation
        rec = W.Rec(m[True])
        b = 40
        W.set_topo(m[True], W.gen_topo(sd, b, 1, cfg["elev"], "spread", [600e3]*b), None, stream("s", sd))
        vs = []
        for k in range(4):
            W.cir(m[True], 1, 1e3, stream("s", sd, k))
            v = rec.cir[-1]["sat"]
            vs.append(np.asarray(v, np.float64))
        rec.close()
        vm = math.sqrt(F.GM/(F.RE+600e3))*math.cos(math.radians(cfg["elev"]))
        v = np.stack(vs)
        check(v.shape == (4, b), "satellite-direction", f"satellite speeds of shape {v.shape[1:]} for {b} examples")
        if vm > 1:
            x = np.arccos(np.clip(v/vm, -1, 1))/np.pi
            check(np.abs(v).max() <= vm*(1+1e-4), "satellite-direction", f"speed {np.abs(v).max():.1f} m/s above {vm:.1f}")
            check(ks_uniform(x) < KS, "satellite-direction", f"directions of flight are not uniform (KS {ks_uniform(x):.1f})")
            check(len(np.unique(v.round(3))) > 0.9*v.size, "satellite-direction", "examples or generations share a direction")
        r.n("probe.directions", v.size)
        r.dg.add(v)
    return T > 1


run = runner(body)
