"""C15: path loss and shadow fading scale each link, once, and only if enabled."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401

RUNS = (100, 1800)
RULE = ("distinct = (scenario, band, direction, elevation bucket, LoS pattern, environment history, satellite "
        "heights); non-trivial = channels of the four switch settings were compared")
MEASURE = "distinct (configuration, LoS pattern, environment history)"
REAL = [REAL_TF]
STUB = [STUB_RNG]
shrink = shrink_sizes


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd, agl=rnd.random() < .25)
    ops = [gen_set_op(rnd, True)]
    for _ in range(rnd.randint(1, 3 if tier == "quick" else 6)):
        m = rnd.random()
        if m < 0.4:
            ops.append(dict(op="env", env=W.gen_env(rnd)))
        elif m < 0.7:
            ops.append(dict(gen_set_op(rnd, False, (ops[0]["b"], ops[0]["u"])), b=ops[0]["b"], u=ops[0]["u"]))
        ops.append(gen_gen_op(rnd))
    return dict(cfg=cfg, ops=ops)


def body(r, plan):
    cfg = plan["cfg"]
    ms = {}
    for pl in (False, True):
        for sf in (False, True):
            ms[pl, sf] = W.make_model(dict(cfg, pl=pl, sf=sf))
    recs = {k: W.Rec(m) for k, m in ms.items()} if cfg["agl"] else {}
    eff = Effective(cfg)
    base = ms[False, False]
    nt = False
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], F.angle(cfg)]
    for op in plan["ops"]:
        if op["op"] == "set":
            for m in ms.values():
                do_set(m, eff, op)
            eff.apply(op)
            r.sig.append((np.array(base._scenario.los).tolist(), eff.topo["bs_loc"][:, 0, 2].tolist()))
            continue
        if not eff.topo:
            continue
        if op["op"] == "env":
            for m in ms.values():
                do_env(m, op)
            eff.apply(op)
            r.sig.append(sorted(op["env"]))
            continue
        los = np.array(base._scenario.los)
        lsp = W.lsp_of(base)
        out = {k: do_gen(m, op) for k, m in ms.items()}
        if cfg["agl"]:
            lsps = {k: c.calls[-1]["lsp"] for k, c in recs.items()}
            # an uplink generation may hold them in the other orientation
            lsps = {k: {n: np.reshape(x, los.shape) for n, x in l.items()} for k, l in lsps.items()}
            lsp = lsps[False, False]
        else:
            lsps = {k: W.lsp_of(m) for k, m in ms.items()}
        for l in lsps.values():
            same(l, lsp, "switch-state", "LSPs depend on the switches")
        A0, t0 = out[False, False]
        PL = F.total_loss(eff.topo, cfg, eff.env, los)            # [b, 1, u]
        sf = lsp["lsp.sf"].astype(np.float64)
        finite(lsp)
        check(np.all(PL > 100), "path-loss", "path loss of a satellite link below 100 dB")
        for (pl, s), (a, tau) in out.items():
            same(tau, t0, "switch-delays", "delays depend on the switches")
            g = np.where(pl, 10**(-PL/20), 1.0)*np.where(s, np.sqrt(sf), 1.0)
            # a: [b, rx, rx_ant, tx, tx_ant, paths, t]
            g = g[:, :, None, :, None, None, None] if cfg["direction"] == "uplink" else \
                np.transpose(g, (0, 2, 1))[:, :, None, :, None, None, None]
            want = A0.astype(np.complex128)*g
            sc = np.abs(want).max((2, 4, 5, 6), keepdims=True)
            err = (np.abs(a-want)/np.maximum(sc, 1e-300)).max((2, 4, 5, 6))
            i = np.unravel_index(np.argmax(err), err.shape)
            check(err.max() < 2e-3, "path-loss" if pl else "shadow-fading",
                  lambda: f"path loss {'on' if pl else 'off'}, shadow fading {'on' if s else 'off'}: link (batch, rx, tx) "
                  f"{i} is scaled by {20*np.log10(np.abs(a[i[0], i[1], :, i[2]]).max()/np.abs(A0[i[0], i[1], :, i[2]]).max()):.3f} dB "
                  f"and should be by {20*np.log10(g[i[0], i[1], 0, i[2]].ravel()[0]):.3f} dB")
            r.n("probe.links", err.size)
            r.dg.add(a)
        r.n("sim_s", op["T"]/op["fs"])
        nt = True
    return nt


run = runner(body)
