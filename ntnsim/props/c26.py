"""C26: behind Sionna's OFDM and time-domain channel layers a model yields the responses of its own impulse
response at the sampling the layer asks for, for whatever topology is in force, and the package's own
conversions agree with it."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from ..trace import LineBomb, Interrupt

RUNS = (110, 1500)
RULE = ("distinct = (scenario, band, direction, LSP mode, kinds of layers, sequence of updates, layer calls, announced batch "
        "sizes, faults); non-trivial = at least one response was compared")
MEASURE = "distinct histories of layer calls"
REAL = [REAL_TF, "Sionna's GenerateOFDMChannel, OFDMChannel, GenerateTimeChannel, TimeChannel, ResourceGrid"]
STUB = [STUB_RNG, "caller's interruption: an exception raised before a seeded line of the code under test"]
KINDS = ("gofdm", "ofdm", "gtime", "time")


def plan(rnd, i, tier):
    cfg = W.gen_cfg(rnd)
    lay = []
    for _ in range(rnd.randint(1, 3)):
        lay.append(dict(kind=W.pick(rnd, KINDS), sym=rnd.randint(1, 4), fft=W.pick(rnd, (8, 12, 15, 32, 33, 64)),
                        scs=W.pick(rnd, (15e3, 30e3, 60e3, 120e3)), cp=rnd.randint(0, 6), norm=rnd.random() < .4,
                        n=rnd.randint(1, 9), lmin=-rnd.randint(0, 6), lmax=rnd.randint(0, 25), wide=rnd.random() < .3,
                        late=rnd.random() < .3))
    ops = [gen_set_op(rnd, True)]
    bu = ops[0]["b"], ops[0]["u"]
    for _ in range(rnd.randint(2, 5 if tier == "quick" else 12)):
        m = rnd.random()
        if m < .25:
            o = gen_set_op(rnd, False, bu)
            bu = o["b"], o["u"]
        elif m < .33:
            o = dict(op="env", env=W.gen_env(rnd))
        elif m < .38:
            o = dict(op="doppler", on=rnd.random() < .5)
        else:
            o = dict(op="call", layer=rnd.randrange(8), seed=rnd.randrange(10**9),
                     batch=W.pick(rnd, ("none", "true", "true", "tensor", "other")))
            f = rnd.random()
            if f < .1:
                o["fault"] = dict(kind="line", at=1+int(900*rnd.random()**1.3))
            elif f < .2:
                o["fault"] = dict(kind="draw", at=rnd.randrange(16))
        ops.append(o)
    ops.append(dict(op="call", layer=rnd.randrange(8), seed=rnd.randrange(10**9), batch="true"))
    return dict(cfg=cfg, layers=lay, ops=ops, conv=rnd.randrange(10**6))


def shrink(plan):
    import copy
    if len(plan["layers"]) > 1:
        for j in range(len(plan["layers"])):
            q = copy.deepcopy(plan)
            q["layers"] = [plan["layers"][j]]
            yield q
    yield from shrink_sizes(plan)


class Layer:
    """One of Sionna's channel layers around a model"""

    def __init__(self, d, model):
        from sionna.phy.ofdm import ResourceGrid
        from sionna.phy import channel as ch
        self.d, self.kind = d, d["kind"]
        if "ofdm" in self.kind:
            self.rg = ResourceGrid(num_ofdm_symbols=d["sym"], fft_size=d["fft"], subcarrier_spacing=d["scs"],
                                   cyclic_prefix_length=min(d["cp"], d["fft"]))
            self.T = d["sym"]
            self.fs = 1./float(self.rg.ofdm_symbol_duration)
            self.obj = ch.GenerateOFDMChannel(model, self.rg, normalize_channel=d["norm"]) if self.kind == "gofdm" else \
                ch.OFDMChannel(model, self.rg, normalize_channel=d["norm"], return_channel=True)
        else:
            self.bw = d["scs"]*d["fft"]*(10 if d["wide"] else 1)
            l_tot = d["lmax"]-d["lmin"]+1
            self.T = d["n"]+l_tot-1
            self.fs = self.bw
            self.obj = ch.GenerateTimeChannel(model, self.bw, d["n"], d["lmin"], d["lmax"], normalize_channel=d["norm"]) \
                if self.kind == "gtime" else \
                ch.TimeChannel(model, self.bw, d["n"], l_min=d["lmin"], l_max=d["lmax"], normalize_channel=d["norm"],
                               return_channel=True)

    def call(self, batch, true, ntx, ntxant, seed):
        """-> (response, input, output)"""
        import tensorflow as tf
        d = self.d
        if self.kind in ("gofdm", "gtime"):
            if batch == "none":
                return W.npv(self.obj()), None, None
            b = {"true": true, "other": true+3, "tensor": tf.constant(true)}[batch]
            return W.npv(self.obj(b)), None, None
        g = np.random.Generator(np.random.Philox(seed))
        shape = (true, ntx, ntxant) + ((d["sym"], d["fft"]) if self.kind == "ofdm" else (d["n"],))
        x = (g.normal(size=shape)+1j*g.normal(size=shape)).astype(np.complex64)
        y, h = self.obj(tf.constant(x))
        return W.npv(h), x, W.npv(y)

    def expected(self, a, tau):
        if "ofdm" in self.kind:
            return freq_response(self.d["fft"], self.d["scs"], a, tau, self.d["norm"])
        return taps(self.bw, self.d["lmin"], self.d["lmax"], a, tau, self.d["norm"])

    def received(self, h, x):
        h, x = h.astype(np.complex128), x.astype(np.complex128)
        if self.kind == "ofdm":
            return np.einsum("brantsf,bntsf->brasf", h, x)
        y = np.zeros(h.shape[:3]+(h.shape[5],), np.complex128)
        for l in range(h.shape[6]):
            n = min(x.shape[-1], y.shape[-1]-l)
            y[..., l:l+n] += np.einsum("brants,bnts->bras", h[..., l:l+n, l], x[..., :n])
        return y


def subcarriers(n, spacing):
    return (np.arange(n)-(n//2))*float(spacing)


def freq_response(n, spacing, a, tau, norm, ant=False):
    a, tau = a.astype(np.complex128), tau.astype(np.float64)
    e = np.exp(-2j*np.pi*tau[..., None]*subcarriers(n, spacing))     # [b, rx, tx, m, f] or with antennas
    h = np.einsum("brantms,brantmf->brantsf" if ant else "brantms,brnmf->brantsf", a, e)
    if norm:
        c = np.sqrt(np.mean(np.abs(h)**2, axis=(2, 4, 5, 6), keepdims=True))
        h = np.divide(h, c, out=np.zeros_like(h), where=c > 0)
    return h


def taps(bw, lmin, lmax, a, tau, norm, ant=False):
    a, tau = a.astype(np.complex128), tau.astype(np.float64)
    g = np.sinc(np.arange(lmin, lmax+1)-tau[..., None]*bw)
    h = np.einsum("brantms,brantml->brantsl" if ant else "brantms,brnml->brantsl", a, g)
    if norm:
        c = np.sqrt(np.mean(np.sum(np.abs(h)**2, axis=6, keepdims=True), axis=(2, 4, 5), keepdims=True))
        h = np.divide(h, c, out=np.zeros_like(h), where=c > 0)
    return h


def near(a, b, cls, what, rel=3e-4):
    """Equal within rel of the largest value of the link (fields [b, rx, ant, tx, ...])"""
    a = np.asarray(a)
    if a.shape != b.shape:
        raise Viol(cls, f"{what}: shape {a.shape} instead of {b.shape}")
    ax = tuple(i for i in range(a.ndim) if i not in ((0, 1, 3) if a.ndim > 5 else (0, 1)))
    lim = rel*np.max(np.abs(b), axis=ax, keepdims=True)+1e-30
    ok = np.abs(a-b) <= lim
    if not np.all(ok):
        i = np.unravel_index(np.argmin(ok), ok.shape)
        raise Viol(cls, f"{what}[{','.join(map(str, i))}] is {a[i]} and should be {b[i]} "
                        f"({int((~ok).sum())} of {ok.size} values differ)")


def body(r, plan):
    cfg = plan["cfg"]
    m = W.make_model(cfg)
    eff = Effective(cfg)
    layers = [None if d["late"] else Layer(d, m) for d in plan["layers"]]
    r.sig = [cfg["scn"], cfg["fc"] > 4e9, cfg["direction"], cfg["agl"], [(d["kind"], d["norm"]) for d in plan["layers"]]]
    down = cfg["direction"] == "downlink"
    nant = {k: cfg[k]["rows"]*cfg[k]["cols"]*cfg[k]["prows"]*cfg[k]["pcols"]*(2 if cfg[k]["pol"] == "dual" else 1)
            for k in ("ut", "bs")}
    compared = 0
    last = None
    for op in plan["ops"]:
        if op["op"] == "set":
            do_set(m, eff, op)
            eff.apply(op)
            r.sig.append((op["los"], op["b"], op["u"], len(op["fields"])))
            continue
        if op["op"] in ("env", "doppler"):
            do_env(m, op)
            eff.apply(op)
            r.sig.append(op["op"])
            continue
        if not eff.topo:
            continue
        j = op["layer"] % len(layers)
        if layers[j] is None:
            layers[j] = Layer(plan["layers"][j], m)
        L = layers[j]
        b, u = eff.topo["ut_loc"].shape[:2]
        f = op.get("fault") or {}
        base = W.snapshot(m)
        bomb = LineBomb(f.get("at") if f.get("kind") == "line" else None)
        out = None
        try:
            with bomb, R.use(stream("m", "gen", op["seed"], fail_at=f["at"] if f.get("kind") == "draw" else None)):
                out = L.call(op["batch"], b, 1 if down else u, nant["bs" if down else "ut"], op["seed"])
        except (Exception, Interrupt):
            if not f:
                raise
            r.n("fault."+f["kind"])
        same(base, W.snapshot(m), "generation-writes", f"state of the model before and after a call of the {L.kind} layer")
        r.sig.append((j, op["batch"], f.get("kind"), f.get("at"), bomb.fired))
        if out is None:
            continue
        h, x, y = out
        t = twin_of(eff)
        a, tau = W.cir(t, L.T, L.fs, stream("m", "gen", op["seed"]))
        what = f"{L.kind} layer (T={L.T}, fs={L.fs:g}, announced batch: {op['batch']})"
        rx, tx = (u, 1) if down else (1, u)
        check(a.shape[:5] == (b, rx, nant["ut" if down else "bs"], tx, nant["bs" if down else "ut"])
              and a.shape[6] == L.T and tau.shape == (b, rx, tx, a.shape[5]), "layer-response",
              f"impulse response of shape {a.shape}, delays {tau.shape} for batch {b}, {u} users, {L.T} samples")
        near(h, L.expected(a, tau), "layer-response", "response of the "+what)
        if x is not None:
            near(y, L.received(h, x), "layer-received", "output of the "+what)
        compared += 1
        last = a, tau
        r.n("probe.layer_calls")
        r.n("probe.layer_"+L.kind)
        r.n("sim_s", L.T/L.fs)
        r.dg.add(h)
    if last is not None:
        conversions(r, plan, *last)
    return compared > 0


def conversions(r, plan, a, tau):
    """The package's own conversions on a generated impulse response"""
    import tensorflow as tf
    from sionna.phy.ofdm import ResourceGrid
    from sionna.phy.channel.tr38811 import utils
    import random
    rnd = random.Random(plan["conv"])
    n, scs = W.pick(rnd, (16, 31, 64, 75)), W.pick(rnd, (15e3, 30e3, 120e3))
    norm = rnd.random() < .5
    f = utils.subcarrier_frequencies(n, scs)
    close(W.npv(f), subcarriers(n, scs), "conversion", f"subcarrier frequencies of {n} subcarriers", 1e-6, 1e-3)
    tv, fv = utils.time_frequency_vector(n, 1e-6)
    close(W.npv(tv), subcarriers(n, 1e-6), "conversion", f"time vector of {n} samples", 1e-5, 1e-12)
    close(W.npv(fv), subcarriers(n, 1e6/n), "conversion", f"frequency vector of {n} samples", 1e-5, 1.)
    ant = rnd.random() < .3
    A, T = tf.constant(a), tf.constant(tau)
    tau_ref = tau
    if ant:                                   # delays given per antenna pair
        full = np.broadcast_to(tau[:, :, None, :, None, :], a.shape[:6]).copy()
        full += np.float32(1e-8)*np.arange(a.shape[2], dtype=np.float32)[:, None, None, None]
        tau_ref, T = full, tf.constant(full)
    near(W.npv(utils.cir_to_ofdm_channel(f, A, T, norm)), freq_response(n, scs, a, tau_ref, norm, ant), "conversion",
         f"cir_to_ofdm_channel (normalize={norm})")
    bw = n*scs
    lmin, lmax = (int(v) for v in utils.time_lag_discrete_time_channel(bw, 3e-6))
    want = int(np.ceil(np.float32(3e-6)*np.float32(bw)))+6
    check(lmin == -6 and abs(lmax-want) <= 1, "conversion", f"time lags {lmin}..{lmax} for bandwidth {bw}")
    ht = taps(bw, lmin, lmax, a, tau_ref, norm, ant)
    near(W.npv(utils.cir_to_time_channel(bw, A, T, lmin, lmax, norm)), ht, "conversion",
         f"cir_to_time_channel (normalize={norm})")
    # frequency response of a sampled time-domain response
    cp, sym = rnd.randint(0, 5), rnd.randint(1, 3)
    lmin, lmax = -rnd.randint(0, 5), rnd.randint(0, 9)
    rg = ResourceGrid(num_ofdm_symbols=sym, fft_size=n, subcarrier_spacing=scs, cyclic_prefix_length=cp)
    g = np.random.Generator(np.random.Philox(plan["conv"]))
    shape = (2, 1, 2, 2, 1, sym*(n+cp)+lmax-lmin, lmax-lmin+1)
    h_t = (g.normal(size=shape)+1j*g.normal(size=shape)).astype(np.complex64)
    at = h_t[..., cp:sym*(n+cp):n+cp, :].astype(np.complex128)
    k = np.arange(n)-(n//2)
    want = at @ np.exp(-2j*np.pi*np.outer(np.arange(lmin, lmax+1), k)/n)
    near(W.npv(utils.time_to_ofdm_channel(tf.constant(h_t), rg, lmin)), want, "conversion", "time_to_ofdm_channel", 1e-4)
    r.n("probe.conversions")


run = runner(body)
