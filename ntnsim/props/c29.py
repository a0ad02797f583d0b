"""C29: everything of a model has and keeps the precision the model was built with."""
import numpy as np

from .common import *  # noqa: F401,F403
from .common import init, runner, R, W, F  # noqa: F401
from ..trace import LineBomb, Interrupt

RUNS = (90, 1500)
RULE = ("distinct = (configurations and precisions of the models, interleaved history of their operations, of drops and of "
        "changes of the default precision); non-trivial = both precisions occurred and the default changed at least once")
MEASURE = "distinct interleaved histories"
REAL = [REAL_TF]
STUB = [STUB_RNG+" (some generations with the real, seeded generators)"]
ASSUMES = ["topologies are given in the precision of the model, arrays are built with the precision of the model"]

REAL_T = {"single": np.float32, "double": np.float64}
CPLX_T = {"single": np.complex64, "double": np.complex128}
PRECS = ("single", "double")


def drop_args(rnd):
    """Arguments of drops that make all of their draws matter"""
    how = {}
    if rnd.random() < .8:
        how.update(min_ut_velocity=rnd.choice((0., 1.5)), max_ut_velocity=rnd.choice((3., 80.)))
    if rnd.random() < .4:
        how.update(min_ut_height=rnd.choice((0., 1.5)), max_ut_height=rnd.choice((20., 3.1)))
    if rnd.random() < .3:
        how.update(isd=rnd.choice((100., 2345.6)))
    return how


def plan(rnd, i, tier):
    models, ops = [], []
    n = rnd.randint(1, 2 if tier == "quick" else 3)
    for k in range(n):
        c = W.gen_cfg(rnd, patterns=W.ANY_PATTERN, prec=W.pick(rnd, (None, "single", "double", "double")))
        h = [gen_set_op(rnd, True)]
        h[0].update(b=rnd.randint(1, 3), u=rnd.randint(1, 3))
        for _ in range(rnd.randint(1, 3 if tier == "quick" else 7)):
            m = rnd.random()
            if m < .25:
                h.append(dict(gen_set_op(rnd, False, (h[0]["b"], h[0]["u"])), b=h[0]["b"], u=h[0]["u"]))
            elif m < .4:
                h.append(dict(op="env", env=W.gen_env(rnd)))
            elif m < .55:
                h.append(dict(op="drop", seed=rnd.randrange(10**9), given=W.pick(rnd, (None, "own")), how=drop_args(rnd)))
            else:
                g = gen_gen_op(rnd)
                g.update(T=min(g["T"], 5), how=W.pick(rnd, ("stream", "stream", "stream", "real", "graph")))
                h.append(g)
        h.append(dict(gen_gen_op(rnd), T=2, how="stream"))
        for o in h:
            if o["op"] == "set":
                o["kind"] = W.pick(rnd, ("spread", "wide"))
        models.append(dict(cfg=c, ops=h))
    order = [k for k, m in enumerate(models) for _ in range(len(m["ops"])+1)]
    rnd.shuffle(order)
    for k in order:
        if rnd.random() < .4:
            ops.append(dict(op="default", prec=W.pick(rnd, PRECS)))
        ops.append(dict(op="step", k=k))
        if rnd.random() < .08:
            ops.append(dict(op="free_drop", prec=W.pick(rnd, (None,)+PRECS), seed=rnd.randrange(10**9),
                            scn=W.pick(rnd, W.SCN), elev=W.gen_elev(rnd), how=drop_args(rnd)))
        if rnd.random() < .08:
            ops.append(dict(op="cut", cfg=W.gen_cfg(rnd, prec=W.pick(rnd, (None,)+PRECS)), at=rnd.randint(1, 130)))
    return dict(models=models, ops=ops)


def shrink(plan):
    import copy
    for i in range(len(plan["models"])):
        for k, v in (("ut", W.SIMPLE), ("bs", W.SIMPLE), ("doppler", False), ("agl", False), ("sf", False), ("pl", False)):
            if plan["models"][i]["cfg"][k] != v:
                q = copy.deepcopy(plan)
                q["models"][i]["cfg"][k] = v
                yield q


def default(p=None):
    from sionna.phy import config
    if p is not None:
        config.precision = p
    return config.precision


def types(d, p, what, deep=False):
    for k, v in d.items():
        if isinstance(v, (np.ndarray, np.generic)) and v.dtype.kind in "fc":
            want = REAL_T[p] if v.dtype.kind == "f" else CPLX_T[p]
            check(v.dtype == want, "precision", lambda: f"{k} {what} is {v.dtype} in {p} precision")
            if deep and p == "double":
                x = np.unique(v)
                x = x[np.isfinite(x) & (x != 0) & (np.abs(x) != 1)]
                y = x.astype(np.complex64 if v.dtype.kind == "c" else np.float32)
                check(len(x) < 8 or not np.all(x == y), "accuracy", lambda: f"{k} {what} holds {len(x)} values of single precision only")


class Actor:
    """A model, its history and, for the same history, what it did"""

    def __init__(self, spec, name, prec, coarse=False):
        self.coarse = coarse
        self.cfg, self.ops, self.name = spec["cfg"], list(spec["ops"]), name
        self.m = W.make_model(self.cfg)
        self.p = prec
        self.eff = Effective(self.cfg)
        self.seen = []
        self.rec = None

    def set(self, kw, los, seed):
        import tensorflow as tf
        kw = {k: tf.constant(v.astype(REAL_T[self.p]) if v.dtype.kind == "f" else v) for k, v in kw.items()}
        if los is not None:
            kw["los"] = los
        with R.use(stream(self.name, "set", seed, coarse=self.coarse)):
            self.m.set_topology(**kw)

    def drop(self, op):
        """Users from the drop generator. The drop is in the precision of the model, by argument or by default"""
        from sionna.phy.channel.tr38811 import utils
        kw = dict(op["how"])
        if op["given"] or default() != self.p:
            kw["precision"] = self.p
        b, u = self.ops[0]["b"], self.ops[0]["u"]
        with R.use(stream(self.name, "drop", op["seed"], coarse=self.coarse)):
            t = utils.gen_single_sector_topology(b, u, self.cfg["scn"], elevation_angle=self.cfg["elev"],
                                                 bs_height=600000., **kw)
        t = dict(zip(W.FIELDS_OUT, [W.npv(x) for x in t]))
        types(t, self.p, "of a drop")
        finite(t)
        self.set(t, None, op["seed"])
        self.eff.topo = t

    def step(self, k):
        import tensorflow as tf
        op = self.ops[k]
        out = {}
        if op["op"] == "set":
            f = self.eff.fields_of(op)
            self.set(f, op["los"], op["seed"])
            self.eff.apply(op)
        elif op["op"] == "env":
            do_env(self.m, op)
            self.eff.apply(op)
        elif op["op"] == "drop":
            self.drop(op)
        elif op["how"] == "stream":
            self.rec = W.Rec(self.m)
            a, tau = do_gen(self.m, op, self.name, coarse=self.coarse)
            self.rec.close()
            out = dict(a=a, tau=tau)
            if self.rec.calls:
                out.update({"rays."+n: v for n, v in self.rec.calls[-1]["rays"].items()})
                out.update(self.rec.calls[-1]["lsp"])
        elif op["how"] == "real":
            tf.random.set_seed(op["seed"] % 2**31)
            a, tau = W.cir(self.m, op["T"], op["fs"])
            types(dict(a=a, tau=tau), self.p, "with the real random generators")
            finite(dict(a=a, tau=tau))
            if op["seed"] % 3 == 0:
                self.m.set_topology(ut_loc=tf.identity(self.m._scenario.ut_loc))
                # the large-scale parameters were drawn anew: the same again for everybody
                self.set(self.eff.topo, None, op["seed"])
        else:
            s = stream(self.name, "graph", op["seed"], stateless=True)
            with R.use(s):
                a, tau = tf.function(lambda: self.m(op["T"], op["fs"]))()
            out = dict(a=W.npv(a), tau=W.npv(tau))
        st = W.snapshot(self.m)
        for n in ("ut_array", "bs_array"):
            pos = W.npv(getattr(self.m._scenario, n).ant_pos)
            types({"ant_pos": pos}, self.p, f"of the {n}", True)
            if self.p == "double":
                want, lam = F.array_elements(self.cfg[n[:2]], self.cfg["fc"])[0], F.C0/self.cfg["fc"]
                close(pos/lam, want/lam, "accuracy", f"antenna positions of the {n} [wavelengths]", 0, 1e-9)
        types(st, self.p, f"after {op['op']}")
        types(out, self.p, "of a generation")
        finite(out)
        self.seen.append((st, out))
        return st, out


W.FIELDS_OUT = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state")


def accurate(x, st):
    """The state of a double precision model against the reference, to double accuracy"""
    cfg = x.cfg
    topo = {k: v.astype(np.float64) if v.dtype.kind == "f" else v for k, v in x.eff.topo.items()}
    g = F.geometry(topo, cfg)
    for k in ("distance_2d", "distance_3d", "matrix_ut_distance_2d"):
        close(st[k], g[k], "accuracy", k, 1e-9, 1e-6)
    for k in ("los_aod", "los_aoa", "los_zod", "los_zoa"):
        close(st[k], g[k], "accuracy", k, 0, 1e-8, mod=360)
    los = st["los"]
    for k, v in F.losses(topo, cfg, x.eff.env, los).items():
        close(st[k], v, "accuracy", k, 1e-6, 1e-7)
    mean, std = F.lsp_mean_std(cfg, los)
    close(st["lsp_log_mean"], mean, "accuracy", "lsp_log_mean", 1e-6, 1e-7)
    close(st["lsp_log_std"], std, "accuracy", "lsp_log_std", 1e-6, 1e-7)
    return g, topo


def superposed(r, x, op, st, out, g, topo):
    """The channel of a double precision model against the reference, phases of the LoS paths included"""
    from .c21 import ties
    if not x.rec.cir or not x.rec.calls:
        return
    c, ray = x.rec.cir[-1], x.rec.calls[-1]
    t = np.arange(op["T"])/op["fs"]
    los = st["los"]
    PL = F.total_loss(topo, x.cfg, x.eff.env, los)
    types(dict(times=c["t"]), x.p, "inside a generation")
    types(dict(phases=c["phi"], h=c["h"]), x.p, "inside a generation", True)
    types(ray["rays"], x.p, "of the rays", True)
    types(ray["lsp"], x.p, "of the large-scale parameters", True)
    types(out, x.p, "of a generation", True)
    act = active(x.cfg, los)
    close((ray["rays"]["powers"]*act).sum(-1), np.ones(los.shape), "accuracy", "sum of the cluster powers", 0, 1e-12)
    down = x.cfg["direction"] == "downlink"
    a, tau = out["a"], out["tau"]
    for b in range(los.shape[0]):
        for u in range(los.shape[2]):
            d, p, L = F.link_cir(x.cfg, topo, g, los, ray["rays"], ray["lsp"], c["phi"], c["sat"], t, b, u)
            A = a[b, u, :, 0] if down else a[b, 0, :, u]
            D = tau[b, u, 0] if down else tau[b, 0, u]
            q = 10**(-PL[b, 0, u]/20) if x.cfg["pl"] else 1.0
            if x.cfg["sf"]:
                q *= np.sqrt(float(ray["lsp"]["lsp.sf"][b, 0, u]))
            A = np.moveaxis(A, 2, 0)/q
            n = len(d)
            ps = [p]
            if L is not None:
                # the sign of the LoS phase is a convention
                w = np.exp(2j*np.pi*float(st["distance_3d"][b, 0, u])*x.cfg["fc"]/F.C0)
                ps = [np.concatenate([p[:1]+L*v, p[1:]]) for v in (w, np.conj(w))]
            if ties(ray["rays"], d, b, u, n):
                r.n("probe.ties")
                continue
            close(D[:n], d, "accuracy", "path delays", 1e-8, 1e-18)
            sc = np.sqrt((np.abs(A)**2).sum(0).max())
            e = min(np.abs(A[:n]-v).max() for v in ps)/max(sc, 1e-300)
            check(e < 1e-5, "accuracy", lambda: f"link of user {u} in example {b} ({'LoS' if L is not None else 'NLoS'}): coefficients "
                  f"differ from the superposition of the rays by {e:.1e} of the strongest, in double precision")
            r.n("probe.double_links")


LOOSE = {"lsp.ds": (.03, 0), "lsp.asd": (.03, 1e-2), "lsp.asa": (.03, 1e-2), "lsp.zsa": (.03, 1e-2), "lsp.zsd": (.03, 1e-2),
         "lsp.sf": (.03, 0), "lsp.k_factor": (.03, 1e-6), "rays.powers": (.1, 2e-3), "rays.xpr": (.03, 0)}


def agree(r, x, y):
    """Both precisions: the same model up to rounding"""
    for k, ((s1, o1), (s2, o2)) in enumerate(zip(x.seen, y.seen)):
        if not np.array_equal(s1["los"], s2["los"]):
            r.n("probe.los_at_the_threshold")
            return
        for n in ("distance_3d", "los_aod", "los_zod", "lsp_log_mean", "lsp_log_std", "basic_pathloss", "gas_pathloss",
                  "scintillation_pathloss"):
            close(s1[n].astype(float), s2[n].astype(float), "precision-dependent", f"{n} after operation {k}", 1e-4, 2e-3)
        if "rays.powers" not in o1 or "rays.powers" not in o2:
            continue
        bad = {}
        for n, (rt, at) in LOOSE.items():
            u, v = o1[n].astype(float), o2[n].astype(float)
            check(u.shape == v.shape, "precision-dependent", f"{n}: {u.shape} and {v.shape}")
            e = ~(np.abs(u-v) <= at+rt*np.abs(v))
            e = e.reshape(e.shape[:3]+(-1,)).mean(-1) > .15
            if e.any():
                bad[n] = int(e.sum())
        # a tie decided otherwise affects single links
        m = max(bad.values(), default=0)
        check(m <= 1 or m <= .2*s1["los"].size, "precision-dependent",
              lambda: f"single and double precision differ beyond rounding in {bad} of {s1['los'].size} links (operation {k})")
        r.n("probe.compared_generations")


def body(r, plan):
    from sionna.phy.channel.tr38811 import utils
    old = default()
    try:
        default("single")
        actors = {}
        at = {}
        defaults = set()
        for op in plan["ops"]:
            if op["op"] == "default":
                default(op["prec"])
                defaults.add(op["prec"])
                r.n("fault.default_changed")
                continue
            p = (op.get("prec") or op.get("cfg", {}).get("prec")) or default()
            if op["op"] == "free_drop":
                ts = []
                for coarse in (False, True):
                    with R.use(stream("free", op["seed"], coarse=coarse and p == "double")):
                        t = utils.gen_single_sector_topology(3, 4, op["scn"], elevation_angle=op["elev"], bs_height=600000.,
                                                             **op["how"], **({} if op["prec"] is None else {"precision": op["prec"]}))
                    t = dict(zip(W.FIELDS_OUT, [W.npv(v) for v in t]))
                    types(t, p, "of a drop")
                    finite(t)
                    ts.append(t)
                same(ts[0], ts[1], "accuracy", "drop with and without a rounding error of single precision draws")
                for k in ("ut_loc", "ut_velocities"):
                    types({k: ts[0][k][..., :2]}, p, "of a drop", True)
                conversions(op["prec"], p)
                r.n("probe.drops")
                continue
            if op["op"] == "cut":
                try:
                    with LineBomb(op["at"]):
                        W.make_model(op["cfg"])
                except Interrupt:
                    r.n("fault.interrupted_construction")
                check(default() == p or op["cfg"].get("prec"), "default-changed", "a construction changed the default precision")
                continue
            k = op["k"]
            if k >= len(plan["models"]):
                continue
            spec = plan["models"][k]
            if k not in actors:
                p = spec["cfg"].get("prec") or default()
                before = default()
                actors[k] = Actor(spec, f"m{k}", p)
                at[k] = 0
                check(default() == before, "default-changed", "a construction changed the default precision")
                check(actors[k].m._scenario.precision == p, "precision", f"a model built as {p} is {actors[k].m._scenario.precision}")
                continue
            x = actors[k]
            if at[k] >= len(x.ops):
                continue
            o = x.ops[at[k]]
            before = default()
            st, out = x.step(at[k])
            check(default() == before, "default-changed", f"{o['op']} changed the default precision")
            at[k] += 1
            r.sig.append((k, x.p, x.cfg["scn"], o["op"], o.get("how"), default()))
            r.dg.add(st, out)
            if x.p == "double":
                g, topo = accurate(x, st)
                if o["op"] == "gen" and o["how"] == "stream":
                    superposed(r, x, o, st, out, g, topo)
        precs = {x.p for x in actors.values()}
        for k, x in actors.items():
            # alone, with a default that never changes: the same bits; in the other precision: the same up to rounding
            default(x.p)
            spec = plan["models"][k]
            # what a double precision model draws in single precision (random orders) must not enter its values
            y = Actor(spec, x.name, x.p, coarse=x.p == "double")
            other = "double" if x.p == "single" else "single"
            default(other)
            z = Actor(dict(spec, cfg=dict(spec["cfg"], prec=other)), x.name, other)
            for j in range(at[k]):
                default(x.p)
                y.step(j)
                default(other)
                z.step(j)
            rounded = ", or with and without a rounding error of single precision draws" if y.coarse else ""
            for j, ((s1, o1), (s2, o2)) in enumerate(zip(x.seen, y.seen)):
                same(s1, s2, "default-dependent", f"state after operation {j} with a changing and with a constant default precision{rounded}")
                same(o1, o2, "default-dependent", f"result of operation {j} with a changing and with a constant default precision{rounded}")
            agree(r, x, z)
            precs.add(other)
        return len(defaults) > 0 and len(precs) == 2
    finally:
        default(old)


def conversions(given, p):
    """The package's functions with a precision argument"""
    from sionna.phy.channel.tr38811 import utils
    kw = {} if given is None else {"precision": given}
    t, f = utils.time_frequency_vector(64, 1e-6, **kw)
    out = dict(subcarriers=utils.subcarrier_frequencies(64, 15e3, **kw), t=t, f=f,
               corr=utils.exp_corr_mat(.4, 3, **kw), ring=utils.one_ring_corr_mat(30., 3, **kw))
    types({k: W.npv(v) for k, v in out.items()}, p, "of a conversion function")
    close(W.npv(out["subcarriers"]).astype(float), np.arange(-32, 32)*15e3, "conversion", "subcarrier frequencies", 1e-6, 1e-3)


run = runner(body)
