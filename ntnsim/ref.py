"""Reference model: the geometry, tables, losses and channel coefficients a model
must have, recomputed in double precision from the topology and the published
tables, independently of TensorFlow and of the code under test."""
import json
import math
import os

import numpy as np

C0 = 299792458.0
RE = 6371000.0
GM = 6.6743e-11*5.972e24
HERE = os.path.dirname(os.path.abspath(__file__))
_tables = None


def tables():
    global _tables
    if _tables is None:
        with open(os.path.join(HERE, "..", "ref", "tables.json")) as f:
            _tables = json.load(f)
    return _tables


def table(cfg, los):
    name = {"dur": "Dense_Urban", "urb": "Urban", "sur": "Sub_Urban"}[cfg["scn"]]
    band = "S" if cfg["fc"] <= 4e9 else "Ka"
    d = "UL" if cfg["direction"] == "uplink" else "DL"
    return tables()[f"{name}_{'LOS' if los else 'NLOS'}_{band}_band_{d}.json"]


def angles(cfg):
    """Admissible table angles (ties: either neighbour)"""
    e = cfg["elev"]/10.0
    lo, hi = math.floor(e), math.ceil(e)
    if abs(e-lo-0.5) < 1e-9:
        return [lo*10, hi*10]
    return [int(round(e))*10]


def angle(cfg):
    return angles(cfg)[0]


def tval(cfg, name, los):
    t = table(cfg, los)
    v = t[name] if name in ("CPhiNLoS", "CThetaNLoS") else t[f"{name}_{angle(cfg)}"]
    return float(v)


def param(cfg, name, los):
    """Value of a table parameter for each link"""
    return np.where(los, tval(cfg, name, True), tval(cfg, name, False))


def nclusters(cfg):
    return int(tval(cfg, "numClusters", True)), int(tval(cfg, "numClusters", False))


# ---------------------------------------------------------------- geometry
def geometry(topo, cfg):
    ut = topo["ut_loc"].astype(np.float64)
    bs = topo["bs_loc"].astype(np.float64)
    b, u = ut.shape[:2]
    d = ut[:, None] - bs[:, :, None]
    d2 = np.sqrt(d[..., 0]**2+d[..., 1]**2)
    h = bs[:, :, 2][:, :, None]
    se = math.sin(math.radians(cfg["elev"]))
    d3 = np.sqrt(RE**2*se**2+h**2+2*h*RE)-RE*se
    d3 = np.broadcast_to(d3, d2.shape)
    aod = np.degrees(np.arctan2(d[..., 1], d[..., 0]))
    zod = np.degrees(np.arctan2(d2, d[..., 2]))
    dd = ut[:, None, :, :2]-ut[:, :, None, :2]
    return dict(distance_2d=d2, distance_3d=d3,
                los_aod=aod % 360, los_aoa=(aod+180) % 360,
                los_zod=zod % 360, los_zoa=(zod-180) % 360,
                matrix_ut_distance_2d=np.sqrt((dd**2).sum(-1)))


# ---------------------------------------------------------------- losses
def gas_db(cfg, env):
    """ITU-R P.676-5, annex 2, zenith attenuation / sin(elevation)"""
    T, p, rho = env["temperature"], env["atmospheric_pressure"], env["water_vapor_density"]
    f = cfg["fc"]/1e9
    e = math.exp
    rt, rp = 288/T, p/1013
    n1 = 0.955*rp*rt**0.68+0.006*rho
    n2 = 0.735*rp*rt**0.5+0.0353*rt**4*rho

    def g(fi):
        return 1+((f-fi)/(f+fi))**2
    yw = (3.98*n1*e(2.23*(1-rt))/((f-22.235)**2+9.42*n1**2)*g(22)
          + 11.96*n1*e(0.7*(1-rt))/((f-183.31)**2+11.14*n1**2)
          + 0.081*n1*e(6.44*(1-rt))/((f-321.226)**2+6.29*n1**2)
          + 3.66*n1*e(1.6*(1-rt))/((f-325.153)**2+9.22*n1**2)
          + 25.37*n1*e(1.09*(1-rt))/(f-380)**2
          + 17.4*n1*e(1.46*(1-rt))/(f-448)**2
          + 844.6*n1*e(0.17*(1-rt))/(f-557)**2*g(557)
          + 290*n1*e(0.41*(1-rt))/(f-752)**2*g(752)
          + 83328*n2*e(0.99*(1-rt))/(f-1780)**2*g(1780))*f**2*rt**2.5*rho*1e-4
    s = 1.013/(1+e(-8.1*(rp-0.57)))
    hw = 1.66*(1+1.39*s/((f-22.235)**2+2.56*s)+3.37*s/((f-183.31)**2+4.69*s)
               + 1.5*s/((f-325.1)**2+2.89*s))

    def phi(a, b, c, d):
        return rp**a*rt**b*e(c*(1-rp)+d*(1-rt))
    x1 = phi(0.0717, -1.8132, 0.0156, -1.6515)
    x2 = phi(0.5146, -4.6368, -0.1921, -5.7416)
    x3 = phi(0.3414, -6.5851, 0.2130, -8.5854)
    yo = (7.2*rt**2.8/(f**2+0.34*rp**2*rt**1.6)
          + 0.62*x3/((54-f)**(1.16*x1)+0.83*x2))*f**2*rp**2*1e-3
    t1 = 4.64/(1+0.066*rp**-2.3)*e(-((f-59.7)/(2.87+12.4*e(-7.9*rp)))**2)
    t2 = 0.14*e(2.12*rp)/((f-118.75)**2+0.031*e(2.2*rp))
    t3 = 0.0114/(1+0.14*rp**-2.6)*f*(-0.0247+0.0001*f+1.61e-6*f**2)\
        / (1-0.0169*f+4.1e-5*f**2+3.2e-7*f**3)
    ho = 6.1/(1+0.17*rp**-1.1)*(1+t1+t2+t3)
    return abs((yo*ho+yw*hw)/math.sin(math.radians(cfg["elev"])))


def scint_db(cfg, env):
    """Ionospheric scintillation below 6 GHz (TR 38.811 6.6.6.1), tropospheric
    scintillation above (ITU-R P.618)"""
    f = cfg["fc"]/1e9
    if f < 6:
        return 1.1*(f/4)**-1.5/math.sqrt(2)
    tc = env["temperature"]-273
    es = 6.1121*math.exp(17.502*tc/(tc+240.97))
    nwet = 3732*env["relative_humidity"]*es/(tc+273)**2
    ref = 3.6e-3+nwet*1e-4
    s = math.sin(math.radians(cfg["elev"]))
    L = 2000/math.sqrt(s**2+2.35e-4+s)
    x = 1.22*env["antenna_efficiency"]*env["diameter_earth_antenna"]**2*f/L
    g2 = 3.86*(x*x+1)**(11/12)*math.sin(11/6*math.atan(1/x))-7.08*x**(5/6)
    sx = ref*f**(7/12)*math.sqrt(max(g2, 0))/s**1.2
    lp = math.log10(0.01)
    return abs((-0.061*lp**3+0.072*lp**2-1.71*lp+3.0)*sx)


def fspl_db(cfg, d3):
    return 32.45+20*np.log10(cfg["fc"]/1e9)+20*np.log10(d3)


def losses(topo, cfg, env, los):
    d3 = geometry(topo, cfg)["distance_3d"]
    f = fspl_db(cfg, d3)
    one = np.ones_like(f)
    return dict(free_space_pathloss=f,
                basic_pathloss=np.where(los, f, f+tval(cfg, "CL", False)),
                gas_pathloss=gas_db(cfg, env)*one,
                scintillation_pathloss=scint_db(cfg, env)*one,
                entry_pathloss=0*one)


def total_loss(topo, cfg, env, los):
    l = losses(topo, cfg, env, los)
    return (l["basic_pathloss"]+l["gas_pathloss"]+l["scintillation_pathloss"]
            + l["entry_pathloss"])


# ---------------------------------------------------------------- LSPs
LSPN = ("DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD")
PAIRS = [("ASD", "DS"), ("ASA", "DS"), ("ASA", "SF"), ("ASD", "SF"), ("DS", "SF"),
         ("ASD", "ASA"), ("ASD", "K"), ("ASA", "K"), ("DS", "K"), ("SF", "K"),
         ("ZSD", "SF"), ("ZSA", "SF"), ("ZSD", "K"), ("ZSA", "K"), ("ZSD", "DS"),
         ("ZSA", "DS"), ("ZSD", "ASD"), ("ZSA", "ASD"), ("ZSD", "ASA"),
         ("ZSA", "ASA"), ("ZSD", "ZSA")]


def lsp_mean_std(cfg, los):
    mean, std = [], []
    for n in LSPN:
        k = 10.0 if n in ("SF", "K") else 1.0
        mean.append(np.zeros(los.shape) if n == "SF" else param(cfg, "mu"+n, los)/k)
        std.append(param(cfg, "sigma"+n, los)/k)
    return np.stack(mean, -1), np.stack(std, -1)


def cross_corr(cfg, los):
    """7x7 correlation matrix of a link (los: bool)"""
    m = np.eye(7)
    for a, b in PAIRS:
        v = tval(cfg, f"corr{a}vs{b}", los)
        i, j = LSPN.index(a), LSPN.index(b)
        m[i, j] = m[j, i] = v
    return m


def spatial_corr(cfg, los, dist):
    """[7, U, U] for one batch example. los [U], dist [U, U]"""
    out = []
    for n in LSPN:
        d = param(cfg, "corrDist"+n, los)
        with np.errstate(divide="ignore", invalid="ignore"):
            e = np.exp(-dist/d[:, None])
        e = np.where(los[:, None] == los[None, :], e, 0.0)
        np.fill_diagonal(e, 1.0)
        out.append(e)
    return np.stack(out)


# ---------------------------------------------------------------- arrays
def element_gain(pat, th, ph):
    if pat == "omni":
        return np.ones_like(th)
    if pat == "38.901":
        w = math.radians(65)
        av = -np.minimum(12*((th-np.pi/2)/w)**2, 30)
        ah = -np.minimum(12*(ph/w)**2, 30)
        return 10**((-np.minimum(-(av+ah), 30)+8)/10)
    if pat == "aperture":
        # TR 38.811 6.4.1: circular aperture of radius 10 wavelengths, towards the horizon along x
        from scipy.special import j1
        r = np.arccos(np.clip(np.sin(th)*np.cos(ph), -1, 1))
        x = 20*np.pi*np.sin(r)
        with np.errstate(invalid="ignore", divide="ignore"):
            g = np.where(r == 0, 1.0, 4*np.abs(j1(x)/x)**2)
        return np.where(r > np.pi/2, 0.0, g)
    if pat == "dlp":
        # R1-1802551, table 2: no element gain, 90 degrees, 25 dB
        av = -np.minimum(12*((np.degrees(th)-90)/90)**2, 25)
        ah = -np.minimum(12*(np.degrees(ph)/90)**2, 25)
        return 10**(-np.minimum(-(av+ah), 25)/10)
    raise ValueError(pat)


def array_elements(a, fc):
    """positions [N,3] in m and slant angle [N] of each antenna, in output order"""
    lam = C0/fc
    slants = {("single", "V"): [0.], ("single", "H"): [np.pi/2],
              ("dual", "VH"): [0., np.pi/2],
              ("dual", "cross"): [-np.pi/4, np.pi/4]}[(a["pol"], a["type"])]
    ev, eh = a.get("esp") or (0.5, 0.5)
    pv, ph = ((a["prows"]-1)*ev+0.5, (a["pcols"]-1)*eh+0.5) if a.get("how") == "default" else \
        (ev*a["prows"]+0.7, eh*a["pcols"]+0.9)
    pos, sl = [], []
    for pc in range(a["cols"]):
        for pr in range(a["rows"]):
            for s in slants:
                for c in range(a["pcols"]):
                    for r in range(a["prows"]):
                        pos.append([0., c*eh+pc*ph, -r*ev-pr*pv])
                        sl.append(s)
    pos = np.array(pos)
    pos -= (pos.max(0)+pos.min(0))/2
    return pos*lam, np.array(sl)


def rot(o):
    """7.1-4"""
    a, b, c = o
    ca, sa, cb, sb, cc, sc = (math.cos(a), math.sin(a), math.cos(b), math.sin(b),
                              math.cos(c), math.sin(c))
    return np.array([[ca*cb, ca*sb*sc-sa*cc, ca*sb*cc+sa*sc],
                     [sa*cb, sa*sb*sc+ca*cc, sa*sb*cc-ca*sc],
                     [-sb, cb*sc, cb*cc]])


def sph(th, ph):
    return np.stack([np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), np.cos(th)], -1)


def e_theta(th, ph):
    return np.stack([np.cos(th)*np.cos(ph), np.cos(th)*np.sin(ph), -np.sin(th)], -1)


def e_phi(th, ph):
    return np.stack([-np.sin(ph), np.cos(ph), np.zeros_like(ph)], -1)


def fields(arr, orient, th, ph):
    """Global (theta, phi) field components of each antenna element.
    th/ph [...]; returns [..., N, 2]. The local field vector is rotated into the
    global frame and projected on the global unit vectors."""
    M = rot(orient)
    pos, sl = arr[1]
    d = sph(th, ph) @ M                 # M^T d
    zl = np.clip(d[..., 2], -1, 1)
    thl, phl = np.arccos(zl), np.arctan2(d[..., 1], d[..., 0])
    A = np.sqrt(element_gain(arr[0]["pat"], thl, phl))
    vt = e_theta(thl, phl) @ M.T
    vp = e_phi(thl, phl) @ M.T
    et, ep = e_theta(th, ph), e_phi(th, ph)
    ft_t, ft_p = (vt*et).sum(-1), (vt*ep).sum(-1)
    fp_t, fp_p = (vp*et).sum(-1), (vp*ep).sum(-1)
    c, s = np.cos(sl), np.sin(sl)
    F_t = A[..., None]*(ft_t[..., None]*c+fp_t[..., None]*s)
    F_p = A[..., None]*(ft_p[..., None]*c+fp_p[..., None]*s)
    return np.stack([F_t, F_p], -1)


def steering(arr, orient, th, ph, lam):
    pos = arr[1][0] @ rot(orient).T
    return np.exp(2j*np.pi/lam*(sph(th, ph) @ pos.T))


def faraday(fc):
    psi = math.radians(108.0/(fc/1e9)**2)
    return np.array([[math.cos(psi), -math.sin(psi)], [math.sin(psi), math.cos(psi)]])


SUB = ([0, 1, 2, 3, 4, 5, 6, 7, 18, 19], [8, 9, 10, 11, 16, 17], [12, 13, 14, 15])


def ray_cir(cfg, lam, ta, ra, to, ro, vel, sat, t, aod, zod, aoa, zoa, H):
    """Response of rays [...] with polarization matrices H [..., 2, 2].
    Returns [..., nrx, ntx, T]"""
    Ft = fields(ta, to, zod, aod)
    Fr = fields(ra, ro, zoa, aoa)
    g = np.einsum("...rp,...pq,...tq->...rt", Fr, H, Ft)
    st = steering(ta, to, zod, aod, lam)
    sr = steering(ra, ro, zoa, aoa, lam)
    g = g*sr[..., :, None]*st[..., None, :]
    r = sph(zoa, aoa) if cfg["direction"] == "downlink" else sph(zod, aod)
    f = (r @ vel)/lam + (sat/lam if cfg["doppler"] else 0.0)
    return g[..., None]*np.exp(2j*np.pi*f[..., None]*t)[..., None, None, :]


def link_cir(cfg, topo, geo, los, rays, lsp, phi, sat, t, b, u):
    """Paths of the link satellite <-> UT `u` in batch example `b`, before path loss
    and shadow fading. Returns (delays [P], NLoS part [P,rx,tx,T] already scaled,
    LoS part [rx,tx,T] without its absolute phase or None)."""
    fc = cfg["fc"]
    lam = C0/fc
    ua = (cfg["ut"], array_elements(cfg["ut"], fc))
    ba = (cfg["bs"], array_elements(cfg["bs"], fc))
    uo = topo["ut_orientations"][b, u].astype(np.float64)
    bo = topo["bs_orientations"][b, 0].astype(np.float64)
    vel = topo["ut_velocities"][b, u].astype(np.float64)
    R = {k: rays[k][b, 0, u].astype(np.float64) for k in rays}
    K = float(lsp["lsp.k_factor"][b, 0, u])
    down = cfg["direction"] == "downlink"
    if down:
        ta, ra, to, ro = ba, ua, bo, uo
        aod, zod, aoa, zoa = R["aod"], R["zod"], R["aoa"], R["zoa"]
        ph = phi[b, 0, u].astype(np.float64)
    else:
        ta, ra, to, ro = ua, ba, uo, bo
        aod, zod, aoa, zoa = R["aoa"], R["zoa"], R["aod"], R["zod"]
        ph = phi[b, u, 0].astype(np.float64)
    s = np.sqrt(1/R["xpr"])
    H = np.empty(s.shape+(2, 2), complex)
    H[..., 0, 0] = np.exp(1j*ph[..., 0])
    H[..., 0, 1] = s*np.exp(1j*ph[..., 1])
    H[..., 1, 0] = s*np.exp(1j*ph[..., 2])
    H[..., 1, 1] = np.exp(1j*ph[..., 3])
    Fa = faraday(fc)
    H = H @ Fa
    h = ray_cir(cfg, lam, ta, ra, to, ro, vel, sat[b], t, aod, zod, aoa, zoa, H)
    P, D = R["powers"], R["delays"]
    n = P.shape[0]
    h = h*np.sqrt(P/h.shape[1])[:, None, None, None, None]
    order = np.argsort(-P, kind="stable")
    cds = tval(cfg, "cDS", bool(los[b, 0, u]))*1e-9
    paths, delays = [], []
    for i, sub in enumerate(SUB):
        for k in order[:2]:
            paths.append(h[k][sub].sum(0))
            delays.append(D[k]+(0., 1.28, 2.56)[i]*cds)
    for k in order[2:]:
        paths.append(h[k].sum(0))
        delays.append(D[k])
    delays = np.array(delays)
    paths = np.array(paths)
    o = np.argsort(delays, kind="stable")
    delays, paths = delays[o], paths[o]
    if not los[b, 0, u]:
        return delays, paths, None
    paths = paths*math.sqrt(1/(K+1))
    g = {k: np.radians(geo[k][b, 0, u]) for k in ("los_aod", "los_aoa", "los_zod", "los_zoa")}
    a4 = (g["los_aod"], g["los_zod"], g["los_aoa"], g["los_zoa"])
    if not down:
        a4 = (a4[2], a4[3], a4[0], a4[1])
    HL = np.array([[1., 0.], [0., -1.]]) @ Fa
    l = ray_cir(cfg, lam, ta, ra, to, ro, vel, sat[b], t,
                *[np.array(x) for x in a4], HL.astype(complex))
    return delays, paths, l*math.sqrt(K/(K+1))
