"""Shearing box: rate of change of smooth shear-periodic states against the shearing-box equations (any start time, so any
offset of the radial boundaries), conservation, equilibrium, epicycles, and the sheared ghost zones."""
from .common import *
from . import resid
from .C05 import sane
from vp.build import cfg

RULE = ("A case is a shearing box (size, rotation, shear parameter, start time), a state and a build configuration; smooth shear-periodic states are stepped once at two resolutions, others run for a few steps. "
        "Non-trivial: the state changed, or the radial boundaries are offset.")
ASSUMPTIONS = ["smooth states of amplitude about 15% on boxes of 16 to 64 cells per side, mean (L1) errors; conservation to 1e-11",
               "two-dimensional MHD in the (x,y) plane only with orbital advection; orbital advection not in the (x,z) plane (as the program requires)"]
NS = {2: 32, 3: 16}


class Shear(resid.Smooth):
    """periodic in y and z, shear-periodic in x at the given offset; vk is the background velocity carried by the state"""

    def setup(self, s, vk, iv):
        self.sh, self.vk, self.iv = s, vk, iv

    def f(self, k, x):
        x = [x[0], x[1] + self.sh * x[0], x[2]]
        return resid.Smooth.f(self, k, x)

    def prim(self, x, bare=False):
        w = resid.Smooth.prim(self, x, bare)
        if self.vk:
            w["v"] = list(w["v"])
            w["v"][self.iv] = w["v"][self.iv] + self.vk * x[0]
        return w


def base(case, c, nd):
    d = dict(c)
    xy = nd == 3 or case["xy"]
    return d, "fargo" in d, xy, case["omega"], case["qshear"]


def residual(case, c, nd, exe):
    d, far, xy, om, q = base(case, c, nd)
    L = list(case["L"])
    x0 = [-0.5 * l for l in L]
    t0 = case["t0"] if xy else 0.0
    sm = Shear(case["s"], L, x0, nd, d["gas"], int(d["nscal"]))
    iv = 1 if xy else 2
    # k_x - q Omega t k_y must stay resolved: the offset is taken modulo the box
    s = q * om * t0
    per = L[1] / L[0]
    s0 = s - per * round(s / per) if xy else 0.0
    sm.setup(s0 if xy else 0.0, 0.0 if far else -q * om, iv)
    eq = resid.Newton(c, case["gamma"], case["cs"])
    ib = 5 if eq.adi else 4

    def extra(sm, eq, x):
        w = sm.prim(x)
        U = eq.cons(w)
        out = np.zeros_like(U)
        rho, v = w["rho"], w["v"]
        if far:
            vK = -q * om * x[0]
            out -= vK[..., None] * sm.d(lambda y: eq.cons(sm.prim(y)), x, 1)
            out[..., 1] += 2 * om * rho * v[1]
            out[..., 2] += (q - 2) * om * rho * v[0]
            if eq.adi:
                out[..., 4] += q * om * rho * v[0] * v[1]
            if eq.mhd:
                out[..., ib + 1] += -q * om * w["B"][0]
                if eq.adi:
                    out[..., 4] += -q * om * w["B"][0] * w["B"][1]
        else:
            out[..., 1] += 2 * om * rho * v[iv] + 2 * q * om ** 2 * x[0] * rho
            out[..., 1 + iv] += -2 * om * rho * v[0]
            if eq.adi:
                out[..., 4] += 2 * q * om ** 2 * x[0] * rho * v[0]
        return out
    N = [NS[nd] if k < nd else 1 for k in range(3)]
    mk = lambda N: blk(dict(case, N=N, nlim=1, cour=case.get("co", 0.1)), x0=x0, omega=om, qshear=q, sb_xy=int(xy), time0=t0)
    m = resid.converge(exe["x"], mk, sm, eq, N, c, what="smooth shear-periodic state (offset %.3g of the box)" % (s0 / per), ratio=0.7, floor={2: 0.01, 3: 0.025}[nd], extra=extra)
    return m > 1e-3, "residual %dd%s" % (nd, " offset" if abs(s0) > 1e-3 else "")


def box(case, c, nd, noise=True):
    d, far, xy, om, q = base(case, c, nd)
    N, L, dx, w, U = expand(case, c, 0.4, 0.3, 0.2)
    x0 = [-0.5 * l for l in L]
    if not far:
        x = x0[0] + dx[0] * (np.arange(N[0]) + 0.5)
        w = dict(w, v=list(w["v"]))
        w["v"][1 if xy else 2] = w["v"][1 if xy else 2] - q * om * x[None, None, :]
        U = gen.cons(w, d["gas"], d["eos"], case["gamma"])
    return N, L, dx, x0, w, U, dict(x0=x0, omega=om, qshear=q, sb_xy=int(xy))


def conserve(case, c, nd, exe):
    d, far, xy, om, q = base(case, c, nd)
    N, L, dx, x0, w, U, kw = box(case, c, nd)
    if nd == 2 and xy:
        return False, "fluxes are matched across the radial boundaries in 3D only"
    if case["t0"] and xy:
        case = dict(case, nlim=1)
        kw["time0"] = case["t0"]
    f = ath.final(exe["x"], blk(case, **kw), {(0, 0): (U, w["B"])})
    if not sane(f):
        return False, "blown up"
    n = U[..., 0].size
    sc = scales(U, c, case["gamma"], case["cs"])
    e = (f.U - U).reshape(n, -1).sum(0)[:len(sc)] / n
    tol = 1e-3 if nd == 2 and d["eos"] == "adiabatic" else 1e-11     # in 2D the tidal energy terms are not matched across the boundaries
    need(abs(e[0]) <= tol * sc[0], "total mass changed by %.3e per cell (scale %.3g)", e[0], sc[0])
    iz = 2 if xy else 1
    need(abs(e[1 + iz]) <= tol * sc[1 + iz], "total vertical momentum changed by %.3e per cell (scale %.3g)", e[1 + iz], sc[1 + iz])
    if case["nlim"] == 1 and nd == 3:
        # with the momentum fluxes matched across the radial boundaries the total momentum follows the trapezoidal rule for an epicycle
        dt = f.time      # the start time is only seen by the first step
        x = x0[0] + dx[0] * (np.arange(N[0]) + 0.5)
        tot = lambda V: (V[..., 1].sum() / n, (V[..., 2] + (0 if far else q * om * x[None, None, :]) * V[..., 0]).sum() / n)
        a, b = tot(U), tot(f.U)
        r1 = b[0] - a[0] - om * dt * (a[1] + b[1])
        r2 = b[1] - a[1] + 0.5 * (2 - q) * om * dt * (a[0] + b[0])
        need(abs(r1) <= 1e-11 * sc[1] and abs(r2) <= 1e-11 * sc[2], "total horizontal momentum is off the epicycle step by (%.3e, %.3e) per cell (scale %.3g)", r1, r2, sc[1])
    if d["gas"] == "mhd":
        ib = 5 if d["eos"] == "adiabatic" else 4
        need(abs(e[ib + iz]) <= tol * sc[ib + iz], "net vertical magnetic flux changed by %.3e per cell (scale %.3g)", e[ib + iz], sc[ib + iz])
        need(abs(e[ib]) <= tol * sc[ib], "net radial magnetic flux changed by %.3e per cell (scale %.3g)", e[ib], sc[ib])
        dv = np.abs(gen.divB(f.B, N, dx)).max() * min(dx[:nd])
        bs = max(np.abs(b).max() for b in f.B)
        need(dv <= 1e-11 * max(bs, 1e-3), "divergence of B times cell size is %.3e (field %.3g)", dv, bs)
    ch = np.abs(f.U - U)[..., 1].max() / sc[1]
    return bool(ch > 1e-5), "conserve %dD%s" % (nd, " late start" if case["t0"] else "")


def drift(case, c, nd, exe):
    """a passive tracer and a dynamically negligible field, at rest relative to the background: orbital advection alone moves them"""
    d, far, xy, om, q = base(case, c, nd)
    N, L = list(case["N"]), list(case["L"])
    x0 = [-0.5 * l for l in L]
    dx = [L[i] / N[i] for i in range(3)]
    tiny = 1e-6
    ph = case["ph"]
    k = 2 * np.pi / L[1]
    pat = lambda x, y, z: np.sin(k * y + ph) + 0 * x + 0 * z + (0.5 * np.cos(2 * np.pi * z / L[2] + k * y) if nd == 3 else 0.0)
    ax = [x0[i] + dx[i] * (np.arange(N[i]) + 0.5) for i in range(3)]
    fx = [x0[i] + dx[i] * np.arange(N[i] + 1) for i in range(3)]
    g = lambda x, y, z: (x[None, None, :], y[None, :, None], z[:, None, None])
    one = np.ones((N[2], N[1], N[0]))
    w = dict(rho=one, v=[0 * one] * 3, p=one / case["gamma"], r=[one * (2 + pat(*g(*ax)))], B=None)
    if d["gas"] == "mhd":
        w["B"] = [tiny * pat(*g(fx[0], ax[1], ax[2])), tiny * 0 * pat(*g(ax[0], fx[1], ax[2])),
                  tiny * pat(*g(ax[0], ax[1], fx[2] if nd == 3 else ax[2])) * 0.7]
        if nd == 3:     # keep it divergence-free: no variation of B3 along z
            w["B"][2] = tiny * 0.7 * np.sin(k * ax[1] + ph)[None, :, None] * np.ones((N[2] + 1, N[1], N[0]))
        w["Bc"] = gen.cellB(w["B"], N)
    U = gen.cons(w, d["gas"], d["eos"], case["gamma"])
    f = ath.final(exe["x"], blk(case, x0=x0, omega=om, qshear=q, sb_xy=1), {(0, 0): (U, w["B"])})
    t = f.time
    X, Y, Z = g(*ax)
    y = Y + q * om * X * t
    shift = q * om * 0.5 * L[0] * t / case["nlim"] / dx[1]
    if not 0 < shift <= 2.9:
        return False, "shift not tested"
    tol = 0.007 * case["nlim"] * (1 + shift)
    ns = U.shape[3] - 1
    res = dict(tracer=np.abs(f.U[..., ns] - 2 - pat(X, y, Z)).max())
    if d["gas"] == "mhd":
        ib = 5 if d["eos"] == "adiabatic" else 4
        b1 = pat(X, y, Z)
        res["B3"] = np.abs(f.U[..., ib + 2] / tiny - 0.7 * np.sin(k * y + ph)).max()
        res["B1"] = np.abs(f.U[..., ib] / tiny - b1).max()
        res["B2"] = np.abs(f.U[..., ib + 1] / tiny + q * om * t * b1).max() / max(1, q * om * t)
    for a, b in res.items():
        need(b <= tol, "%s carried by the background alone is off by %.3e of its amplitude after %d steps (up to %.2f cells per step)", a, b, case["nlim"], shift)
    return True, "drift"


def flat(case):
    return dict(case, st=dict(case["st"], **{k: [] for k in case["st"] if k.startswith("f")}))


def epicycle(case, c, nd, exe):
    """uniform density and velocity offset: equilibrium if the offset is zero, else an epicycle"""
    d, far, xy, om, q = base(case, c, nd)
    iv = 1 if xy else 2
    case = flat(case)
    v0 = [0.0, 0.0, 0.0]
    if case["epi"]:
        v0[0], v0[iv] = case["a"]
    v0[2 if xy else 1] = case["vz"]
    B0 = [0.0, 0.0, 0.0]
    B0[2 if xy else 1] = case["bz"]
    case["st"] = dict(case["st"], v0=v0)
    if d["gas"] == "mhd":
        case["st"]["B0"] = B0
    N, L, dx, x0, w, U, kw = box(case, c, nd)
    U0 = U.copy()
    f = ath.final(exe["x"], blk(case, **kw), {(0, 0): (U, w["B"])})
    # with an energy equation the energy and momentum source terms agree to truncation error only
    loose = 1e-3 + 2 * (om * f.time / max(f.nstep, 1)) ** 2 if d["eos"] == "adiabatic" and not far else 0.0
    sc = scales(U, c, case["gamma"], case["cs"])
    x = (x0[0] + dx[0] * (np.arange(N[0]) + 0.5))[None, None, :]
    rho = f.U[..., 0]
    need(np.abs(rho - U0[..., 0]).max() <= (1e-10 + loose) * sc[0], "uniform density changed by %.3e in %s", np.abs(rho - U0[..., 0]).max(), "an epicycle" if case["epi"] else "the equilibrium shear flow")
    v1 = f.U[..., 1] / rho
    v2 = f.U[..., 1 + iv] / rho + (0.0 if far else q * om * x)
    vs = max(sc[1] / sc[0], abs(q * om) * L[0])
    for nm, a in (("x", v1), ("y", v2)):
        need(np.ptp(a) <= (1e-9 + loose) * vs, "uniform perturbation: %s-velocity varies by %.3e over the box", nm, np.ptp(a))
    need(np.abs(f.U[..., 3 if xy else 2] / rho - case["vz"]).max() <= (1e-9 + loose) * vs, "uniform perturbation: vertical velocity changed")
    k2 = 2 * (2 - q) * om ** 2
    k = np.sqrt(k2)
    t = f.time
    a, b = v0[0], v0[iv]
    r1 = a * np.cos(k * t) + 2 * om / k * b * np.sin(k * t)
    r2 = b * np.cos(k * t) - (2 - q) * om / k * a * np.sin(k * t)
    dt = t / max(f.nstep, 1)
    amp = np.hypot(a, 2 * om / k * b)
    tol = (1e-9 + loose) * vs + amp * (0.3 * (k * dt) ** 2 * (k * t) + 1e-9)
    need(abs(v1.mean() - r1) <= tol and abs(v2.mean() - r2) <= tol * max(1, (2 - q) * om / k), "epicycle of frequency %.4g: velocity (%.8g, %.8g) after %.4g, should be (%.8g, %.8g)", k, v1.mean(), v2.mean(), t, r1, r2)
    # the implicit Coriolis terms conserve the epicyclic energy exactly
    E = v1.mean() ** 2 + 4 * om ** 2 / k2 * v2.mean() ** 2
    need(abs(E - amp ** 2) <= (1e-10 + loose) * (amp ** 2 + vs * amp) + 1e-20 * vs ** 2, "epicyclic energy changed from %.15g to %.15g", amp ** 2, E)
    return bool(amp > 1e-3 and k * t > 0.02), "epicycle" if case["epi"] else "equilibrium"


def ghosts(case, c, nd, exe):
    """radial ghost zones: y-shifted images of the far side (sum conserved, within the range of the shifted neighbours)"""
    d, far, xy, om, q = base(case, c, nd)
    N, L, dx, x0, w, U, kw = box(case, c, nd)
    with ath.Scratch() as dd:
        ath.run(exe["x"], blk(case, **kw), {(0, 0): (U, w["B"])}, dd)
        s = ath.states(dd)[0]
    V = s.U
    if not np.isfinite(V).all() or (V[..., 0] <= 0).any():
        return False, "blown up"
    g = s.g
    ny = N[1]
    A = V[g[2]:g[2] + N[2], g[1]:g[1] + ny]
    mhd, adi = d["gas"] == "mhd", d["eos"] == "adiabatic"
    sc = scales(U, c, case["gamma"], case["cs"])
    nv = len(sc)
    ib = 5 if adi else 4
    sh = q * om * L[0] * s.time / dx[1] if xy else 0.0       # in cells
    v0 = 0.0 if far else q * om * L[0]
    ng = g[0]
    # quantities transformed to the frame of the ghost zone; M2 (or M3) and E change with the frame
    for side in (0, 1):
        for n in range(ng):
            gi = n if side == 0 else ng + N[0] + n
            im = gi + N[0] if side == 0 else gi - N[0]
            G, I = A[:, :, gi, :nv].copy(), A[:, :, im, :nv].copy()
            dv = v0 if side == 0 else -v0
            iv = 2 if xy else 3
            if adi:
                I[..., 4] += I[..., iv] * dv + 0.5 * dv ** 2 * I[..., 0] if not far else 0.0
            I[..., iv] += dv * I[..., 0]
            sg = sh if side == 0 else -sh
            m = int(np.floor(sg))
            fr = sg - m
            sc2 = sc.copy()
            sc2[iv] += abs(v0) * sc[0]
            if adi:
                sc2[4] += v0 ** 2 * sc[0]
            lo = np.min([np.roll(I, m + k, 1) for k in ((-2, -1, 0, 1, 2, 3) if d["order"][0] == "3" else (-1, 0, 1, 2))], 0)
            hi = np.max([np.roll(I, m + k, 1) for k in ((-2, -1, 0, 1, 2, 3) if d["order"][0] == "3" else (-1, 0, 1, 2))], 0)
            ex_ = np.roll(I, m + (fr > 0.5), 1)
            for i in range(nv):
                if mhd and adi and i == 4:
                    continue            # the energy of ghost zones follows the separately shifted field
                if mhd and ib <= i < ib + 3 and (i != ib + 2 or nd == 3):
                    continue            # follow from the shifted face fields
                if adi and i == 4 and not far:
                    continue            # the program shifts E and the momentum separately, then changes frame
                if i == iv and not far:
                    pass
                e = np.abs(G[..., i].sum(1) - I[..., i].sum(1)).max() / ny
                need(e <= 1e-11 * sc2[i], "sum over y of %s in a radial ghost zone differs from that of its image by %.3e per cell", ath.names(c)[i], e)
                if xy:
                    o = np.maximum(lo[..., i] - G[..., i], G[..., i] - hi[..., i]).max()
                    if d["order"][0] == "3":     # third order may sharpen extrema slightly
                        o -= 0.25 * (hi - lo)[..., i].max()
                    need(o <= 1e-10 * sc2[i], "radial ghost zone of %s leaves the range of its sheared image by %.3e (offset %.4g cells)", ath.names(c)[i], o, sg)
                else:
                    o = np.abs(G[..., i] - I[..., i]).max()
                    need(o <= 1e-12 * sc2[i], "radial ghost zone of %s differs from its image by %.3e", ath.names(c)[i], o)
    return bool(abs(sh) > 1e-3 or not xy), "ghosts"


def subs(tier):
    out = []
    cs = []
    for gas, eos, o, f, i, far in (("hydro", "isothermal", "2", "hllc", "ctu", 0), ("hydro", "adiabatic", "3", "roe", "ctu", 1), ("hydro", "adiabatic", "2p", "hllc", "vl", 0), ("hydro", "isothermal", "2p", "roe", "vl", 1),
                                   ("hydro", "adiabatic", "2", "roe", "ctu", 0), ("mhd", "isothermal", "2", "hlld", "ctu", 0), ("mhd", "isothermal", "3p", "hlld", "ctu", 1), ("mhd", "adiabatic", "2p", "hlld", "vl", 0),
                                   ("mhd", "adiabatic", "2", "roe", "ctu", 0), ("mhd", "adiabatic", "2", "hlld", "ctu", 1), ("mhd", "isothermal", "2p", "hlld", "vl", 1)):
        k = dict(sb=1)
        if far:
            k["fargo"] = 1
        cs.append(cfg(gas, eos, o, f, i, 1, **k))
    for c in cs:
        d = dict(c)
        far, mhd = "fargo" in d, d["gas"] == "mhd"
        for nd in (2, 3):
            xy = st.just(1) if nd == 3 or far else st.integers(0, 1)
            sb = dict(omega=r(0.3, 1.5, 1), qshear=r(0.5, 1.9, 1), xy=xy, t0=st.one_of(st.just(0.0), r(0.0, 5, 2)))
            lab = "%s-%dd" % (label(c), nd)
            s = st.fixed_dictionaries(dict(L=st.tuples(*[r(0.8, 1.6, 1)] * 3).map(list), s=resid.smooth_strategy(nd, d["gas"], int(d["nscal"])), gamma=st.sampled_from([5 / 3., 1.4]), cs=r(0.5, 1.5, 1), **sb))
            out.append(Sub("residual-" + lab, s, (lambda case, exe, c=c, nd=nd: residual(case, c, nd, exe)), {"x": spec(c, "-O2")}, {2: 12, 3: 6}[nd]))
            if far:             # fast enough for the orbital shift of one step to exceed a whole cell
                s = st.fixed_dictionaries(dict(L=st.just([1.6, 1.6 if nd == 3 else 0.8, 1.6]), s=resid.smooth_strategy(nd, d["gas"], int(d["nscal"])), gamma=st.just(1.4), cs=r(0.8, 1.2, 1), co=st.just(0.4),
                                               **dict(sb, omega=r(2, 4, 1), qshear=r(1.3, 1.9, 1))))
                s2 = st.fixed_dictionaries(dict(N=st.tuples(st.integers(12, 20), st.sampled_from([32, 40, 48]), st.just(8)).map(lambda t, nd=nd: list(t) if nd == 3 else [t[0], t[1], 1]), L=st.tuples(r(1, 2, 1), r(0.5, 1.5, 1), st.just(1.0)).map(list),
                                               gamma=st.just(1.4), cs=st.just(1.0), nlim=st.integers(1, 4), cour=st.sampled_from([0.3, 0.4]), ph=r(0, 6, 2), **dict(sb, omega=r(1, 4, 1), t0=st.just(0.0))))
                out.append(Sub("drift-" + lab, s2, (lambda case, exe, c=c, nd=nd: drift(case, c, nd, exe)), {"x": spec(c, "-O2")}, 16))
                out.append(Sub("shift-" + lab, s, (lambda case, exe, c=c, nd=nd: residual(case, c, nd, exe)), {"x": spec(c, "-O2")}, {2: 12, 3: 6}[nd]))
            b = {"x": spec(c, "-O0")}
            s = evo_case(c, nd, kinds=("mode", "noise"), lo=8 if nd == 2 else 6, cour=st.sampled_from([0.2, 0.3, 0.4]), **sb)
            out.append(Sub("conserve-" + lab, s, (lambda case, exe, c=c, nd=nd: conserve(case, c, nd, exe)), b, 16))
            out.append(Sub("ghosts-" + lab, s, (lambda case, exe, c=c, nd=nd: ghosts(case, c, nd, exe)), b, 12))
            s = evo_case(c, nd, maxn=0, lo=8 if nd == 2 else 6, steps=(2, 12), cour=st.sampled_from([0.1, 0.2, 0.4]), epi=st.sampled_from([0, 1, 1]), a=st.tuples(r(-0.3, 0.3, 2), r(-0.3, 0.3, 2)).map(list), vz=st.sampled_from([0.0, 0.2]), bz=st.sampled_from([0.0, 0.3]), **sb)
            out.append(Sub("epicycle-" + lab, s, (lambda case, exe, c=c, nd=nd: epicycle(case, c, nd, exe)), b, 12))
    from .C05 import feature_subs
    out += feature_subs(("sb",), 6)
    return out
