"""Explicit diffusion: rate of change of smooth states against the diffusion equations (spectral derivatives of the analytic
state), conservation and uniform states, no heat flow into temperature maxima, and the evolution of small sinusoidal
perturbations over many steps against the matrix exponential of the linearised equations."""
from .common import *
from . import resid, C27
from .C05 import sane
from vp.build import cfg

RULE = ("A case is a configuration with generated diffusion coefficients and (a) a smooth state stepped once at two resolutions, (b) a rough state run for a few steps, or (c) a background with a small sinusoidal "
        "perturbation run to a given time. Non-trivial: diffusion changes the result by more than the tolerance.")
ASSUMPTIONS = ["Cartesian periodic boxes; viscosity in hydrodynamics only (the anisotropic viscosity source does not compile with MHD)", "anisotropic conduction in two and three dimensions only (one-dimensional runs skip it)",
               "smooth states of amplitude about 15% on boxes of 16 to 128 cells per side; mean (L1) errors"]
NS = {1: 64, 2: 32, 3: 16}
H = cfg
KEYS = dict(visc=["nu_iso"], cond=["kappa_iso", "kappa_aniso"], res=["eta_Ohm", "Q_Hall", "Q_AD"])


def coefs(c, hall=True):
    d = dict(c)
    ks = [k for f in KEYS for k in KEYS[f] if d.get(f)]
    out = {}
    if "nu_iso" in ks:
        out["nu_iso"] = r(0.005, 0.1, 3)
    if "kappa_iso" in ks:
        if d["gas"] == "mhd":
            out["kappa"] = st.sampled_from(["iso", "aniso", "both"])
            out["kappa_aniso"] = r(0.005, 0.1, 3)
        out["kappa_iso"] = r(0.005, 0.1, 3)
    if "eta_Ohm" in ks:
        out["eta"] = st.sampled_from(["ohm", "ad", "ohm+ad", "hall", "all"] if hall else ["ohm", "ad", "ohm+ad"])
        out.update(eta_Ohm=r(0.005, 0.1, 3), Q_Hall=r(0.005, 0.05, 3), Q_AD=r(0.005, 0.1, 3), d_ind=st.sampled_from([0.0, 0.5, 1.0]))
    return st.fixed_dictionaries(out)


def active(k):
    """the coefficients that are switched on, and the problem parameters"""
    k = dict(k)
    m = k.pop("kappa", None)
    if m == "iso":
        k.pop("kappa_aniso", None)
    if m == "aniso":
        k.pop("kappa_iso", None)
    e = k.pop("eta", None)
    if e:
        on = dict(ohm=["eta_Ohm"], ad=["Q_AD"], hall=["eta_Ohm", "Q_Hall"], all=["eta_Ohm", "Q_Hall", "Q_AD"]).get(e, ["eta_Ohm", "Q_AD"])
        for q in ("eta_Ohm", "Q_Hall", "Q_AD"):
            if q not in on:
                k.pop(q)
    return k


def terms(k, eq, w, D, nd):
    """diffusive rate of change of the conserved variables; D(a, axis) differentiates"""
    rho, v, B = w["rho"], w["v"], w["B"]
    n = 4 + (1 if eq.adi else 0) + (3 if eq.mhd else 0) + len(w["r"])
    out = np.zeros(rho.shape + (n,))
    div = lambda F: sum(D(F[q], q) for q in range(nd))
    g = lambda a: [D(a, q) if q < nd else 0.0 * a for q in range(3)]
    if "nu_iso" in k:
        dv = [g(x) for x in v]                       # dv[i][j] = d v_i / d x_j
        dd = sum(dv[i][i] for i in range(3))
        T = [[k["nu_iso"] * rho * (dv[i][j] + dv[j][i] - (2 / 3. * dd if i == j else 0)) for j in range(3)] for i in range(3)]
        for i in range(3):
            out[..., 1 + i] += div(T[i])
        if eq.adi:
            out[..., 4] += div([sum(v[i] * T[i][j] for i in range(3)) for j in range(3)])
    if "kappa_iso" in k or "kappa_aniso" in k:
        dT = g(w["p"] / rho)
        if "kappa_iso" in k:
            out[..., 4] += div([k["kappa_iso"] * rho * x for x in dT])
        if "kappa_aniso" in k and nd > 1:
            b2 = sum(b * b for b in B)
            bd = sum(B[i] * dT[i] for i in range(3)) / b2
            out[..., 4] += div([k["kappa_aniso"] * rho * bd * B[i] for i in range(3)])
    if eq.mhd and ("eta_Ohm" in k or "Q_Hall" in k or "Q_AD" in k):
        dB = [g(b) for b in B]
        J = [dB[2][1] - dB[1][2], dB[0][2] - dB[2][0], dB[1][0] - dB[0][1]]
        X = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        E = [k.get("eta_Ohm", 0.0) * j for j in J]
        if "Q_Hall" in k:
            h = X(J, B)
            E = [E[i] + k["Q_Hall"] * h[i] / rho ** k["d_ind"] for i in range(3)]
        if "Q_AD" in k:
            b2, jb = sum(b * b for b in B), sum(a * b for a, b in zip(J, B))
            E = [E[i] + k["Q_AD"] * (b2 * J[i] - jb * B[i]) / rho ** (1 + k["d_ind"]) for i in range(3)]
        dE = [g(e) for e in E]
        ib = 5 if eq.adi else 4
        for i, (a, b) in enumerate(((1, 2), (2, 0), (0, 1))):
            out[..., ib + i] -= dE[b][a] - dE[a][b]
        if eq.adi:
            out[..., 4] -= div(X(E, B))
    return out


def spectral(L, shape):
    def D(a, q):
        n = a.shape[2 - q]
        kk = 2j * np.pi * np.fft.fftfreq(n, 1.0 / n) / L[q]
        if n % 2 == 0:
            kk[n // 2] = 0
        sh = [1, 1, 1]
        sh[2 - q] = n
        return np.real(np.fft.ifft(np.fft.fft(a, axis=2 - q) * kk.reshape(sh), axis=2 - q))
    return D


def residual(case, c, nd, exe):
    d = dict(c)
    k = active(case["k"])
    sm = resid.Smooth(case["s"], case["L"], [0.0] * 3, nd, d["gas"], int(d["nscal"]))
    eq = resid.Newton(c, case["gamma"], case["cs"])
    big = [0.0]

    if "kappa_aniso" in k:
        w = sm.prim(sm.cells([NS[nd] if q < nd else 1 for q in range(3)]))
        if sum(b * b for b in w["B"]).min() < 0.05:
            return False, "field too weak to have a direction"

    def extra(sm, eq, x):
        t = terms(k, eq, sm.prim(x), spectral(case["L"], x[0].shape), nd)
        big[0] = np.abs(t).max()
        return t
    N = [NS[nd] if q < nd else 1 for q in range(3)]
    mk = lambda N: blk(dict(case, N=N, nlim=1, cour=0.1), **k)
    first = d["order"] == "1" or "kappa_aniso" in k
    fl = {1: 0.01, 2: 0.015, 3: 0.04}[nd]
    resid.converge(exe["x"], mk, sm, eq, N, c, what="smooth state with %s" % k, ratio=0.75 if first else 0.65, floor=2 * fl if first else fl, extra=extra)
    return big[0] > 0.05, "residual %dd %s" % (nd, "+".join(sorted(q for q in k if q != "d_ind")))


def conserve(case, c, nd, exe):
    """rough states: totals; uniform states: nothing happens"""
    d = dict(c)
    k = active(case["k"])
    N, L, dx, w, U = expand(case, c, 0.3, 0.3, 0.3)
    if case["uniform"]:
        one = lambda x: 0 * x + x.flat[0]
        w = dict(w, rho=one(w["rho"]), p=one(w["p"]), v=[one(x) for x in w["v"]], r=[one(x) for x in w["r"]])
        if d["gas"] == "mhd":
            w["B"] = [one(b) for b in w["B"]]
            w["Bc"] = [one(b) for b in w["B"]]
            w["Bc"] = gen.cellB(w["B"], N)
        U = gen.cons(w, d["gas"], d["eos"], case["gamma"])
    f = ath.final(exe["x"], blk(case, **k), {(0, 0): (U, w["B"])})
    if not sane(f):
        return False, "blown up"
    sc = scales(U, c, case["gamma"], case["cs"])
    if case["uniform"]:
        e = np.abs(f.U - U)[..., :len(sc)].reshape(-1, len(sc)).max(0)
        for i in range(len(sc)):
            need(e[i] <= 1e-12 * sc[i] * max(case["nlim"], 1), "uniform state: %s changed by %.3e (scale %.3g)", ath.names(c)[i], e[i], sc[i])
        return True, "uniform %dD" % nd
    n = U[..., 0].size
    e = (f.U - U).reshape(n, -1).sum(0)[:len(sc)] / n
    for i in range(len(sc)):
        need(abs(e[i]) <= 1e-11 * sc[i], "total of %s changed by %.3e per cell (scale %.3g)", ath.names(c)[i], e[i], sc[i])
    if d["gas"] == "mhd":
        dv = np.abs(gen.divB(f.B, N, dx)).max() * min(dx[:nd])
        bs = max(np.abs(b).max() for b in f.B)
        need(dv <= 1e-11 * max(bs, 1e-3), "divergence of B times cell size is %.3e (field %.3g)", dv, bs)
    return bool(np.abs(f.U - U).max() > 1e-4), "conserve %dD %s" % (nd, "+".join(sorted(q for q in k if q != "d_ind")))


def downhill(case, c, nd, exe):
    """one tiny step with and without conduction: heat leaves the hottest cell and its kind, enters the coldest"""
    d = dict(c)
    k = active(case["k"])
    if nd == 1 and "kappa_iso" not in k:
        return False, "1D anisotropic"
    N, L, dx, w, U = expand(dict(case, nlim=1), c, 0.6, 0.2, 0.3)
    k0 = {q: (1e-14 if q.startswith("kappa") else k[q]) for q in k}
    R = []
    for kk in (k, k0):
        b = blk(dict(case, nlim=1, cour=1e-4), **kk)
        s = ath.final(exe["x"], b, {(0, 0): (U, w["B"])})
        R.append((s.U - U)[..., 4] / s.time)
    Q = R[0] - R[1]
    T = w["p"] / w["rho"]
    hi = np.ones(T.shape, bool)
    lo = np.ones(T.shape, bool)
    for q in range(nd):
        for s in (1, -1):
            hi &= T > np.roll(T, s, axis=2 - q)
            lo &= T < np.roll(T, s, axis=2 - q)
    sc = np.abs(Q).max()
    if sc < 1e-6:
        return False, "no heat flow"
    need(not hi.any() or Q[hi].max() <= 2e-3 * sc, "heat flows into a local temperature maximum at rate %.3e (largest rate %.3e)", Q[hi].max() if hi.any() else 0, sc)
    need(not lo.any() or Q[lo].min() >= -2e-3 * sc, "heat flows out of a local temperature minimum at rate %.3e (largest rate %.3e)", Q[lo].min() if lo.any() else 0, sc)
    return bool(hi.any() or lo.any()), "downhill %dD" % nd


def decay(case, c, nd, exe):
    """many steps at the full time step: a small perturbation follows exp(M t)"""
    from scipy.linalg import expm
    d = dict(c)
    k = active(case["k"])
    eq = resid.Newton(c, case["gamma"], case["cs"])
    L = case["L"]
    m = [case["m"][q] if q < nd else 0 for q in range(3)]
    if not any(m):
        m[0] = 1
    kv = np.array([2 * np.pi * m[q] / L[q] for q in range(3)])
    kk = np.sqrt((kv ** 2).sum())
    n = kv / kk
    mhd, adi = eq.mhd, eq.adi
    B0 = np.array(case["B0"]) if mhd else None
    if "kappa_aniso" in k and (B0 ** 2).sum() < 0.05:
        return False, "field too weak to have a direction"
    one = lambda x: np.array(float(x))
    W0 = dict(rho=one(case["rho0"]), p=one(case["p0"]), v=[one(x) for x in case["v0"]], B=[one(x) for x in B0] if mhd else None, r=[])
    U0 = np.array(eq.cons(W0))
    nv = len(U0)
    A = C27.jac(eq, U0, n, c)
    # linearised diffusion: rates of a perturbation exp(i k x) by finite differences of the closed-form rate
    ib = 5 if adi else 4

    def prim(U):
        w = dict(rho=U[..., 0], v=[U[..., 1 + i] / U[..., 0] for i in range(3)], r=[], B=[U[..., ib + i] for i in range(3)] if mhd else None)
        if adi:
            w["p"] = (eq.gamma - 1) * (U[..., 4] - 0.5 * sum(U[..., 1 + i] ** 2 for i in range(3)) / U[..., 0] - (0.5 * sum(U[..., ib + i] ** 2 for i in range(3)) if mhd else 0))
        return w
    Mx = -1j * kk * A.astype(complex)
    NN = 16
    D = spectral(L, None)
    g = np.meshgrid(*[np.arange(NN) / NN * L[q] if q < nd else np.zeros(1) for q in (2, 1, 0)], indexing="ij")[::-1]
    ph = sum(kv[q] * g[q] for q in range(3))
    h = 1e-5
    for j in range(nv):
        e = np.zeros(nv)
        e[j] = h
        Up = U0 + np.cos(ph)[..., None] * e
        Um = U0 - np.cos(ph)[..., None] * e
        R = (terms(k, eq, prim(Up), D, nd) - terms(k, eq, prim(Um), D, nd)) / (2 * h)
        Mx[:, j] += 2 * np.mean(R * np.exp(-1j * ph)[..., None], axis=(0, 1, 2))
    # perturbation amplitudes (field perturbation perpendicular to k)
    a = np.array([complex(*z) for z in case["amp"]][:nv])
    a[0] *= case["rho0"]
    if mhd:
        b = a[ib:ib + 3]
        a[ib:ib + 3] = b - n * (n * b).sum()
    a *= 1e-4
    if np.abs(a).max() < 1e-5:
        return False, "no perturbation"
    lam = np.linalg.eigvals(Mx)
    rate = max(-np.real(lam).min(), 1e-9)
    osc = np.abs(np.imag(lam)).max()
    T = min(case["tau"] / rate, 0.5 * 2 * np.pi / max(osc, 1e-9))
    aT = expm(Mx * T) @ a
    aI = expm(-1j * kk * A * T) @ a                # without diffusion
    errs = []
    for lev in (1, 2, 4):
        if lev == 4 and (errs[1] <= 0.6 * errs[0] or errs[1] < 0.02):
            break
        N = [ND[nd] * lev if q < nd else 1 for q in range(3)]
        dx = [L[q] / N[q] for q in range(3)]
        off = lambda o: np.meshgrid(*[(np.arange(N[q]) + o[q]) * dx[q] if q < nd else np.zeros(1) for q in (2, 1, 0)], indexing="ij")[::-1]
        phs = lambda o: sum(kv[q] * X for q, X in enumerate(off(o)))
        wav = lambda z, o: np.real(z * np.exp(1j * phs(o)))
        ctr = (0.5, 0.5, 0.5)
        Bf = None
        U = U0 + np.stack([wav(z, ctr) for z in a], -1)
        if mhd:
            Av = 1j * np.cross(kv, a[ib:ib + 3]) / kk ** 2
            Ae = [wav(Av[q], [0.5 if p == q else 0.0 for p in range(3)]) for q in range(3)]
            df = lambda a_, q: (np.roll(a_, -1, axis=2 - q) - a_) / dx[q] if q < nd else np.zeros_like(a_)
            Bs = [df(Ae[2], 1) - df(Ae[1], 2), df(Ae[0], 2) - df(Ae[2], 0), df(Ae[1], 0) - df(Ae[0], 1)]
            Bf = []
            for q in range(3):
                f_ = B0[q] + Bs[q]
                if q < nd:
                    f_ = np.concatenate([f_, np.take(f_, [0], axis=2 - q)], axis=2 - q)
                Bf.append(f_)
            Bc = gen.cellB(Bf, N)
            w = prim(U)
            w["Bc"] = Bc
            for q in range(3):
                if adi:
                    U[..., 4] += 0.5 * (Bc[q] ** 2 - U[..., ib + q] ** 2)
                U[..., ib + q] = Bc[q]
        U = np.concatenate([U] + [0.5 * U[..., :1]] * int(d["nscal"]), -1)
        b = blk(dict(case, N=N, nlim=-1, cour=case["cour"]), **k)
        b["time"]["tlim"] = T
        b["time"]["nlim"] = -1
        s = ath.final(exe["x"], b, {(0, 0): (U, Bf)})
        need(abs(s.time - T) <= 1e-9 * T, "stopped at %.9g, not at the time limit %.9g", s.time, T)
        ex = U0 + np.stack([wav(z, ctr) for z in aT], -1)
        errs.append(np.abs(s.U[..., :nv] - ex).mean() / np.abs(aT).mean())
    steps_ = s.nstep
    sig = np.abs(aT - aI).mean() / np.abs(aT).mean()
    need(errs[-1] <= 0.6 * errs[-2] or errs[-1] < 0.02, "perturbation after t=%.4g (%d steps): relative errors %s at N=%s, doubled each time; does not converge to the linearised equations with %s",
         T, steps_, ["%.4f" % e for e in errs], ND[nd], k)
    return bool(sig > 0.05), "decay %dD %s" % (nd, "+".join(sorted(q for q in k if q != "d_ind")))


ND = {1: 32, 2: 16, 3: 8}


def resid_case(c, nd):
    return C27.resid_case(c, nd, k=coefs(c, "sts" not in dict(c)))


def noise_case(c, nd, lo=6, **kw):
    return evo_case(c, nd, lo=lo, steps=(1, 5), k=coefs(c), **kw)


def decay_case(c, nd):
    d = dict(c)
    z = st.tuples(r(-1, 1, 1), r(-1, 1, 1)).map(list)
    return st.fixed_dictionaries(dict(L=st.tuples(*[r(0.8, 1.6, 1)] * 3).map(list), gamma=st.sampled_from([5 / 3., 1.4]), cs=r(0.5, 1.5, 1), rho0=r(0.5, 2, 1), p0=r(0.5, 2, 1), cour=st.just(0.4),
                                      v0=st.tuples(*[r(-0.5, 0.5, 1)] * 3).map(list), B0=st.tuples(*[r(-1, 1, 1)] * 3).map(list), m=st.tuples(*[st.integers(-1, 1)] * 3).map(list), amp=st.lists(z, min_size=8, max_size=8),
                                      tau=r(0.5, 1.5, 1), k=coefs(c, hall="sts" not in d)))


def confs(tier):
    t = [("visc-cond", H("hydro", "adiabatic", "2", "hllc", "ctu", 1, visc=1, cond=1)), ("visc-iso", H("hydro", "isothermal", "3p", "roe", "vl", 0, visc=1)),
         ("cond-mhd", H("mhd", "adiabatic", "2", "hlld", "ctu", 0, cond=1)), ("res", H("mhd", "adiabatic", "2p", "hlld", "vl", 0, res=1)), ("res-iso", H("mhd", "isothermal", "3", "roe", "ctu", 1, res=1)),
         ("sts-mhd", H("mhd", "adiabatic", "2", "hlld", "ctu", 0, res=1, cond=1, sts=1)), ("sts-hydro", H("hydro", "adiabatic", "2p", "hllc", "vl", 0, visc=1, cond=1, sts=1))]
    if tier != "quick":
        t += [("cond-vl", H("mhd", "adiabatic", "2p", "roe", "vl", 1, cond=1)), ("sts-res-iso", H("mhd", "isothermal", "2", "hlld", "vl" if 0 else "ctu", 0, res=1, sts=1)), ("res-cond", H("mhd", "adiabatic", "3", "hlld", "ctu", 2, res=1, cond=1))]
    return t


def subs(tier):
    out = []
    for nm, c in confs(tier):
        d = dict(c)
        bl = {"x": spec(c, "-O2")}
        for nd in (1, 2, 3):
            bind = lambda f, c=c, nd=nd: (lambda case, exe: f(case, c, nd, exe))
            if not ("sts" in d and nd == 3):
                out.append(Sub("resid-%s-%dd" % (nm, nd), resid_case(c, nd), bind(residual), bl, {1: 12, 2: 10, 3: 6}[nd], {1: 200, 2: 100, 3: 40}[nd]))
            out.append(Sub("cons-%s-%dd" % (nm, nd), noise_case(c, nd, uniform=st.sampled_from([False, False, True])), bind(conserve), bl, 6, 200))
            if d.get("cond") and "sts" not in d and nm != "res-cond":
                out.append(Sub("down-%s-%dd" % (nm, nd), noise_case(c, nd), bind(downhill), bl, 6, 200))
            if nd < 3 or tier != "quick":
                out.append(Sub("decay-%s-%dd" % (nm, nd), decay_case(c, nd), bind(decay), bl, {1: 8, 2: 5, 3: 2}[nd], {1: 100, 2: 50, 3: 15}[nd]))
    from .C05 import feature_subs
    out += feature_subs(("visc", "cond", "res"), 6)
    return out
