"""Convergence to the exact solution: residuals of smooth states against the differential equations, linear waves of
every family against their exact translation, and Riemann problems against the exact self-similar solution."""
from .common import *
from . import resid, rsref
from vp import cfgs

RULE = ("A case is a configuration with (a) a smooth state of up to two Fourier modes per variable, stepped once by a tiny step at two resolutions, (b) a background, wave family, direction, "
        "amplitude and pair of resolutions, run for part of a period, or (c) a left and right state of a Riemann problem. Non-trivial: the rate of change, wave or jump is not zero.")
ASSUMPTIONS = ["smooth states of amplitude about 15% on boxes of 16 to 128 cells per side; mean (L1) errors", "linear waves of amplitude 1e-6 relative on backgrounds without coinciding wave speeds"]

NS = {1: 64, 2: 32, 3: 16}


def resid_case(c, nd, **kw):
    d = dict(c)
    k = dict(L=st.tuples(*[r(0.8, 1.6, 1)] * 3).map(list), s=resid.smooth_strategy(nd, d["gas"], int(d["nscal"])), gamma=st.sampled_from([5 / 3., 1.4, 2.0]), cs=r(0.5, 1.5, 1))
    k.update(kw)
    return st.fixed_dictionaries(k)


def residual(case, c, nd, exe):
    d = dict(c)
    sm = resid.Smooth(case["s"], case["L"], [0.0] * 3, nd, d["gas"], int(d["nscal"]))
    eq = resid.Newton(c, case["gamma"], case["cs"])
    N = [NS[nd] if q < nd else 1 for q in range(3)]
    mk = lambda N: blk(dict(case, N=N, nlim=1, cour=0.1))
    first = d["order"] == "1" or d["flux"] in ("force", "hlle")
    fl = {1: 0.006, 2: 0.008, 3: 0.02}[nd]
    m = resid.converge(exe["x"], mk, sm, eq, N, c, what="smooth state", ratio=0.8 if first else 0.65, floor=3 * fl if first else fl)
    return m > 1e-3, "residual %dd" % nd


def jac(eq, W, n, c):
    """matrix A with dU/dt + A(n) dU/dx = 0 for the conserved variables along direction n, by differencing the flux"""
    nv = len(W)

    def prim(U):
        w = dict(rho=U[0], v=[U[1] / U[0], U[2] / U[0], U[3] / U[0]], r=[], B=None)
        i = 4
        if eq.adi:
            E = U[4]
            i = 5
        if eq.mhd:
            w["B"] = list(U[i:i + 3])
        if eq.adi:
            w["p"] = (eq.gamma - 1) * (E - 0.5 * sum(U[1:4] ** 2) / U[0] - (0.5 * sum(U[i:i + 3] ** 2) if eq.mhd else 0))
        return w
    F = lambda U: sum(n[q] * eq.flux(prim(U), q) for q in range(3))
    A = np.zeros((nv, nv))
    for j in range(nv):
        h = 1e-4 * (1 + abs(W[j]))
        e = np.zeros(nv)
        e[j] = h
        A[:, j] = (8 * (F(W + e) - F(W - e)) - (F(W + 2 * e) - F(W - 2 * e))) / (12 * h)
    return A


def wave(case, c, nd, exe):
    d = dict(c)
    c0 = B.cfg(d["gas"], d["eos"], nscal=0)
    eq = resid.Newton(c0, case["gamma"], case["cs"])
    L = case["L"]
    k = [case["k"][q] if q < nd else 0 for q in range(3)]
    if not any(k):
        k[0] = 1
    kv = np.array([2 * np.pi * k[q] / L[q] for q in range(3)])
    kk = np.sqrt((kv ** 2).sum())
    n = kv / kk
    w = dict(rho=case["rho0"], v=list(case["v0"]), p=case["p0"], B=list(case["B0"]) if eq.mhd else None, r=[])
    U0 = gen.cons(dict(w, rho=np.array(w["rho"]), p=np.array(w["p"]), Bc=[np.array(x) for x in w["B"]] if eq.mhd else None), d["gas"], d["eos"], case["gamma"])
    A = jac(eq, U0, n, c0)
    lam, Rv = np.linalg.eig(A)
    lam = np.real(lam)
    # exclude the divergence mode (n.B perturbed)
    ib = (5 if eq.adi else 4)
    o = np.argsort(lam)
    lam, Rv = lam[o], np.real(Rv[:, o])
    if eq.mhd:
        ok = [j for j in range(len(lam)) if abs(np.dot(n, Rv[ib:ib + 3, j])) < 1e-6 * np.abs(Rv[:, j]).max()]
    else:
        ok = list(range(len(lam)))
    j = ok[case["fam"] % len(ok)]
    gaps = [abs(lam[j] - lam[m]) for m in range(len(lam)) if m != j]
    amax = np.abs(lam).max()
    if not eq.mhd:
        # shear/contact waves all travel with the flow: any combination is fine
        gaps = [g for g in gaps if g > 1e-6 * amax] or [1.0]
    elif min(gaps) < 0.03 * amax:
        return False, "degenerate"
    ev = Rv[:, j]
    cross = eq.mhd
    # amplitude: relative to density-scale
    ev = ev / np.abs(ev).max() * min(U0[0], 1.0)
    amp = 1e-5
    T = case["frac"] * 2 * np.pi / (kk * amax)
    errs = []
    first = d["order"] == "1" or d["flux"] == "force"
    ok2 = lambda a, b: b <= (0.8 if first else 0.5) * a or b < (0.02 if first else 3e-3)
    for lev in (1, 2, 4):
        if lev == 4 and ok2(*errs):
            break
        N = [NS2[nd] * lev if q < nd else 1 for q in range(3)]
        dx = [L[q] / N[q] for q in range(3)]
        off = lambda o_: np.meshgrid(*[(np.arange(N[q]) + o_[q]) * dx[q] if q < nd else np.zeros(1) for q in (2, 1, 0)], indexing="ij")[::-1]
        ph = lambda X, t: sum(kv[q] * X[q] for q in range(3)) - kk * lam[j] * t
        X = off((0.5, 0.5, 0.5))
        U = U0 + amp * np.sin(ph(X, 0))[..., None] * ev
        Bf = None
        if eq.mhd:
            # vector potential of the perturbation: B1 sin(k.x) = curl(A cos(k.x)), A = (k x b)/k^2 ... -> k x A = -b
            b1 = amp * ev[ib:ib + 3]
            Av = np.cross(kv, b1) / kk ** 2
            Ae = []
            for q in range(3):
                o_ = [0.0, 0.0, 0.0]
                o_[q] = 0.5
                Ae.append(Av[q] * np.cos(ph(off(o_), 0)))
            df = lambda a, q: (np.roll(a, -1, axis=2 - q) - a) / dx[q] if q < nd else np.zeros_like(a)
            Bs = [df(Ae[2], 1) - df(Ae[1], 2), df(Ae[0], 2) - df(Ae[2], 0), df(Ae[1], 0) - df(Ae[0], 1)]
            Bf = []
            for q in range(3):
                bb = case["B0"][q] + Bs[q]
                if q == 0 or q < nd:
                    bb = np.concatenate([bb, np.take(bb, [0], axis=2 - q)], axis=2 - q)
                Bf.append(bb)
            bc = gen.cellB(Bf, N)
            for q in range(3):
                U[..., ib + q] = bc[q]
        U = np.concatenate([U] + [np.full(U.shape[:3] + (1,), 0.5) * U[..., :1]] * int(d["nscal"]), -1)
        b = blk(dict(case, N=N, nlim=-1), tlim=T)
        s = ath.final(exe["x"], b, {(0, 0): (U, Bf)})
        need(abs(s.time - T) <= 1e-9 * T, "run stopped at %g, not %g", s.time, T)
        ref = U0 + amp * np.sin(ph(X, T))[..., None] * ev
        dU = (s.U[..., :len(U0)] - ref)
        errs.append(np.abs(dU).reshape(-1, len(U0)).mean(0).sum() / (amp * np.abs(ev).sum()))
    diffusive = d["flux"] in ("hlle", "force") or d["order"] == "1"
    lim = 0.6 if diffusive else 0.08
    need(errs[1] <= lim, "wave family %d (speed %.4g of %.4g), direction %s: mean relative error %.3g at %s", case["fam"] % len(ok), lam[j], amax, k, errs[1], N)
    need(len(errs) == 2 or ok2(*errs[1:]), "wave family %d (speed %.4g of %.4g), direction %s: mean relative error %.3g, %.3g, %.3g at N, 2N, 4N",
         case["fam"] % len(ok), lam[j], amax, k, *errs)
    return True, "wave fam %d of %d %dd" % (case["fam"] % len(ok), len(ok), nd)


NS2 = {1: 32, 2: 16, 3: 12}


def riemann(case, c, exe):
    d = dict(c)
    adi = d["eos"] == "adiabatic"
    ax = case["ax"]
    lab = rsref
    Wl, Wr = [list(case["Wl"]), list(case["Wr"])]
    Wl[3] = Wl[2]
    n = 128
    errs, vals = [], []
    c0 = max(np.sqrt(case["gamma"] * Wl[4] / Wl[0]), np.sqrt(case["gamma"] * Wr[4] / Wr[0])) if adi else case["cs"]
    smax = max(abs(Wl[1]), abs(Wr[1])) + 2.0 * c0
    T = 0.3 / smax
    for lev in (1, 2):
        m = n * lev
        N = [4, 4, 4] if ax else [m, 1, 1]
        if ax:
            N[ax] = m
            if ax == 1:
                N[2] = 1
        else:
            N = [m, 1, 1]
        x = (np.arange(m) + 0.5) / m - 0.5
        shp = [1, 1, 1]
        shp[2 - ax] = m
        sel = lambda i: np.broadcast_to(np.where(x < 0, Wl[i], Wr[i]).reshape(shp), (N[2], N[1], N[0]))
        v = [sel(2), sel(3), sel(2)]
        v[ax] = sel(1)
        w = dict(rho=sel(0), v=v, p=sel(4), r=[np.broadcast_to(np.where(x < 0, 0.2, 0.8).reshape(shp), (N[2], N[1], N[0]))] * int(d["nscal"]))
        U = gen.cons(w, "hydro", d["eos"], case["gamma"])
        bc = [4] * 6
        bc[2 * ax] = bc[2 * ax + 1] = 2
        b = ath.blocks(N, [1.0 if q == ax else 4.0 / m for q in range(3)], bc=bc, tlim=T, nlim=-1, cour=0.4, gamma=case["gamma"], cs=case["cs"], x0=[-0.5 if q == ax else 0.0 for q in range(3)])
        s = ath.final(exe["x"], b, {(0, 0): (U, None)})
        ix = [0, 0, 0]
        ix[2 - ax] = slice(None)
        V = s.U[tuple(ix)]
        try:
            ref = []
            for q in x:
                if adi:
                    (dd, uu, pp, sd), us, _ = rsref.exact_adi(np.array(Wl), np.array(Wr), case["gamma"], q / T)
                    ref.append([dd, uu, pp])
                else:
                    (dd, uu, sd), us, _ = rsref.exact_iso(np.array(Wl), np.array(Wr), case["cs"], q / T)
                    ref.append([dd, uu, 0])
        except rsref.Bad:
            return False, "vacuum"
        ref = np.array(ref)
        rho = V[:, 0]
        u = V[:, 1 + ax] / rho
        got = [rho, u]
        if adi:
            got.append((case["gamma"] - 1) * (V[:, 4] - 0.5 * (V[:, 1:4] ** 2).sum(1) / rho))
        sc = [max(Wl[0], Wr[0], ref[:, 0].max()), max(c0, np.abs(ref[:, 1]).max()), max(Wl[4], Wr[4], ref[:, 2].max())]
        errs.append([np.abs(got[i] - ref[:, i]).mean() / sc[i] for i in range(len(got))])
    for i in range(len(errs[0])):
        lim = 0.06 if d["order"] == "1" or d["flux"] in ("hlle", "force") else 0.03
        need(errs[1][i] <= lim, "Riemann problem along x%d: mean error of %s %.3g", ax + 1, "dvP"[i], errs[1][i])
        need(errs[1][i] <= 0.85 * errs[0][i] or errs[1][i] < 4e-3, "Riemann problem along x%d: mean error of %s %.3g, %.3g at twice the resolution", ax + 1, "dvP"[i], errs[0][i], errs[1][i])
    return max(abs(Wl[i] - Wr[i]) for i in (0, 1, 4)) > 0.05, "riemann x%d" % (ax + 1)


def subs(tier):
    out = []
    cs = cfgs.main(nscal=1) + cfgs.special(nscal=1)
    for i, c in enumerate(cs):
        d = dict(c)
        x = {"x": spec(c, "-O2")}
        for nd in (1, 2, 3):
            lb = "%s-%dd" % (label(c), nd)
            if d["flux"] not in ("exact", "two-shock"):
                out.append(Sub("residual-" + lb, resid_case(c, nd), (lambda case, exe, c=c, nd=nd: residual(case, c, nd, exe)), x, {1: 8, 2: 6, 3: 4}[nd]))
                fam = st.fixed_dictionaries(dict(L=st.tuples(*[r(0.8, 1.6, 1)] * 3).map(list), rho0=r(0.5, 2, 1), p0=r(0.3, 2, 1), v0=st.tuples(*[r(-0.8, 0.8, 1)] * 3).map(list),
                                                 B0=st.tuples(*[r(-1.5, 1.5, 1)] * 3).map(list), k=st.tuples(*[st.integers(-1, 1)] * 3).map(list), fam=st.integers(0, 7), frac=r(0.3, 1, 1),
                                                 gamma=st.sampled_from([5 / 3., 1.4, 2.0]), cs=r(0.5, 1.5, 1), cour=st.sampled_from([0.2, 0.4] if nd > 1 or d["integ"] == "vl" else [0.4, 0.8])))
                out.append(Sub("wave-" + lb, fam, (lambda case, exe, c=c, nd=nd: wave(case, c, nd, exe)), x, {1: 8, 2: 6, 3: 3}[nd]))
        if d["gas"] == "hydro":
            W = st.tuples(r(0.2, 2, 2), r(-0.7, 0.7, 2), r(-0.5, 0.5, 2), st.just(0.0), r(0.2, 2, 2)).map(list)
            e = st.fixed_dictionaries(dict(Wl=W, Wr=W, gamma=st.sampled_from([5 / 3., 1.4]), cs=r(0.5, 1.5, 1), ax=st.integers(0, 2)))
            out.append(Sub("riemann-" + label(c), e, (lambda case, exe, c=c: riemann(case, c, exe)), x, 8))
    return out
