"""Self-gravity. After initialisation and after every step the potential is compared with an independent solution for the
current density (numpy FFT of the discrete Laplacian; doubled boxes for open and disk boundaries; a sparse direct solve for the
multigrid solver); totals of momentum; and the rate of change of smooth states against the equations with the gravitational force."""
from .common import *
from . import resid, feats, C18, C04
from .C19 import spectral
from .C05 import sane
from vp.build import cfg
from vp.cfgs import label

RULE = ("A case is a generated density field, velocity, (field), box shape and coupling constant, run for a few steps with a record at every "
        "step, or a smooth state stepped once at two resolutions. Non-trivial: the potential energy is more than 1e-3 of the thermal energy and "
        "the density is not uniform.")
ASSUMPTIONS = ["the mean density given to the code is the mean of the initial density (as problem generators set it)",
               "multigrid: the potential after repeated V-cycles on nearly static gas approaches the discrete solution with monopole boundary values",
               "shearing boxes: potential compared with the sheared spectral solution at two resolutions (the density is remapped by interpolation)"]
H = cfg
NS = {1: 64, 2: 32, 3: 16}


def lap(N, dx, nd, pad=(0, 0, 0)):
    """eigenvalues of the discrete Laplacian, array order (k,j,i), on a box doubled along the axes in pad"""
    out = 0.0
    for q in range(nd):
        n = N[q] * (2 if pad[q] else 1)
        e = (2 * np.cos(2 * np.pi * np.fft.fftfreq(n)) - 2) / dx[q] ** 2
        sh = [1, 1, 1]
        sh[2 - q] = n
        out = out + e.reshape(sh)
    return out


def solve(solver, d, dx, nd, fpg, mean):
    N = d.shape[::-1]
    if solver == "fft":
        a = lap(N, dx, nd)
        f = np.fft.fftn(fpg * (d - mean))
        a.flat[0] = 1
        f = f / a
        f.flat[0] = 0
        return np.fft.ifftn(f).real
    if solver == "fft_obc":
        pad = [1 if n > 1 else 0 for n in N]
        z = np.zeros([2 * n if n > 1 else 1 for n in d.shape])
        z[:d.shape[0], :d.shape[1], :d.shape[2]] = fpg * d
        a = lap(N, dx, nd, pad)
        a.flat[0] = 1
        f = np.fft.fftn(z) / a
        f.flat[0] = 0
        return np.fft.ifftn(f).real[:d.shape[0], :d.shape[1], :d.shape[2]]
    if solver == "fft_disk":
        pad = (0, 0, 1)
        z = np.zeros([2 * d.shape[0], d.shape[1], d.shape[2]])
        z[:d.shape[0]] = fpg * d
        a = lap(N, dx, nd, pad)
        a.flat[0] = 1
        kx = 2 * np.pi * np.fft.fftfreq(N[0]) / dx[0]
        ky = 2 * np.pi * np.fft.fftfreq(N[1]) / dx[1]
        K = np.sqrt(kx[None, None, :] ** 2 + ky[None, :, None] ** 2)
        par = (-1.0) ** np.arange(2 * N[2])[:, None, None]
        f = np.fft.fftn(z) * (1 - par * np.exp(-K * N[2] * dx[2])) / a
        f.flat[0] = 0
        return np.fft.ifftn(f).real[:d.shape[0]]
    raise KeyError(solver)


def dirichlet(d, dx, x0, fpg):
    """discrete 3D solution with the monopole potential in the first ghost zone"""
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl
    n3, n2, n1 = d.shape
    G = fpg / (4 * np.pi)
    M = d.sum() * dx[0] * dx[1] * dx[2]
    x = [x0[q] + (np.arange(-1, n + 1) + 0.5) * dx[q] for q, n in enumerate((n1, n2, n3))]
    Z, Y, X = np.meshgrid(x[2], x[1], x[0], indexing="ij")
    bnd = -G * M / np.sqrt(X * X + Y * Y + Z * Z)
    rhs = fpg * d
    rhs = rhs.copy()
    rhs[:, :, 0] -= bnd[1:-1, 1:-1, 0] / dx[0] ** 2
    rhs[:, :, -1] -= bnd[1:-1, 1:-1, -1] / dx[0] ** 2
    rhs[:, 0, :] -= bnd[1:-1, 0, 1:-1] / dx[1] ** 2
    rhs[:, -1, :] -= bnd[1:-1, -1, 1:-1] / dx[1] ** 2
    rhs[0] -= bnd[0, 1:-1, 1:-1] / dx[2] ** 2
    rhs[-1] -= bnd[-1, 1:-1, 1:-1] / dx[2] ** 2
    T = lambda n, h: sp.diags([1.0, -2.0, 1.0], [-1, 0, 1], shape=(n, n)) / h ** 2
    I = sp.identity
    A = sp.kron(sp.kron(T(n3, dx[2]), I(n2)), I(n1)) + sp.kron(sp.kron(I(n3), T(n2, dx[1])), I(n1)) + sp.kron(sp.kron(I(n3), I(n2)), T(n1, dx[0]))
    return sl.spsolve(A.tocsc(), rhs.ravel()).reshape(d.shape)


def potential(case, c, nd, exe, np_=None, grid=None):
    d = dict(c)
    solver = d["grav"]
    N, L, dx, w, U = expand(case, c, 0.5, 0.3, 0.3)
    mean = float(U[..., 0].mean())
    bc = [4] * 6
    if solver == "fft_obc":
        bc = [2] * 6
    if solver == "fft_disk":
        bc = [4, 4, 4, 4, 2, 2]
    b = blk(case, bc, four_pi_G=case["fpg"], mean_rho=mean)
    every_step(b)
    if grid:
        for q in range(3):
            b["domain1"]["NGrid_x%d" % (q + 1)] = grid[q]
    with ath.Scratch() as s:
        ath.run(exe["x"], b, {(0, 0): (U, w["B"])}, s, np_=np_)
        recs = [ath.assemble(rs) for _, rs in outs(s)]
    U0 = recs[0].U
    sc = scales(U, c, case["gamma"], case["cs"])
    for n, rec in enumerate(recs):
        if not sane(rec):
            return False, "blown up"
        R = solve(solver, rec.U[..., 0], dx, nd, case["fpg"], mean)
        scale = np.abs(R).max() + case["fpg"] * mean * min(dx[:nd]) ** 2
        e = rec.Phi - R
        need(np.abs(e).max() <= 1e-9 * scale, "record %d: potential off by %.3e of its scale %.3e from the solution for the current density (worst cell %s)", n, np.abs(e).max() / scale, scale,
             np.unravel_index(np.abs(e).argmax(), e.shape)[::-1])
        if solver == "fft":
            V = U[..., 0].size
            tot, t0 = rec.U.reshape(V, -1).sum(0), U0.reshape(V, -1).sum(0)
            g = np.abs(np.gradient(R, axis=2)).max() / dx[0] * mean
            for q in range(4):
                if q < 1 or q <= nd:
                    tol = 1e-11 * V * (sc[q] + (scale * mean / min(dx[:nd]) * max(rec.time, 1e-300) if q else 0) * 10)
                    need(abs(tot[q] - t0[q]) <= tol, "record %d: total of %s changes by %.3e per cell (scale %.3e) although gravity is internal", n, ath.names(c)[q], (tot[q] - t0[q]) / V, sc[q])
    P = U[..., 0] * np.abs(recs[0].Phi)
    th = case["cs"] ** 2 * U[..., 0] if d["eos"] == "isothermal" else w["p"]
    return bool(P.max() > 1e-3 * np.min(th) and np.ptp(U[..., 0]) > 1e-3 * mean), "%s %dd%s" % (solver, nd, " mpi" if np_ else "")


def multigrid(case, c, exe):
    N, L, dx, w, U = expand(case, c, 0.5, 0.0, 0.0)
    one = lambda x: 0 * x
    adi = dict(c)["eos"] == "adiabatic"
    for q in (1, 2, 3):
        U[..., q] = 0.0
    if adi:
        U[..., 4] = 10.0
    if case["blob"]:
        U[..., 0] = 1e-3
        n = [int(f * m) for f, m in zip(case["blob"], N)]
        U[n[2], n[1], n[0], 0] = 50.0
    x0 = [-0.5 * l for l in L]
    fpg = 1e-9
    b = blk(dict(case, nlim=12, cour=1e-6), [1] * 6, x0=x0, four_pi_G=fpg, mean_rho=0.0)
    f = ath.final(exe["x"], b, {(0, 0): (U, w["B"])}, timeout=120)
    if not sane(f):
        return False, "blown up"
    need(np.abs(f.U[..., 0] - U[..., 0]).max() <= 1e-4 * U[..., 0].max(), "gas at rest moved")
    R = dirichlet(f.U[..., 0], dx, x0, fpg)
    e = np.abs(f.Phi - R).max() / np.abs(R).max()
    need(e <= case.get("tol", 1e-3), "potential after 13 V-cycles is off by %.3e of its maximum", e)
    return True, "multigrid"


def residual(case, c, nd, exe):
    d = dict(c)
    L = case["L"]
    sm = resid.Smooth(case["s"], L, [0.0] * 3, nd, d["gas"], int(d["nscal"]))
    eq = resid.Newton(c, case["gamma"], case["cs"])
    N = [NS[nd] if q < nd else 1 for q in range(3)]
    fpg = case["fpg"]
    big = [0.0]

    def extra(sm, eq, x):
        w = sm.prim(x)
        rho = w["rho"]
        D = spectral(L, x[0].shape)
        k2 = 0.0
        for q in range(nd):
            n = rho.shape[2 - q]
            kk = 2 * np.pi * np.fft.fftfreq(n, 1.0 / n) / L[q]
            sh = [1, 1, 1]
            sh[2 - q] = n
            k2 = k2 + (kk ** 2).reshape(sh)
        k2.flat[0] = 1
        f = -np.fft.fftn(fpg * rho) / k2
        f.flat[0] = 0
        phi = np.fft.ifftn(f).real
        out = np.zeros_like(eq.cons(w))
        for q in range(nd):
            g = -D(phi, q)
            out[..., 1 + q] = rho * g
            if eq.adi:
                out[..., 4] += rho * w["v"][q] * g
        big[0] = np.abs(out[..., 1:4]).max()
        return out
    # the discrete mean differs from the continuous one only by round-off for these fields
    mk = lambda N: blk(dict(case, N=N, nlim=1, cour=0.1), four_pi_G=fpg, mean_rho=float(sm.prim(sm.cells(N))["rho"].mean()))
    resid.converge(exe["x"], mk, sm, eq, N, c, what="smooth self-gravitating state", ratio=0.7, floor={1: 0.006, 2: 0.012, 3: 0.03}[nd], extra=extra)
    return big[0] > 0.1, "residual %dd" % nd


def shear(case, c, nd, exe):
    """the potential of a smooth shear-periodic density, at two resolutions"""
    d = dict(c)
    om, q, t0, L = case["omega"], case["qshear"], case["t0"], list(case["L"])
    x0 = [-0.5 * l for l in L]
    sm = C18.Shear(case["s"], L, x0, nd, d["gas"], int(d["nscal"]))
    s = q * om * t0
    per = L[1] / L[0]
    s0 = s - per * round(s / per)
    far = "fargo" in d
    sm.setup(s0, 0.0 if far else -q * om, 1)
    eq = resid.Newton(c, case["gamma"], case["cs"])
    if np.ptp(sm.prim(sm.cells([NS[nd] if k < nd else 1 for k in range(3)]))["rho"]) < 0.02:
        return False, "uniform"
    errs = []
    for m in (1, 2, 4):
        N = [m * NS[nd] // (2 if nd == 3 else 1) if k < nd else 1 for k in range(3)]
        x, U, Bf = resid.initial(sm, eq, N)
        b = blk(dict(case, N=N, nlim=0, cour=0.1), x0=x0, omega=om, qshear=q, sb_xy=1, time0=t0, four_pi_G=case["fpg"], mean_rho=float(U[..., 0].mean()))
        f = ath.final(exe["x"], b, {(0, 0): (U, Bf)})
        # reference on a periodic grid in the sheared coordinate y' = y + s0 x: density there, potential there, then back
        X = sm.cells([n if k < nd else 1 for k, n in enumerate(N)])
        rho_p = sm.prim([X[0], X[1] - s0 * X[0], X[2]])["rho"]
        kk = [2 * np.pi * np.fft.fftfreq(n, 1.0 / n) / L[k] for k, n in enumerate(N)]
        KX = kk[0][None, None, :] + s0 * kk[1][None, :, None]
        k2 = KX ** 2 + kk[1][None, :, None] ** 2 + kk[2][:, None, None] ** 2
        k2.flat[0] = 1
        h = -np.fft.fftn(case["fpg"] * rho_p) / k2
        h.flat[0] = 0
        # value at (x, y): y' = y + s0 x, a shift of each column
        hy = np.fft.fft(np.fft.ifftn(h).real, axis=1)
        hy = hy * np.exp(1j * kk[1][None, :, None] * (s0 * X[0][:, :1, :]))
        ph = np.fft.ifft(hy, axis=1).real
        errs.append(np.abs(f.Phi - ph).mean() / np.abs(ph).max())
        if m == 2 and (errs[1] <= 0.005 or errs[1] <= 0.45 * errs[0]):
            break
    else:
        need(errs[2] <= 0.005 or errs[2] <= 0.45 * errs[1], "potential in the shearing box at offset %.3g: mean errors %s at doubling resolution do not converge to the solution", s0 / per, ["%.3e" % e for e in errs])
    return abs(s0) > 1e-3, "shearing box %dd" % nd


def subs(tier):
    out = []
    fp = dict(fpg=logr(0.1, 20))
    tab = [(H("hydro", "adiabatic", "2", "roe", "ctu", 1, grav="fft", fft=1), (1, 2, 3)), (H("mhd", "isothermal", "3", "hlld", "ctu", 0, grav="fft", fft=1), (1, 2, 3)),
           (H("mhd", "adiabatic", "2p", "hlld", "vl", 1, grav="fft", fft=1), (1, 2, 3)), (H("hydro", "isothermal", "3p", "hllc", "vl", 0, grav="fft", fft=1), (1, 2, 3)),
           (H("hydro", "adiabatic", "2", "hllc", "ctu", 0, grav="fft_obc", fft=1), (3,)), (H("mhd", "isothermal", "2", "roe", "ctu", 0, grav="fft_disk", fft=1), (3,))]
    for c, nds in tab:
        for nd in nds:
            s = evo_case(c, nd, steps=(0, 4), lo=4, **fp)
            nm = label(c)
            out.append(Sub("potential-%s-%dd" % (nm, nd), s, (lambda case, exe, c=c, nd=nd: potential(case, c, nd, exe)), {"x": spec(c, "-O0")}, 40))
            if dict(c)["grav"] == "fft":
                def rs(c=c, nd=nd):
                    return st.fixed_dictionaries(dict(s=resid.smooth_strategy(nd, dict(c)["gas"], int(dict(c)["nscal"])), L=st.tuples(*[r(0.8, 1.6, 1)] * 3).map(list), gamma=r(1.2, 2.0, 2), cs=r(0.5, 1.5, 1),
                                                      fpg=logr(2, 20), cour=st.just(0.1), bc=st.just([4] * 6)))
                out.append(Sub("residual-%s-%dd" % (nm, nd), rs(), (lambda case, exe, c=c, nd=nd: residual(case, c, nd, exe)), {"x": spec(c, "-O1")}, {1: 12, 2: 8, 3: 4}[nd]))
    # parallel
    for sv in ("fft", "fft_obc", "fft_disk"):
        c = H("hydro", "adiabatic", "2", "hllc", "ctu", 0, grav=sv, fft=1, mpi=1)
        for nd in ((2, 3) if sv == "fft" else (3,)):
            s = st.tuples(evo_case(c, nd, steps=(0, 2), N=st.tuples(*[st.integers(2, 4)] * 3).map(list), **fp), st.sampled_from([[2, 1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 2], [2, 1, 2], [1, 2, 2]]))

            def mp(case, exe, c=c, nd=nd):
                k, g = dict(case[0]), [x if q < nd else 1 for q, x in enumerate(case[1])]
                k["N"] = [4 * n if q < nd else 1 for q, n in enumerate(k["N"])]
                n = g[0] * g[1] * g[2]
                return potential(k, c, nd, exe, n, g) if n > 1 else (False, "one process")
            out.append(Sub("potential-%s-%dd" % (label(c), nd), s.map(list), mp, {"x": spec(c, "-O0")}, 12))
    c = H("hydro", "adiabatic", "2", "hllc", "ctu", 0, grav="multigrid")
    s = evo_case(c, 3, N=st.tuples(*[st.sampled_from([8, 8, 16])] * 3).map(list), blob=st.one_of(st.none(), st.tuples(*[r(0, 0.99, 2)] * 3).map(list)))
    out.append(Sub("multigrid", s, lambda case, exe, c=c: multigrid(case, c, exe), {"x": spec(c, "-O1")}, 10))
    for c, nds in ((H("hydro", "isothermal", "2", "roe", "ctu", 0, sb=1, grav="fft", fft=1), (2, 3)),):
        for nd in nds:
            s = st.fixed_dictionaries(dict(s=resid.smooth_strategy(nd, dict(c)["gas"], 0), L=st.tuples(*[r(0.8, 1.6, 1)] * 3).map(list), gamma=st.just(1.4), cs=r(0.5, 1.5, 1), fpg=logr(1, 10),
                                           omega=r(0.3, 1.5, 1), qshear=r(0.5, 1.9, 1), t0=r(0, 5, 2), bc=st.just([4] * 6), cour=st.just(0.1)))
            out.append(Sub("shear-%s-%dd" % (label(c), nd), s, (lambda case, exe, c=c, nd=nd: shear(case, c, nd, exe)), {"x": spec(c, "-O0")}, 12))
    from .C05 import feature_subs
    out += feature_subs(("grav",), 6)
    return out
