"""A table of physics features; each yields a generated, ready-to-run problem. Shared by the restart,
decomposition, sanitizer and output checks."""
from .common import *
from . import smrgen


def F(strat, make, c, nds, mpi=True, name=None, tol=0):
    f = type("Feat", (), {})()
    f.strategy, f.make, f.c, f.nds, f.mpi, f.name, f.tol = strat, make, c, nds, mpi, name or label(c), tol
    return f


# -- plain gas -----------------------------------------------------------------
def plain(c, bcs=True, nds=(1, 2, 3), lo=None, extra=None, setup=None, name=None, mpi=True, **kw):
    def strat(nd):
        e = dict(bc=bc_strategy(nd)) if bcs else {}
        e.update(extra(nd) if extra else {})
        return evo_case(c, nd, lo=lo, **dict(kw, **e))

    def make(case):
        N, L, dx, w, U = expand(case, c)
        b = blk(case, bc=case.get("bc", (4,) * 6))
        par = setup(case, b, U, w, dx) if setup else None
        return b, {(0, 0): (U, w["B"])}, par
    return F(strat, make, c, nds, mpi, name)


def potential(case, b, U, w, dx):
    b["problem"].update(pot_kind=1, pamp=case["pamp"], g1=case["g"][0], g2=case["g"][1], g3=case["g"][2],
                        **{"pk%d" % (d + 1): 2 * np.pi * case["pk"][d] / case["L"][d] if case["N"][d] > 1 else 0.0 for d in range(3)})


def pot_extra(nd):
    return dict(pamp=r(-0.5, 0.5, 2), g=st.tuples(*[r(-1, 1, 1)] * 3).map(list), pk=st.tuples(*[st.integers(0, 2)] * 3).map(list))


def diff_extra(keys):
    return lambda nd: {k: logr(3e-3, 1e-1) for k in keys}


def diff_setup(keys):
    def f(case, b, U, w, dx):
        for k in keys:
            b["problem"][k] = case[k]
    return f


def grav_setup(case, b, U, w, dx):
    b["problem"].update(four_pi_G=case["fpg"], mean_rho=float(U[..., 0].mean()))


def par_setup(case, b, U, w, dx):
    par_block(b, 2, case["interp"], case["tsmode"], 2)
    ty = [(case["ts"][0], case["mass"], 1.0, case["pint"][0]), (case["ts"][1], 0.5 * case["mass"], 0.7, case["pint"][1])]
    return par_file(case["pp"], ty, case["N"], case["L"])


def par_extra(nd):
    return dict(interp=st.integers(1, 3), tsmode=st.integers(1, 3), ts=st.tuples(logr(0.05, 5), logr(0.05, 5)).map(list), mass=logr(1e-3, 1e-1),
                pint=st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), pp=par_strategy(16, 2, 1.0))


# -- shearing box --------------------------------------------------------------
def shear(c, nds=(2, 3), name=None, extra=None, setup=None):
    d = dict(c)

    def strat(nd):
        k = dict(omega=r(0.3, 1.5, 1), qshear=r(0.5, 1.9, 1), sbv=st.integers(0, 1), **(extra(nd) if extra else {}))
        if nd == 2 and d["gas"] == "hydro":
            k["xy"] = st.integers(0, 1)
        elif nd == 2:
            k["xy"] = st.just(0 if "fargo" not in d else 1)
        else:
            k["xy"] = st.just(1)
        if "fargo" in d:
            k["xy"] = st.just(1)
        return evo_case(c, nd, kinds=("mode", "noise"), lo=8 if nd == 2 else 6, cour=st.sampled_from([0.2, 0.3, 0.4]), **k)

    def make(case):
        N, L, dx, w, U = expand(case, c, 0.4, 0.3, 0.2)
        x0 = [-0.5 * L[0], -0.5 * L[1], -0.5 * L[2]]
        b = blk(case, x0=x0, omega=case["omega"], qshear=case["qshear"], sb_vert=case["sbv"] if N[2] > 1 and 0 else 0, sb_xy=case["xy"])
        if "fargo" not in d:
            x = x0[0] + dx[0] * (np.arange(N[0]) + 0.5)
            w = dict(w, v=list(w["v"]))
            q = 1 if case["xy"] or N[2] > 1 else 2
            w["v"][q] = w["v"][q] - case["qshear"] * case["omega"] * x[None, None, :]
            U = gen.cons(w, d["gas"], d["eos"], case["gamma"])
        par = setup(case, b, U, w, dx) if setup else None
        return b, {(0, 0): (U, w["B"])}, par
    return F(strat, make, c, nds, True, name)


# -- cylindrical ---------------------------------------------------------------
def faceB_cyl(s, N, x0, L, camp=0.3, wall=False):
    """divergence-free in cylindrical coordinates: r*B_r, B_phi, r*B_z built from edge potentials"""
    dx = [L[i] / N[i] for i in range(3)]
    Z = lambda off, k: field0(s, k, N, off)
    def field0(s, k, N, off):
        return camp * gen.field(s[k], N, off) if k in s else np.zeros((N[2], N[1], N[0]))
    ri = x0[0] + dx[0] * np.arange(N[0] + 1)
    rc = 0.5 * (ri[1:] + ri[:-1])
    h = min(dx[d] for d in range(3) if N[d] > 1)
    A1 = field0(s, "fA1", N, (0.5, 0, 0)) * h
    A2 = field0(s, "fA2", N, (0, 0.5, 0)) * h
    A3 = field0(s, "fA3", N, (0, 0, 0.5)) * h
    ext = lambda a: np.concatenate([a, 0 * a[:, :, :1]], axis=2)      # x1 not periodic
    A2, A3 = ext(A2), ext(A3)
    if wall:
        for a in (A2, A3):
            a[:, :, 0] = 0
            a[:, :, -1] = 0

    def d_(a, d):
        return np.zeros_like(a) if N[d] == 1 else (np.roll(a, -1, axis=2 - d) - a) / dx[d]
    B0 = s.get("B0", [0, 0, 0])
    b0r = 0.0 if wall else B0[0]
    # fluxes: B_r = (1/r) dA3/dphi - dA2/dz ; B_phi = dA1/dz - dA3/dr ; B_z = (1/r)[d(r A2)/dr - dA1/dphi]
    B1 = (b0r + d_(A3, 1)) / ri[None, None, :] - d_(A2, 2)
    B2 = B0[1] + d_(A1, 2) - (A3[:, :, 1:] - A3[:, :, :-1]) / dx[0]
    rA2 = A2 * ri[None, None, :]
    B3 = B0[2] + ((rA2[:, :, 1:] - rA2[:, :, :-1]) / dx[0] - d_(A1, 1)) / rc[None, None, :]
    out = [B1]
    for d, b in ((1, B2), (2, B3)):
        if N[d] > 1:
            b = np.concatenate([b, np.take(b, [0], axis=2 - d)], axis=2 - d)
        out.append(b)
    return out


def cellB_cyl(B, N, x0, L):
    dx = L[0] / N[0]
    ri = x0[0] + dx * np.arange(N[0] + 1)
    rc = 0.5 * (ri[1:] + ri[:-1])
    bc = gen.cellB(B, N)
    bc[0] = 0.5 * ((ri[:-1] / rc) * B[0][:, :, :-1] + (ri[1:] / rc) * B[0][:, :, 1:])
    return bc


def cyl_expand(case, c, x0, contrast=0.5, vamp=0.3, camp=0.2, wall=False):
    d = dict(c)
    N, L = case["N"], case["L"]
    dx = [L[i] / N[i] for i in range(3)]
    w = gen.prims({k: v for k, v in case["st"].items()}, N, dx, "hydro", d["eos"], int(d["nscal"]), contrast, vamp)
    if d["gas"] == "mhd":
        w["B"] = faceB_cyl(case["st"], N, x0, L, camp, wall)
        w["Bc"] = cellB_cyl(w["B"], N, x0, L)
    U = gen.cons(w, d["gas"], d["eos"], case["gamma"], True)
    return N, L, dx, w, U


def cyl(c, nds=(1, 2, 3), name=None, bcs=((1, 1), (2, 2), (1, 2), (2, 1))):
    d = dict(c)

    def strat(nd):
        return evo_case(c, nd, lo=8 if nd < 3 else 6, r0=r(0.5, 3, 1), pk=st.integers(0, 3), pgm=r(0, 1, 1),
                        bcr=st.sampled_from([list(x) for x in bcs]), bcz=st.sampled_from([[1, 1], [2, 2], [4, 4]]),
                        orb=r(0.1, 0.6, 1), oq=r(0, 2, 1), omega=r(0, 1, 1), cour=st.sampled_from([0.2, 0.3, 0.4]))

    def make(case):
        x0 = [case["r0"], 0.0, 0.0]
        bcr = case["bcr"]
        N, L, dx, w, U = cyl_expand(case, c, x0, wall=1 in bcr)
        bcz = case["bcz"] if not (d["gas"] == "mhd" and 1 in case["bcz"]) else [4, 4]
        b = blk(case, bc=bcr + [4, 4] + bcz, x0=x0)
        pk = {0: 0, 1: 2, 2: 3, 3: 4}[case["pk"]]
        if "fargo" in d:
            pk = 0
            b["problem"].update(orb_om=case["orb"], orb_q=case["oq"])
        if pk:
            b["problem"].update(pot_kind=pk, pgm=case["pgm"])
        if "rot" in d:
            b["problem"]["omega"] = case["omega"]
        return b, {(0, 0): (U, w["B"])}, None
    return F(strat, make, c, nds, True, name)


# -- special relativity ----------------------------------------------------------
def cons_sr(w, gas, gamma):
    rho, v, p = w["rho"], w["v"], w["p"]
    v2 = sum(x * x for x in v)
    g2 = 1.0 / (1.0 - v2)
    h = rho + gamma / (gamma - 1) * p
    cols = [rho * np.sqrt(g2)]
    if gas == "mhd":
        B = w["Bc"]
        vB = sum(a * b for a, b in zip(v, B))
        B2 = sum(b * b for b in B)
        cols += [(h * g2 + B2) * v[i] - vB * B[i] for i in range(3)]
        cols.append(h * g2 - p + 0.5 * B2 + 0.5 * (v2 * B2 - vB * vB))
        cols += list(B)
    else:
        cols += [h * g2 * v[i] for i in range(3)]
        cols.append(h * g2 - p)
    return np.stack(cols, axis=-1)


def sr_prims(case, c, contrast=0.6, vamp=0.25, camp=0.2, wall=(0, 0, 0)):
    d = dict(c)
    N, L = case["N"], case["L"]
    dx = [L[i] / N[i] for i in range(3)]
    w = gen.prims(case["st"], N, dx, d["gas"], "adiabatic", 0, contrast, vamp, camp, wall)
    # keep speeds below vcap
    sp = np.sqrt(sum(v * v for v in w["v"]))
    f = np.tanh(sp) * case.get("vcap", 0.7) / np.maximum(sp, 1e-30)
    w["v"] = [np.where(sp > 1e-30, v * f, 0.0) for v in w["v"]]
    return N, L, dx, w, cons_sr(w, d["gas"], case["gamma"])


def sr(c, nds=(1, 2, 3), name=None, bcs=True):
    def strat(nd):
        e = dict(bc=bc_strategy(nd, [[2, 2], [4, 4], [1, 1], [5, 5]])) if bcs else {}
        return evo_case(c, nd, gamma=st.sampled_from([5 / 3., 4 / 3.]), vcap=r(0.2, 0.9, 1), cour=r(0.2, 0.4, 1), **e)

    def make(case):
        bc = case.get("bc", (4,) * 6)
        N, L, dx, w, U = sr_prims(case, c, wall=[1 in bc[2 * i:2 * i + 2] for i in range(3)])
        return blk(case, bc=bc), {(0, 0): (U, w["B"])}, None
    return F(strat, make, c, nds, True, name)


# -- refinement --------------------------------------------------------------------
def smr(c, nds=(1, 2, 3), name=None, extra=None, setup=None, bcs=True):
    d = dict(c)

    def strat(nd):
        bl = st.tuples(*[st.sampled_from([[4, 4], [2, 2], [1, 1]] if bcs else [[4, 4]]) if i < nd else st.just([4, 4]) for i in range(3)]).map(lambda t: t[0] + t[1] + t[2])
        return bl.flatmap(lambda bc: evo_case(c, nd, N=st.just([0, 0, 0]), bc=st.just(bc), lay=smrgen.layout(nd, bc=bc),
                                              steps=(2, 4), cour=st.sampled_from([0.2, 0.3, 0.4]), **(extra(nd) if extra else {})))

    def make(case):
        lay = case["lay"]
        cs = dict(case, N=lay["N"])
        wall = [1 in case["bc"][2 * i:2 * i + 2] for i in range(3)]
        ics = smrgen.hierarchy(cs, c, lay, wall=wall)
        b = smrgen.mesh_blocks(blk(cs, bc=case["bc"]), lay)
        if setup:
            setup(cs, b, ics[(0, 0)][0], None, None)
        return b, ics, None
    return F(strat, make, c, nds, True, name)


# -- operator-split cooling -----------------------------------------------------------
def cooling(c, nds=(1, 2, 3)):
    d = dict(c)

    def strat(nd):
        return evo_case(c, nd, n0=logr(0.1, 30), T0=logr(30, 2e4), heat_ratio=st.sampled_from([1.0, 0.5, 2.0, 0.0]), kinds=("mode", "noise"),
                        gamma=st.just(5 / 3.), cour=st.sampled_from([0.2, 0.3]))

    def make(case):
        cs = dict(case, L=[10 * x for x in case["L"]])
        N, L, dx, w, U = expand(cs, c, 0.5, 0.5, 0.1)
        w = dict(w)
        w["rho"] = w["rho"] / case["st"]["rho0"] * case["n0"]
        T = w["p"] / case["st"]["p0"] * case["T0"]
        w["p"] = 1.1 * w["rho"] * T * 1.380658e-16 / (1.4 * 1.6733e-24) / 1e10
        U = gen.cons(w, d["gas"], d["eos"], case["gamma"])
        b = blk(cs, heat_ratio=case["heat_ratio"])
        return b, {(0, 0): (U, w["B"])}, None
    return F(strat, make, c, nds, True)


H = B.cfg


def table():
    fpg = lambda nd: dict(fpg=logr(0.1, 5))
    pw = {1: 16, 2: 8, 3: 8}
    t = [
        plain(H("hydro", "adiabatic", "2", "roe", "ctu", 2)),
        plain(H("hydro", "isothermal", "3", "hllc", "ctu", 1)),
        plain(H("hydro", "adiabatic", "3pck", "hllc", "vl", 1)),
        plain(H("mhd", "adiabatic", "3", "hlld", "ctu", 2)),
        plain(H("mhd", "isothermal", "2p", "hlld", "vl", 1)),
        plain(H("mhd", "adiabatic", "2", "roe", "ctu", 0, hcorr=1)),
        plain(H("mhd", "adiabatic", "2p", "roe", "vl", 1, fofc=1)),
        plain(H("mhd", "adiabatic", "2", "hlld", "ctu", 1), extra=pot_extra, setup=potential, name="potential-mhd"),
        plain(H("hydro", "adiabatic", "2p", "hllc", "vl", 1), extra=pot_extra, setup=potential, name="potential-vl"),
        plain(H("hydro", "adiabatic", "2", "hllc", "ctu", 1, visc=1, cond=1), bcs=False, extra=diff_extra(["nu_iso", "kappa_iso"]),
              setup=diff_setup(["nu_iso", "kappa_iso"]), lo=6),
        plain(H("mhd", "adiabatic", "2", "hlld", "ctu", 0, cond=1), bcs=False, extra=diff_extra(["kappa_iso", "kappa_aniso"]),
              setup=diff_setup(["kappa_iso", "kappa_aniso"]), lo=6),
        plain(H("mhd", "adiabatic", "2", "roe", "ctu", 0, res=1), bcs=False, extra=diff_extra(["eta_Ohm", "Q_AD"]),
              setup=diff_setup(["eta_Ohm", "Q_AD"]), lo=6, name="resist-ohm-ad"),
        plain(H("mhd", "isothermal", "2p", "hlld", "vl", 0, res=1), bcs=False, extra=diff_extra(["eta_Ohm", "Q_Hall"]),
              setup=diff_setup(["eta_Ohm", "Q_Hall"]), lo=6, name="resist-ohm-hall"),
        plain(H("mhd", "adiabatic", "2", "hlld", "ctu", 0, res=1, cond=1, sts=1), bcs=False, extra=diff_extra(["eta_Ohm", "kappa_iso"]),
              setup=diff_setup(["eta_Ohm", "kappa_iso"]), lo=6, name="sts"),
        plain(H("hydro", "adiabatic", "2", "hllc", "ctu", 1, grav="fft", fft=1), bcs=False, extra=fpg, setup=grav_setup, lo=8),
        plain(H("mhd", "isothermal", "2p", "hlld", "vl", 0, grav="fft", fft=1), bcs=False, extra=fpg, setup=grav_setup, lo=8),
        plain(H("hydro", "isothermal", "2", "hllc", "ctu", 0, grav="fft_obc", fft=1), extra=lambda nd: dict(fpg(nd), bc=st.just([2] * 6)),
              setup=grav_setup, nds=(3,)),
        plain(H("hydro", "isothermal", "2", "hllc", "ctu", 0, par=1), bcs=False, extra=par_extra, setup=par_setup, lo=6),
        plain(H("hydro", "isothermal", "3", "roe", "ctu", 0, par=1, feedback=1), bcs=False, extra=par_extra, setup=par_setup, lo=6),
        shear(H("hydro", "isothermal", "2", "hllc", "ctu", 1, sb=1)),
        shear(H("hydro", "adiabatic", "3", "roe", "ctu", 1, sb=1, fargo=1)),
        shear(H("mhd", "isothermal", "2", "hlld", "ctu", 1, sb=1), nds=(3,)),
        shear(H("mhd", "isothermal", "3p", "hlld", "ctu", 1, sb=1, fargo=1), nds=(3,)),
        shear(H("mhd", "adiabatic", "2p", "hlld", "vl", 0, sb=1), nds=(3,)),
        cyl(H("hydro", "adiabatic", "2", "hllc", "ctu", 1, cyl=1)),
        cyl(H("mhd", "isothermal", "2p", "hlld", "vl", 1, cyl=1)),
        cyl(H("hydro", "isothermal", "2", "roe", "ctu", 1, cyl=1, rot=1)),
        cyl(H("hydro", "isothermal", "2", "roe", "ctu", 1, cyl=1, fargo=1), nds=(2, 3)),
        sr(H("hydro", "adiabatic", "2p", "hllc", "vl", 0, sr=1)),
        sr(H("mhd", "adiabatic", "2p", "hlld", "vl", 0, sr=1)),
        smr(H("hydro", "adiabatic", "2", "hllc", "ctu", 1, smr=1)),
        smr(H("mhd", "isothermal", "2", "hlld", "ctu", 1, smr=1)),
        smr(H("mhd", "adiabatic", "2p", "hlld", "vl", 0, smr=1)),
        cooling(H("hydro", "adiabatic", "2", "hllc", "ctu", 0, cooling=1)),
    ]
    return t
