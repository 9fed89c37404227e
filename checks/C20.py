"""Cylindrical coordinates: volume-weighted conservation, rest and rotation equilibria, symmetries, divergence, the limit
of large radius, and residuals of smooth states against the cylindrical equations."""
from .common import *
from . import feats, resid
from .C05 import mirror, shift, sane

RULE = ("A case is a cylindrical mesh (inner radius, wedge, height), boundary flags and a state of modes, boxes, noise and spikes (or smooth modes, or an equilibrium), run for a few steps and compared "
        "with its own invariants, with shifted/mirrored/embedded copies, with the Cartesian program at very large radius, or with the cylindrical equations. Non-trivial: the state changed.")
ASSUMPTIONS = ["inner radius at least 0.3 of the radial extent", "equilibrium drift and residuals judged by convergence with resolution"]


def rad(case):
    """the ghost zones must not reach the axis"""
    return dict(case, r0=case["r0"] + 5.0 * case["L"][0] / case["N"][0]) if "N" in case else case


def weights(N, x0, L):
    dr = L[0] / N[0]
    return (x0[0] + dr * (np.arange(N[0]) + 0.5))[None, None, :, None]


def setup(case, c, bcr, bcz=(4, 4), pot=True, **prob):
    d = dict(c)
    x0 = [case["r0"], 0.0, 0.0]
    N, L, dx, w, U = feats.cyl_expand(case, c, x0, wall=1 in bcr)
    b = blk(case, bc=list(bcr) + [4, 4] + list(bcz), x0=x0, **prob)
    return x0, N, L, dx, w, U, b


def divcyl(B, N, x0, L):
    dx = [L[q] / N[q] for q in range(3)]
    ri = x0[0] + dx[0] * np.arange(N[0] + 1)
    rc = 0.5 * (ri[1:] + ri[:-1])
    out = (ri[1:] * B[0][:, :, 1:] - ri[:-1] * B[0][:, :, :-1]) / (rc * dx[0])
    if N[1] > 1:
        out = out + (B[1][:, 1:] - B[1][:, :-1]) / (rc * dx[1])
    if N[2] > 1:
        out = out + (B[2][1:] - B[2][:-1]) / dx[2]
    return out * min(dx[q] * (x0[0] if q == 1 else 1) for q in range(3) if N[q] > 1)


def conserve(case, c, exe):
    """two states that agree near the radial ends exchange the same amounts through them: the totals change equally"""
    d = dict(c)
    pk = {0: 0, 1: 2, 2: 3, 3: 4}[case["pk"]]
    pr = dict(pot_kind=pk, pgm=case["pgm"]) if pk else {}
    if "rot" in d:
        pr["omega"] = case["omega"]
    if "fargo" in d:
        pr.update(orb_om=case["orb"], orb_q=case["oq"])
    bcr = case["bcr"]
    N = case["N"]
    a, b = (N[0] - 8) // 2, (N[0] + 8) // 2
    runs = []
    adi, mhd = d["eos"] == "adiabatic", d["gas"] == "mhd"
    ib = 5 if adi else 4
    phi = pot(pk, case["pgm"])
    nm = ath.names(c)
    x0 = [case["r0"], 0.0, 0.0]
    ics = []
    for k in (0, 1):
        q = case["st"]
        if k:
            q = gen.generic(q, case["amp"], case["sd"])
        x0, _, L, dx, w, U, blkk = setup(dict(case, st=q), c, bcr, **pr)
        ics.append((U, w, L))
    # the second state only inside [a, b)
    U0, w0, L = ics[0]
    U1, w1, _ = ics[1]
    win = np.zeros((1, 1, N[0], 1), bool)
    win[:, :, a:b] = True
    w2 = dict(w0)
    pick = lambda x, y: np.where(win[..., 0], y, x)
    w2.update(rho=pick(w0["rho"], w1["rho"]), p=pick(w0["p"], w1["p"]), v=[pick(x, y) for x, y in zip(w0["v"], w1["v"])], r=[pick(x, y) for x, y in zip(w0["r"], w1["r"])])
    U2 = gen.cons(w2, d["gas"], d["eos"], case["gamma"], True)
    W = weights(N, x0, L)
    rr = W[..., 0]
    dt = []
    for U in (U0, U2):
        s = ath.final(exe["x"], dict(blkk, time=dict(blkk["time"], nlim=1)), {(0, 0): (U, w0["B"])})
        dt.append(s.time)
    T = case["fdt"] * min(dt)
    ch = []
    s2 = 0
    for U in (U0, U2):
        bb = dict(blkk, time=dict(blkk["time"], nlim=1, tlim=T))
        s = ath.final(exe["x"], bb, {(0, 0): (U, w0["B"])})
        if not np.isfinite(s.U).all() or (s.U[..., 0] <= 0).any():
            return False, "blown up"
        need(s.nstep == 1 and abs(s.time - T) <= 1e-14 * T, "expected one step of %g, got %d to %g", T, s.nstep, s.time)
        if mhd:
            bs = max(float(np.abs(q).max()) for q in s.B) + 1e-30
            dv = np.abs(divcyl(s.B, N, x0, L))
            # cells at a reflecting radial wall: known finding (see known_findings.json)
            e = dv[:, :, 1 if bcr[0] == 1 else 0:N[0] - 1 if bcr[1] == 1 else N[0]].max()
            need(e <= 1e-11 * max(bs, 1e-3), "divergence of B times cell size is %.3e (field %.3g)", e, bs)
        V = (s.U - U) * W / W.mean()
        t = {n: V[..., i].mean() for i, n in enumerate(nm) if n not in ("M1", "M2", "Pflux", "B1c", "B2c", "B3c")}
        if "rot" not in d and "fargo" not in d:
            t["angular momentum"] = (V[..., 2] * rr).mean()
        if pk:
            t.pop("E", None)          # the work of gravity is centred, not conservative, in cylindrical coordinates
        ch.append(t)
        s2 = np.maximum(s2, np.maximum(scales(s.U, c, case["gamma"], case["cs"]), scales(U, c, case["gamma"], case["cs"])))
    for n in ch[0]:
        q = s2[2] * (x0[0] + L[0]) if n == "angular momentum" else s2[nm.index(n)]
        e = ch[1][n] - ch[0][n]
        need(abs(e) <= 1e-11 * q, "volume-weighted total of %s: a change of the state away from the boundaries alters its rate of change (by %.3e in one step, scale %.3g)", n, e, q)
    return bool(np.abs(s.U - U)[..., :4].max() > 1e-6), "conserve"


def pot(pk, gm):
    return {0: lambda r_: 0 * r_, 2: lambda r_: -gm / r_, 3: lambda r_: gm * np.log(r_), 4: lambda r_: 0.5 * gm * r_ * r_}[pk]


def rest(case, c, exe):
    d = dict(c)
    adi, mhd = d["eos"] == "adiabatic", d["gas"] == "mhd"
    N, L = case["N"], case["L"]
    x0 = [case["r0"], 0.0, 0.0]
    z = np.zeros((N[2], N[1], N[0]))
    w = dict(rho=z + case["st"]["rho0"], v=[z, z, z + (case["vz"] if N[2] > 1 or 1 else 0)], p=z + case["st"]["p0"], r=[z + 0.3 + 0.2 * i for i in range(int(d["nscal"]))], B=None)
    Bf = None
    if mhd:
        Bf = [np.zeros((N[2], N[1], N[0] + 1)), np.zeros((N[2], N[1] + (N[1] > 1), N[0])), np.full((N[2] + (N[2] > 1), N[1], N[0]), case["st"]["B0"][2])]
        w["Bc"] = [z, z, z + case["st"]["B0"][2]]
    U = gen.cons(w, d["gas"], d["eos"], case["gamma"], True)
    b = blk(case, bc=case["bcr"] + [4, 4, 4, 4], x0=x0)
    s = ath.final(exe["x"], b, {(0, 0): (U, Bf)})
    sc = scales(U, c, case["gamma"], case["cs"])
    for i, n in enumerate(ath.names(c)):
        if n == "Pflux":
            continue
        e = np.abs(s.U - U)[..., i].max()
        need(e <= 1e-12 * sc[i], "uniform gas at rest%s: %s changed by %.3e", " with uniform vertical field" if mhd else "", n, e)
    return True, "rest"


def symmetry(case, c, exe):
    d = dict(c)
    case = dict(case, st=gen.generic(case["st"], case["amp"], case["sd"]))
    pk = {0: 0, 1: 2, 2: 3, 3: 4}[case["pk"]]
    pr = dict(pot_kind=pk, pgm=case["pgm"]) if pk else {}
    if "rot" in d:
        pr["omega"] = case["omega"]
    if "fargo" in d:
        pr.update(orb_om=case["orb"], orb_q=case["oq"])
    bcz = (4, 4)
    x0, N, L, dx, w, U, b = setup(case, c, case["bcr"], bcz, **pr)
    nd = ndim(N)
    go = lambda U, Bf, b=b: ath.final(exe["x"], b, {(0, 0): (U, Bf)})
    s = go(U, w["B"])
    if not sane(s):
        return False, "blown up"
    sc = scales(U, c, case["gamma"], case["cs"])
    kind = case["kind"]
    kinds = {1: ["embed"] if d["integ"] == "vl" else [], 2: ["shift", "shift", "mirror"], 3: ["shift", "mirror"]}[nd]
    if not kinds:
        return False, "no relation"
    kind = kinds[kind % len(kinds)]
    if kind == "shift":
        sh = [0, case["sh"][1] if N[1] > 1 else 0, case["sh"][2] if N[2] > 1 else 0]
        V, VB = shift(U, w["B"], sh, N) if w["B"] is None else shiftB(U, w["B"], sh, N)
        g = go(V, VB)
        R, RB = shiftB(s.U, s.B, sh, N)
        what = "shift by %s cells" % sh
    elif kind == "mirror":
        ax = 2 if ("rot" in d or "fargo" in d or (case["sd"] % 2 and nd == 3)) else 1
        if N[ax] == 1:
            return False, "no axis"
        V, VB = mirror(U[..., :-1], w["B"], ax, c)
        V = np.concatenate([V, U[..., -1:]], -1)
        g = go(V, VB)
        R, RB = mirror(s.U[..., :-1], s.B, ax, c)
        R = np.concatenate([R, g.U[..., -1:]], -1)
        what = "mirror of x%d" % (ax + 1)
    else:
        # the same 1D problem repeated along phi (2D) and z (3D)
        m = case["emb"]
        N2 = [N[0], m[0], m[1] if case["sd"] % 2 else 1]
        if nd != 1:
            return False, "no embedding"
        rep = lambda a: np.tile(a, (N2[2], N2[1], 1, 1)[:a.ndim])
        Bf = None
        if w["B"] is not None:
            Bf = [rep(w["B"][0]), np.tile(w["B"][1], (N2[2], N2[1] + 1, 1)), np.tile(w["B"][2], (N2[2] + (N2[2] > 1), N2[1], 1))]
        b2 = blk(dict(case, N=N2), bc=list(case["bcr"]) + [4] * 4, x0=x0, **pr)
        g = go(rep(U), Bf, b2)
        R = rep(s.U)
        RB = None
        what = "embedding in %s" % N2
        # the time steps may differ (the azimuthal and vertical limits): compare only when they agree
        if g.nstep != s.nstep or abs(g.time - s.time) > 1e-12 * s.time:
            return False, "other time step"
    if not sane(g):
        return False, "blown up"
    D = np.abs(g.U - R)[..., :len(sc)]
    if kind == "embed" and d["gas"] == "mhd":
        # ghost zones of the radial boundaries keep B1, not r*B1, constant; their divergence is treated differently
        # in 1D and in 2D/3D: cells the boundaries can reach are left out
        m = 5 * s.nstep
        if N[0] < 2 * m + 4:
            return False, "nothing beyond the reach of the boundaries"
        D = D[:, :, m:N[0] - m]
    e = D.reshape(-1, len(sc)).max(0)
    if (e > 1e-7 * np.array(sc)).any() and fragile(go, U, w["B"], s, e):
        return False, "decided by round-off"
    for i in range(len(sc)):
        need(e[i] <= 1e-7 * sc[i], "%s: %s differs by %.3e (scale %.3g)", what, ath.names(c)[i], e[i], sc[i])
    if RB is not None:
        for q in range(3):
            need(np.abs(g.B[q] - RB[q]).max() <= 1e-7 * sc[5 if d["eos"] == "adiabatic" else 4], "%s: face B%d differs by %.3e", what, q + 1, np.abs(g.B[q] - RB[q]).max())
    return True, kind


def shiftB(U, Bf, sh, N):
    """x2/x3 shift; the x1 faces are not periodic"""
    V = np.roll(U, (sh[1], sh[2]), (1, 0))
    if Bf is None:
        return V, None
    out = []
    for q in range(3):
        bq = Bf[q]
        ax = 2 - q
        ext = q > 0 and bq.shape[ax] == N[q] + 1
        core = np.take(bq, range(N[q]), axis=ax) if ext else bq
        core = np.roll(core, (sh[1], sh[2]), (1, 0))
        if ext:
            core = np.concatenate([core, np.take(core, [0], axis=ax)], axis=ax)
        out.append(core)
    return V, out


def bigr(case, c, exe):
    """at radius 1e6 L the wedge is a Cartesian box up to terms of order L/R"""
    d = dict(c)
    c0 = dict(d)
    c0.pop("cyl")
    case = dict(case, st=gen.generic(case["st"], case["amp"], case["sd"]))
    cart = tuple(sorted(c0.items()))
    bc = [2, 2] + [4] * 4
    N, L, dx, w, U = expand(dict(case, bc=bc), cart)
    R0 = 1e6
    nlim = case["nlim"]
    s0 = ath.final(exe["cart"], blk(case, bc=bc), {(0, 0): (U, w["B"])})
    Lc = [L[0], L[1] / R0, L[2]]
    Uc = np.concatenate([U, np.zeros(U.shape[:3] + (1,))], -1)
    s1 = ath.final(exe["x"], blk(dict(case, L=Lc), bc=bc, x0=[R0 - 0.5 * L[0], 0.0, 0.0]), {(0, 0): (Uc, w["B"])})
    if not sane(s0) or not sane(s1):
        return False, "blown up"
    need(s0.nstep == s1.nstep, "Cartesian run took %d steps, cylindrical %d", s0.nstep, s1.nstep)
    need(abs(s0.time - s1.time) <= 1e-3 * s0.time, "time %g (Cartesian), %g (cylindrical, large radius)", s0.time, s1.time)
    sc = scales(U, cart, case["gamma"], case["cs"])
    e = np.abs(s1.U[..., :-1] - s0.U).reshape(-1, len(sc))
    e = e.mean(0) if case["amp"] >= 0 else e.max(0)
    for i in range(len(sc)):
        need(e[i] <= 1e-3 * sc[i], "large-radius limit: %s differs by %.3e on average from the Cartesian run (scale %.3g)", ath.names(cart)[i], e[i], sc[i])
    return bool(np.abs(s0.U - U).max() > 1e-6), "large radius"


def sub_orb(T, x, orb):
    """with orbital advection M2 excludes the orbital velocity"""
    T = T.copy()
    T[..., 2] -= orb(x[0]) * T[..., 0]
    return T


def resid_cyl(case, c, nd, exe):
    d = dict(c)
    x0 = [case["r0"], 0.0, 0.0]
    L = [case["L"][0], case["L"][1], case["L"][2]]
    sm = resid.Smooth(case["s"], L, x0, nd, d["gas"], int(d["nscal"]), cyl=True)
    eq = resid.Newton(c, case["gamma"], case["cs"])
    pk = {0: 0, 1: 2, 2: 3, 3: 4}[case["pk"]]
    if "fargo" in d and not pk:
        pk = 2                # orbital advection presumes a potential that holds the orbits
    gm, om = case["pgm"], case["omega"] if "rot" in d else 0.0
    dphi = {0: lambda r_: 0 * r_, 2: lambda r_: gm / r_ ** 2, 3: lambda r_: gm / r_, 4: lambda r_: gm * r_}[pk]
    pr = dict(pot_kind=pk, pgm=gm) if pk else {}
    if om:
        pr["omega"] = om

    if "fargo" in d:
        oo, oq = case["orb"], case["oq"]
        pr.update(orb_om=oo, orb_q=oq)
        orb = lambda r_: oo * r_ ** (1 - oq)
        sm.vphi = orb
    def extra(sm, eq, x):
        w = sm.prim(x)
        out = np.zeros(eq.cons(w).shape)
        g = -dphi(x[0])
        out[..., 1] = w["rho"] * (g + 2 * om * w["v"][1])
        out[..., 2] = -2 * om * w["rho"] * w["v"][0]
        if eq.adi:
            out[..., 4] = w["rho"] * w["v"][0] * g
        return out
    n = {1: 64, 2: 32, 3: 16}[nd]
    N = [n if q < nd else 1 for q in range(3)]
    mk = lambda N: blk(dict(case, N=N, nlim=1, cour=0.1), bc=[2, 2] + [4] * 4, x0=x0, **pr)
    fl = {1: 0.01, 2: 0.015, 3: 0.03}[nd]
    first = d["order"] == "1" or d["flux"] in ("force", "hlle")
    if "fargo" in d and nd == 1:
        return False, "no orbital advection in 1D"
    m = resid.converge(exe["x"], mk, sm, eq, N, c, what="smooth cylindrical state", post=(lambda T, x: sub_orb(T, x, orb)) if "fargo" in d else None, ratio=0.8 if first else 0.65, floor=3 * fl if first else fl, extra=extra, skip=4, cyl=True)
    return m > 1e-3, "residual %dd" % nd


def equilibrium(case, c, exe):
    """rotation balancing gravity (uniform density and pressure), drift over a fixed time falls with resolution"""
    d = dict(c)
    pk, gm, r0 = {0: 2, 1: 2, 2: 3, 3: 4}[case["pk"]], 0.2 + case["pgm"], case["r0"]
    om = case["omega"] if "rot" in d else 0.0
    errs = []
    L = [1.0, case["L"][1], case["L"][2]]
    for m in (24, 48):
        N = [m if q == 0 else (case["N"][q] if case["N"][q] > 1 else 1) for q in range(3)]
        x0 = [r0, 0.0, 0.0]
        rr = (r0 + L[0] / m * (np.arange(m) + 0.5))[None, None, :] * np.ones((N[2], N[1], 1))
        vphi = np.sqrt({2: gm / rr, 3: gm + 0 * rr, 4: gm * rr * rr}[pk] + (om * rr) ** 2) - om * rr
        z = 0 * rr
        w = dict(rho=z + case["st"]["rho0"], v=[z, vphi, z], p=z + case["st"]["p0"], r=[z + 0.4] * int(d["nscal"]))
        Bf = None
        if d["gas"] == "mhd":
            bz = 0.5
            Bf = [np.zeros((N[2], N[1], N[0] + 1)), np.zeros((N[2], N[1] + (N[1] > 1), N[0])), np.full((N[2] + (N[2] > 1), N[1], N[0]), bz)]
            w["Bc"] = [z, z, z + bz]
        U = gen.cons(w, d["gas"], d["eos"], case["gamma"], True)
        pr = dict(pot_kind=pk, pgm=gm)
        if "rot" in d:
            pr["omega"] = om
        T = 0.15 * r0 / float(np.abs(vphi).max() + np.sqrt(case["gamma"] * case["st"]["p0"] / case["st"]["rho0"]) + case["cs"])
        b = blk(dict(case, N=N, L=L, nlim=-1, cour=0.4), bc=[1, 1] + [4] * 4, x0=x0, tlim=T, **pr)
        s = ath.final(exe["x"], b, {(0, 0): (U, Bf)})
        cut = m // 4          # away from the walls (sound has not arrived there)
        sc = scales(U, c, case["gamma"], case["cs"])
        errs.append([np.abs(s.U - U)[..., cut:-cut, i].mean() / sc[i] for i in range(len(sc))])
    for i in range(len(errs[0])):
        need(errs[1][i] <= 2e-3 and (errs[1][i] <= 0.5 * errs[0][i] or errs[1][i] <= 2e-5), "rotation balancing gravity: %s drifted by %.3e (24 cells) and %.3e (48 cells)", ath.names(c)[i], errs[0][i], errs[1][i])
    return True, "equilibrium"


CS = [B.cfg("hydro", "adiabatic", "2", "hllc", "ctu", 1, cyl=1), B.cfg("hydro", "isothermal", "2", "roe", "ctu", 1, cyl=1), B.cfg("mhd", "adiabatic", "2p", "hlld", "ctu", 0, cyl=1),
      B.cfg("mhd", "isothermal", "2p", "hlld", "vl", 1, cyl=1), B.cfg("hydro", "adiabatic", "3p", "roe", "vl", 1, cyl=1), B.cfg("mhd", "adiabatic", "3", "roe", "ctu", 0, cyl=1),
      B.cfg("hydro", "isothermal", "2", "hllc", "ctu", 1, cyl=1, rot=1), B.cfg("mhd", "adiabatic", "2", "hlld", "ctu", 0, cyl=1, rot=1),
      B.cfg("hydro", "adiabatic", "2p", "force", "vl", 1, cyl=1), B.cfg("hydro", "adiabatic", "2p", "exact", "ctu", 1, cyl=1), B.cfg("mhd", "isothermal", "2", "hlle", "ctu", 1, cyl=1),
      B.cfg("hydro", "isothermal", "3", "two-shock", "ctu", 1, cyl=1), B.cfg("hydro", "isothermal", "2", "roe", "ctu", 1, cyl=1, fargo=1), B.cfg("mhd", "isothermal", "2", "hlld", "ctu", 0, cyl=1, fargo=1),
      B.cfg("mhd", "adiabatic", "2p", "roe", "vl", 1, cyl=1)]


def subs(tier):
    out = []
    for c in CS:
        d = dict(c)
        c0 = dict(d)
        for k in ("cyl", "rot", "fargo"):
            c0.pop(k, None)
        cart = tuple(sorted(c0.items()))
        x = {"x": spec(c)}
        plain = "rot" not in d and "fargo" not in d
        for nd in (1, 2, 3) if plain else (2, 3):
            lb = "%s-%dd" % (label(c), nd)
            ex = dict(r0=r(0.1, 3, 1), pk=st.integers(0, 3), pgm=r(0, 1, 1), omega=r(0.1, 1, 1), cour=st.sampled_from([0.2, 0.3, 0.4]), orb=r(0.1, 0.6, 1), oq=r(0, 2, 1))
            lo = 8 if nd < 3 else 6
            e = lambda **kw: evo_case(c, nd, lo=lo, **dict(ex, **kw)).map(rad)
            bcr = st.sampled_from([[1, 1], [2, 2], [1, 2], [2, 1]])
            sd = st.integers(0, 10 ** 6)
            nc = st.tuples(st.integers(26, 32), st.integers(6, 9) if nd > 1 else st.just(1), st.integers(5, 7) if nd > 2 else st.just(1)).map(list)
            if "fargo" not in d:
                out.append(Sub("conserve-" + lb, e(N=nc, bcr=bcr, amp=r(0.1, 0.8, 2), sd=sd, fdt=r(0.3, 0.95, 2)), (lambda case, exe, c=c: conserve(case, c, exe)), x, 8))
            if plain:
                out.append(Sub("rest-" + lb, e(bcr=bcr, vz=r(-1, 1, 1)), (lambda case, exe, c=c: rest(case, c, exe)), x, 3))
                if d["flux"] not in ("exact",):
                    out.append(Sub("bigr-" + lb, e(amp=r(0.02, 0.2, 2), sd=sd), (lambda case, exe, c=c: bigr(case, c, exe)), {"x": spec(c), "cart": spec(cart)}, 6))
            if nd > 1 or d["integ"] == "vl":
                out.append(Sub("symmetry-" + lb, e(bcr=bcr, amp=r(0.02, 0.2, 2), sd=sd, kind=st.integers(0, 5), sh=st.tuples(*[st.integers(1, 5)] * 3).map(list),
                                                   emb=st.tuples(st.integers(4, 6), st.integers(4, 6)).map(list)), (lambda case, exe, c=c: symmetry(case, c, exe)), x, 6))
            if d["flux"] not in ("exact", "two-shock"):
                rs = st.fixed_dictionaries(dict(L=st.tuples(*[r(0.8, 1.6, 1)] * 3).map(list), s=resid.smooth_strategy(nd, d["gas"], int(d["nscal"])), gamma=st.sampled_from([5 / 3., 1.4, 2.0]),
                                                cs=r(0.5, 1.5, 1), r0=r(0.8, 3, 1), pk=st.integers(0, 3), pgm=r(0, 1, 1), omega=r(0.1, 1, 1), orb=r(0.1, 0.6, 1), oq=r(0, 2, 1)))
                out.append(Sub("residual-" + lb, rs, (lambda case, exe, c=c, nd=nd: resid_cyl(case, c, nd, exe)), x, {1: 6, 2: 5, 3: 3}[nd]))
            if "fargo" not in d:
                out.append(Sub("equil-" + lb, e(N=st.just([24, 6 if nd > 1 else 1, 6 if nd > 2 else 1])), (lambda case, exe, c=c: equilibrium(case, c, exe)), x, 2))
    return out
