"""Static gravity."""
from .common import *
from .C05 import sane
from vp import cfgs

RULE = ("A case is a random state on a periodic grid plus a static potential (Fourier mode along a random wave vector and/or linear part) "
        "and one relation. Non-trivial: the potential changed the momentum by more than 1e-9 of its scale.")
ASSUMPTIONS = ["the potential is evaluated at cell centres and faces; energy tolerance 1e-11 of the total energy scale"]


def rd(exe, case, U, B, **kw):
    return ath.final(exe["x"], blk(case, **kw), {(0, 0): (U, B)})


def potpar(case, const=0.0):
    N, L = case["N"], case["L"]
    p = dict(pot_kind=5, pamp=case["pamp"])
    for d in range(3):
        p["pk%d" % (d + 1)] = float(case["pk"][d])
        p["pper%d" % (d + 1)] = L[d] if N[d] > 1 else 0.0
    return p


def phi(case, X):
    """the potential of src/vp.c kind 5: exactly periodic, positions reduced to 1e-9 of the period"""
    N, L = case["N"], case["L"]
    a = 0.0
    for d in range(3):
        if N[d] > 1:
            a = a + np.mod(case["pk"][d] * np.mod(np.floor(1e9 * (X[d] / L[d]) + 0.5), 1e9), 1e9)
    return case["pamp"] * np.cos(2 * np.pi * 1e-9 * a)


def coords(N, L, off=(0.5, 0.5, 0.5)):
    X = gen.grid(N, off)
    return [X[d] * L[d] for d in range(3)]


def do(case, c, exe):
    case = dict(case)
    if case["noise"]:
        case["st"] = gen.generic(case["st"], 0.1, case["sd"])
    d = dict(c)
    N, L, dx, w, U = expand(case, c)
    B = w["B"]
    sc = scales(U, c, case["gamma"], case["cs"])
    sc[1:4] += U[..., 0].mean() * np.sqrt(abs(case["pamp"]))
    nd = ndim(N)
    act = [q for q in range(nd) if case["pk"][q]]
    k = case["kind"]
    n = U[..., 0].size
    if k == "energy":
        f = rd(exe, case, U, B, **potpar(case))
        if not sane(f):
            return False, "blown up"
        P = phi(case, coords(N, L))
        dm = (f.U - U).reshape(n, -1).sum(0) / n
        need(abs(dm[0]) <= 1e-11 * sc[0], "total mass changed by %.3e", dm[0])
        if d["eos"] == "adiabatic":
            de = ((f.U[..., 4] + f.U[..., 0] * P) - (U[..., 4] + U[..., 0] * P)).sum() / n
            need(abs(de) <= 1e-11 * (sc[4] + sc[0] * abs(case["pamp"])), "total energy with potential energy changed by %.3e per cell (scale %.3g)", de, sc[4])
        for q in range(3):
            if q not in act:
                need(abs(dm[1 + q]) <= 1e-11 * sc[1], "momentum along x%d, where the potential is constant, changed by %.3e", q + 1, dm[1 + q])
        if B is not None:
            i = 5 if d["eos"] == "adiabatic" else 4
            for q in range(3):
                need(abs(dm[i + q]) <= 1e-11 * sc[i], "magnetic flux along x%d changed by %.3e", q + 1, dm[i + q])
        nt = len(act) and np.abs(f.U[..., 1:4] - U[..., 1:4]).max() > 1e-9 * sc[1]
    elif k == "weak":
        # one tiny step with and without the potential
        cs = dict(case, nlim=1, cour=1e-5)
        f0 = rd(exe, cs, U, B)
        f = rd(exe, cs, U, B, **potpar(case))
        need(f.time == f0.time, "time step depends on the potential: %.17g %.17g", f.time, f0.time)
        dt = f.time
        dU = (f.U - f0.U) / dt
        rho = U[..., 0]
        gr = []
        for q in range(3):
            if q >= nd:
                gr.append(0 * rho)
                continue
            o = [0.5] * 3
            o[q] = 0.0
            lo = phi(case, coords(N, L, o))
            o[q] = 1.0
            hi = phi(case, coords(N, L, o))
            gr.append((hi - lo) / dx[q])
        g = max(np.abs(x).max() for x in gr)
        tol = 1e-3 * g + 1e-13 / dt
        for q in range(3):
            e = np.abs(dU[..., 1 + q] + rho * gr[q]).max()
            need(e <= tol * rho.max() + 1e-13 * sc[1] / dt, "momentum source along x%d off by %.3e (gravity %.3g)", q + 1, e, g)
        e = np.abs(dU[..., 0]).max()
        need(e <= 1e-2 * g * rho.max() + 1e-12 * sc[0] / dt, "density source %.3e", e)
        if d["eos"] == "adiabatic":
            # work done: mass flux times potential differences across the two half cells, with the fluxes of the first run unknown
            # only to the difference between v in adjacent cells: bound by the spread of rho*v over the neighbourhood
            wk = 0.0
            spread = 0.0
            for q in range(nd):
                m = U[..., 1 + q]
                wk = wk + m * gr[q]
                nb = [np.roll(m, s, 2 - q) for s in (-2, -1, 1, 2)]
                hi, lo = np.maximum.reduce(nb + [m]), np.minimum.reduce(nb + [m])
                rh = [np.roll(rho, s, 2 - q) for s in (-2, -1, 0, 1, 2)]
                sp = speed(U, c, case["gamma"], case["cs"])
                spx = np.maximum.reduce([np.roll(sp, s, 2 - q) for s in (-2, -1, 0, 1, 2)])
                o = [0.5] * 3
                o[q] = 0.0
                pl = phi(case, coords(N, L, o))
                o[q] = 1.0
                pr = phi(case, coords(N, L, o))
                pc = phi(case, coords(N, L))
                spread = spread + (hi - lo + spx * 3 * (np.maximum.reduce(rh) - np.minimum.reduce(rh)) + 3 * np.maximum.reduce(rh) * sum(
                    np.maximum.reduce([np.roll(w["v"][t], s, 2 - q) for s in (-2, -1, 0, 1, 2)]) - np.minimum.reduce([np.roll(w["v"][t], s, 2 - q) for s in (-2, -1, 0, 1, 2)])
                    for t in range(3))) * (np.abs(pr - pc) + np.abs(pc - pl)) / dx[q]
                pp = [np.roll(w["p"] + (0.5 * sum(b * b for b in w["Bc"]) if B is not None else 0), s, 2 - q) for s in (-2, -1, 0, 1, 2)]
                spread = spread + 3 * (np.maximum.reduce(pp) - np.minimum.reduce(pp)) / np.sqrt(1e-300 + spx ** 2) * (np.abs(pr - pc) + np.abs(pc - pl)) / dx[q]
            e = np.abs(dU[..., 4] + wk) - 2 * spread
            need(e.max() <= 2e-3 * g * (rho.max() * speed(U, c, case["gamma"], case["cs"]).max()) + 1e-12 * sc[4] / dt,
                 "energy source off by %.3e (gravity %.3g)", e.max(), g)
        nt = g > 0
    elif k == "fall":
        # uniform gas in uniform gravity
        cs = dict(case, st=dict(case["st"], **{q: [] for q in case["st"] if q.startswith("f")}))
        N, L, dx, w, U = expand(cs, c)
        gv = [case["g"][q] if q < nd else 0.0 for q in range(3)]
        f = rd(exe, cs, U, w["B"], pot_kind=1, pamp=0.0, g1=gv[0], g2=gv[1], g3=gv[2])
        t = f.time
        rho = U[..., 0]
        sc = scales(U, c, case["gamma"], case["cs"])
        vv = max(abs(x) for x in gv) * t
        V = U.copy()
        for q in range(3):
            V[..., 1 + q] = U[..., 1 + q] - rho * gv[q] * t
        if d["eos"] == "adiabatic":
            V[..., 4] = U[..., 4] - 0.5 * (U[..., 1:4] ** 2).sum(-1) / rho + 0.5 * (V[..., 1:4] ** 2).sum(-1) / rho
        nm = ath.names(c)
        for i in range(len(sc)):
            e = np.abs(f.U[..., i] - V[..., i]).max()
            need(e <= 1e-11 * (sc[i] + sc[0] * (vv + vv * vv)), "free fall: %s off by %.3e", nm[i], e)
        nt = vv > 1e-9
    elif k == "const":
        # exact binary shift of the potential through a zero wave number mode: pamp*cos(0)
        f = rd(exe, case, U, B)
        if not sane(f):
            return False, "blown up"
        g = rd(exe, case, U, B, pot_kind=1, pamp=case["pamp"] * 4)
        nm = ath.names(c)
        for i in range(len(sc)):
            e = np.abs(f.U[..., i] - g.U[..., i]).max()
            need(e <= 1e-10 * sc[i], "constant potential changes %s by %.3e", nm[i], e)
        nt = abs(case["pamp"]) > 0
    return bool(nt), k


def subs(tier):
    out = []
    for c in cfgs.main(nscal=1) + cfgs.special(nscal=1):
        for nd in (1, 2, 3):
            e = dict(kind=st.sampled_from(["energy", "weak", "fall", "const"]), noise=st.booleans(), sd=st.integers(0, 10 ** 6),
                     pamp=r(-0.5, 0.5, 2).filter(lambda x: x), g=st.tuples(*[r(-1, 1, 2)] * 3).map(list),
                     pk=st.tuples(*[st.integers(-2, 2) if q < nd else st.just(0) for q in range(3)]).map(list))
            out.append(Sub("%s-%dd" % (label(c), nd), evo_case(c, nd, maxn=2, steps=(1, 4), **e),
                           (lambda case, exe, c=c: do(case, c, exe)), {"x": spec(c, "-O0")}, {1: 24, 2: 40, 3: 40}[nd]))
    return out
