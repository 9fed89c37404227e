"""Riemann solvers called directly on generated pairs of states."""
from .fn import *
from . import rsref
from vp.prop import Discard

RULE = ("A case is up to six generated pairs of states (densities, pressures, Mach numbers and plasma beta over several decades, exact zeros and equal "
        "components included) given to the compiled solver together with their mirrored, rotated, field-reversed and rescaled forms. "
        "Non-trivial: at least one pair differs across the interface and a flux was returned for it.")
ASSUMPTIONS = ["pairs outside the exact solvers' domain (vacuum) end in their documented fatal error and are discarded",
               "near the solvers' own degeneracy switches (relative 1e-7) only the symmetry and finiteness oracles apply"]

NEWT = [("hydro", "adiabatic", f) for f in ("roe", "hlle", "hllc", "force", "exact")] + \
       [("hydro", "isothermal", f) for f in ("roe", "hlle", "hllc", "force", "exact", "two-shock")] + \
       [("mhd", e, f) for e in ("adiabatic", "isothermal") for f in ("roe", "hlle", "hlld", "force")]
SR = [("hydro", "hllc"), ("hydro", "exact"), ("mhd", "hlle"), ("mhd", "hllc"), ("mhd", "hlld")]

ZV = st.one_of(st.sampled_from([0.0, 0.5, -0.5, 1.0, -1.0]), r(-3, 3, 2), r(-0.05, 0.05, 4))
MACH = st.one_of(st.sampled_from([0.0, 0.0, 1.0, -1.0]), r(-1.5, 1.5, 2), r(-1.5, 1.5, 2), r(-8, 8, 1))


def side(mhd, ns):
    k = dict(d=logr(0.01, 100), p=logr(0.01, 100), m=st.tuples(MACH, ZV, ZV).map(list))
    if mhd:
        k["b"] = st.tuples(ZV, ZV).map(list)
    k["s"] = st.lists(st.sampled_from([0.0, 1.0, 0.25, -0.5]), min_size=ns, max_size=ns)
    return st.fixed_dictionaries(k)


def pairs(mhd, ns, n=6):
    p = st.fixed_dictionaries(dict(l=side(mhd, ns), r=side(mhd, ns), same=st.lists(st.sampled_from(["d", "p", "m0", "m1", "m2", "b", "bs"]), max_size=4),
                                   eq=st.sampled_from([0, 0, 0, 0, 1]), bx=ZV, rot=r(0, 6.28, 2), eta=st.sampled_from([0.0, 0.0, 0.3, 2.0])))
    return st.fixed_dictionaries(dict(pairs=st.lists(p, min_size=1, max_size=n), gamma=st.sampled_from([5 / 3., 1.4, 1.1, 2.0]), cs=r(0.3, 3, 1),
                                      un=st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list)))


def rows(p, c, l, gamma, cs):
    """-> Wl, Wr, Bx"""
    out = []
    a, b = p["l"], dict(p["r"])
    b = dict(b, m=list(b["m"]))
    if p["eq"]:
        b = dict(a, s=b["s"])
    for s in p["same"]:
        if s in ("d", "p"):
            b[s] = a[s]
        elif s == "b" and l.mhd:
            b["b"] = a["b"]
        elif s == "bs" and l.mhd:
            b["b"] = [-a["b"][1], a["b"][0]]
        elif s[0] == "m":
            b["m"][int(s[1])] = a["m"][int(s[1])]
    sc = np.sqrt(gamma * max(a["p"], b["p"]) / max(a["d"], b["d"])) if l.adi else cs
    bs = np.sqrt(max(a["p"], b["p"])) if l.adi else cs * np.sqrt(max(a["d"], b["d"]))
    for q in (a, b):
        v = [x * sc for x in q["m"]]
        bb = [x * bs for x in q["b"]] if l.mhd else (0, 0)
        out.append(np.array(cell(c, q["d"], v, q["p"], bb[0], bb[1], q["s"])))
    return out[0], out[1], (p["bx"] * bs if l.mhd else 0.0)


def mirror(W, l):
    V = W.copy()
    V[1] = -V[1]
    return V


def rot(W, l, t):
    V = W.copy()
    c, s = np.cos(t), np.sin(t)
    for i in [2] + ([l.By] if l.mhd else []):
        V[i], V[i + 1] = c * W[i] - s * W[i + 1], s * W[i] + c * W[i + 1]
    return V


def mirF(F, l):
    """flux of the mirrored problem (x -> -x, v_x and B_y, B_z keep the pseudo-vector signs chosen below)"""
    G = -F.copy()
    G[1] = F[1]
    if l.cyl:
        G[-1] = F[-1]
    return G


def close(a, b, tol, what, *info):
    bad = np.abs(a - b) > tol
    need(not bad.any() and np.isfinite(a).all(), "%s: component %s got %s want %s (tol %s) for %s", what, np.nonzero(bad)[0].tolist(), a.tolist(), b.tolist(),
         np.asarray(tol).tolist() if np.ndim(tol) else tol, [x.tolist() if hasattr(x, "tolist") else x for x in info])


def newt(case, c, exe):
    k = dict(c)
    l = Lay(c)
    g, cs, fl = case["gamma"], case["cs"], k["flux"]
    hc = "hcorr" in k
    P = [rows(p, c, l, g, cs) for p in case["pairs"]]
    recs, per = [], 0
    un = [2.0 ** case["un"][0], 2.0 ** case["un"][1]]      # density and speed units
    for (a, b, bx), p in zip(P, case["pairs"]):
        eta = p["eta"] if hc else 0.0
        t = p["rot"]
        # mirrored in x: v_x -> -v_x, left and right exchanged; B_x -> -B_x (B_y, B_z kept: field reflected as a vector)
        rr = [(a, b, bx, eta), (mirror(b, l), mirror(a, l), -bx, eta), (rot(a, l, t), rot(b, l, t), bx, eta), (a, a, bx, 0.0), (b, b, bx, 0.0)]
        if l.mhd:
            na, nb = a.copy(), b.copy()
            na[l.By:l.By + 2] *= -1
            nb[l.By:l.By + 2] *= -1
            rr.append((na, nb, -bx, eta))
        else:
            rr.append((a, b, 0.7, eta))                    # hydrodynamics must ignore the field argument
        per = len(rr)
        for w, x, y, e in rr:
            recs.append((1, np.concatenate([w, x, [y, e]])))
    res = call(exe["x"], recs, g, cs)
    # rescaled units (isothermal sound speed scales too): separate call because the globals change
    recs2 = []
    fU = np.array([un[0]] + [un[1]] * 3 + ([un[0] * un[1] ** 2] if l.adi else []) + ([np.sqrt(un[0]) * un[1]] * 2 if l.mhd else []) + [1.0] * l.ns)
    for (a, b, bx), p in zip(P, case["pairs"]):
        recs2.append((1, np.concatenate([a * fU, b * fU, [bx * np.sqrt(un[0]) * un[1], (p["eta"] if hc else 0.0) * un[1]]])))
    res2 = call(exe["x"], recs2, g, cs * un[1])
    nt, disc = False, 0
    for n, ((a, b, bx), p) in enumerate(zip(P, case["pairs"])):
        o = res[n * per:(n + 1) * per]
        eta = p["eta"] if hc else 0.0
        mag = magscale(a, b, bx, l, g, cs) + eta * np.abs(phys(b, bx, l, g, cs)[0] - phys(a, bx, l, g, cs)[0])
        if l.cyl:
            mag = np.append(mag, mag[1])
        tol = 1e-9 * mag
        for j, w in ((3, a), (4, b)):
            if o[j] is None:
                need(fl == "exact", "solver stopped on equal states %s", w.tolist())
                continue
            U, F = phys(w, bx, l, g, cs)
            if l.cyl:
                F = np.append(F, (w[4] if l.adi else w[0] * cs * cs) + (0.5 * ((w[l.By:l.By + 2] ** 2).sum() + bx * bx) if l.mhd else 0.0))
                if not l.adi:
                    F[-1] = o[j][-1]           # not used for isothermal gas
            close(o[j], F, (1e-6 if fl == "exact" and l.adi else 1e-10) * mag, "consistency F(W,W)", w, bx)
        if o[0] is None:
            need(fl in ("exact", "two-shock"), "solver stopped on a physical pair %s %s", a.tolist(), b.tolist())
            disc += 1
            continue
        F = o[0]
        need(np.isfinite(F[:l.n]).all(), "flux not finite: %s for %s %s Bx=%g", F.tolist(), a.tolist(), b.tolist(), bx)
        nt = nt or not np.array_equal(a[:l.nw], b[:l.nw])
        et = 1e-5 if fl == "exact" and l.adi else 1e-9
        # scalars: mass flux times the upwind concentration
        for i in range(l.ns):
            w = F[0] * (a if F[0] >= 0 else b)[l.nw + i]
            need(abs(F[l.nw + i] - w) <= 1e-12 * mag[0], "scalar %d flux %g is not the mass flux %g times the upwind concentration (%g) for %s %s Bx=%g",
                 i, F[l.nw + i], F[0], w, a.tolist(), b.tolist(), bx)
        sens = np.zeros_like(mag)
        ref = None
        alt = None
        try:
            ref, alt, sens = reference(a, b, bx, l, g, cs, fl, eta)
        except rsref.Bad:
            pass
        tol = et * mag
        if ref is not None:
            tol = tol + np.append(sens, [0] * l.cyl)
            cand = [x for x in (ref, alt) if x is not None]
            ok = [np.all(np.abs(F[:l.n] - x) <= tol[:l.n]) for x in cand]
            need(any(ok), "%s flux %s differs from the reference %s (tol %s) for %s %s Bx=%g gamma=%g cs=%g eta=%g", fl, F.tolist(),
                 [x.tolist() for x in cand], tol.tolist(), a.tolist(), b.tolist(), bx, g, cs, eta)
        amb = ref is None or alt is not None or np.any(sens > 1e-8 * mag[:l.n])
        if not amb:
            if o[1] is not None and not tie(F, mag, a, b):
                M = mirF(o[1], l)
                if l.mhd:                      # B_x was reversed: transverse field fluxes and B_x B_y stresses transform as vectors
                    pass
                if l.cyl and l.adi and (fl != "roe" or np.abs(ev(a, b, bx, l, g, cs)).min() > 1e-7 * np.abs(ev(a, b, bx, l, g, cs)).max()):
                    close(M, F, tol, "mirror", a, b, bx)
                else:
                    close(M[:l.n], F[:l.n], tol[:l.n], "mirror", a, b, bx)
            R = rot(o[2], l, -p["rot"])
            close(R[:l.n], F[:l.n], 10 * tol[:l.n], "rotation about x", a, b, bx)
            G = o[5].copy()
            if l.mhd:
                G[l.By:l.By + 2] *= -1
            close(G[:l.n], F[:l.n], tol[:l.n], "field reversal", a, b, bx)
            q = res2[n]
            if q is not None:
                sU = np.array([un[0] * un[1]] + [un[0] * un[1] ** 2] * 3 + ([un[0] * un[1] ** 3] if l.adi else []) +
                              ([np.sqrt(un[0]) * un[1] ** 2] * 2 if l.mhd else []) + [un[0] * un[1]] * l.ns)
                close(q[:l.n] / sU, F[:l.n], tol[:l.n] + (1e-4 * mag[:l.n] if fl == "exact" and l.adi else 0), "change of units", a, b, bx)
        # supersonic flow: the upwind physical flux
        try:
            lo, hi = super_speeds(a, b, bx, l, g, cs, fl)
        except rsref.Bad:
            lo, hi = -1, 1
        s = fast(a, bx, l, g, cs) + fast(b, bx, l, g, cs) + abs(a[1]) + abs(b[1])
        if eta == 0 and (lo > 1e-6 * s or hi < -1e-6 * s):
            w = a if lo > 0 else b
            Fu = phys(w, bx, l, g, cs)[1]
            if l.cyl:
                Fu = np.append(Fu, (w[4] if l.adi else 0) + (0.5 * ((w[l.By:l.By + 2] ** 2).sum() + bx * bx) if l.mhd else 0.0))
                if not l.adi:
                    Fu[-1] = F[-1]
            Fu[l.nw:l.n] = F[l.nw:l.n]         # scalars follow the sign of the mass flux (above)
            close(F, Fu, (1e-6 if fl == "exact" and l.adi else 1e-9) * mag, "supersonic upwinding", a, b, bx)
        # discontinuities the solver resolves exactly
        contact(a, b, bx, l, g, cs, fl, F, mag, eta)
    if disc and not nt:
        raise Discard("vacuum")
    return nt, fl


def tie(F, mag, a, b):
    return abs(F[0]) < 1e-9 * mag[0]


def ev(a, b, bx, l, g, cs):
    return np.linalg.eigvals(rsref.roe_matrix(*rsref.roe_avg(a, b, bx, l, g, cs), bx, l, g, cs)).real


def super_speeds(a, b, bx, l, g, cs, fl):
    """speeds such that lo>0 (hi<0) means every wave of the solver moves right (left)"""
    cl, cr = fast(a, bx, l, g, cs), fast(b, bx, l, g, cs)
    if fl in ("hlle", "hllc", "force"):
        return rsref.hll_speeds(a, b, bx, l, g, cs)
    if fl == "roe":
        return rsref.roe_ev(a, b, bx, l, g, cs)
    if fl == "hlld":
        c = max(cl, cr)
        return min(a[1], b[1]) - c, max(a[1], b[1]) + c
    if l.adi:
        _, us, ps = rsref.exact_adi(a, b, g)
        lo = a[1] - cl * np.sqrt(max(1, (g + 1) / (2 * g) * ps / a[4] + (g - 1) / (2 * g)))
        hi = b[1] + cr * np.sqrt(max(1, (g + 1) / (2 * g) * ps / b[4] + (g - 1) / (2 * g)))
        return lo, hi
    z = (a[1] - b[1]) / cs
    q = 1 / np.sqrt(a[0]) + 1 / np.sqrt(b[0])
    z = 0.5 * (z + np.sqrt(z * z + 4 * q * (np.sqrt(a[0]) + np.sqrt(b[0])))) / q
    return a[1] - cs * max(1, z / np.sqrt(a[0])), b[1] + cs * max(1, z / np.sqrt(b[0]))


def reference(a, b, bx, l, g, cs, fl, eta):
    if fl == "roe":
        def f(x, y, z):
            return rsref.roe(x, y, z, l, g, cs, eta)
        ref, low, h = f(a, b, bx)
        alt = None
        if h is not None and low < 1e-6:
            ref, alt = (h, ref) if low < -1e-6 else (ref, h)
            if low < -1e-6:
                alt = None
        pick = (lambda t: t[0]) if h is None or low >= -1e-6 else (lambda t: t[2] if t[2] is not None else t[0])
    else:
        f = lambda x, y, z: rsref.REF[fl](x, y, z, l, g, cs)
        ref, alt = f(a, b, bx), None
        pick = lambda t: t
    # sensitivity of the definition itself to relative perturbations of 1e-11
    rs = np.random.RandomState(7)
    sens = 0
    for _ in range(3):
        q = lambda w: w * (1 + 1e-11 * rs.uniform(-1, 1, len(w)))
        x, y = q(a), q(b)
        z = bx * (1 + 1e-11 * rs.uniform(-1, 1))
        sens = np.maximum(sens, np.abs(pick(f(x, y, z)) - ref))
    sc = np.zeros(l.n)
    if np.any(sens > 1e-6 * magscale(a, b, bx, l, g, cs)):
        raise rsref.Bad()
    return ref, alt, 30 * sens + sc


def contact(a, b, bx, l, g, cs, fl, F, mag, eta):
    """a pair that is an isolated contact (or tangential) discontinuity moving at speed v must give the exact flux"""
    if fl not in ("exact", "roe", "hllc", "hlld", "two-shock") or not l.adi and fl != "two-shock" and not (fl == "exact"):
        return
    if eta:
        return
    if a[1] != b[1] or l.adi and a[4] != b[4]:
        return
    if not l.adi and a[0] != b[0]:
        return
    if l.mhd:
        if np.any(a[l.By:l.By + 2] != b[l.By:l.By + 2]) or (bx != 0 and np.any(a[2:4] != b[2:4])):
            return
    w = a if a[1] >= 0 else b
    Fu = phys(w, bx, l, g, cs)[1]
    close(F[:l.n], Fu, (1e-6 if fl == "exact" and l.adi else 1e-9) * mag[:l.n] + (1e-9 * mag[:l.n]), "isolated contact", a, b, bx)


# ------------------------------------------------------------------ special relativity
def srphys(W, bx, l, g):
    d, v, P = W[0], W[1:4], W[4]
    v2 = (v ** 2).sum()
    G2 = 1 / (1 - v2)
    G = np.sqrt(G2)
    w = d + g / (g - 1) * P
    B = np.array([bx, W[l.By], W[l.By + 1]]) if l.mhd else np.zeros(3)
    vB = (v * B).sum()
    B2 = (B ** 2).sum()
    b2 = B2 / G2 + vB ** 2
    bv = B / G + G * vB * v
    b0 = G * vB
    wt, pt = w + b2, P + 0.5 * b2
    M = wt * G2 * v - b0 * bv
    E = wt * G2 - pt - b0 * b0
    U = np.concatenate([[d * G], M, [E], B[1:] if l.mhd else []])
    F = np.concatenate([[d * G * v[0]], wt * G2 * v[0] * v - bv[0] * bv + np.array([pt, 0, 0]), [M[0]], (B[1:] * v[0] - bx * v[1:]) if l.mhd else []])
    return U, F


def srside(mhd):
    k = dict(d=logr(0.01, 10), t=logr(0.01, 10), sp=st.one_of(st.just(0.0), r(0, 0.9, 2), r(0.9, 0.98, 3)), th=r(-1, 1, 2), ph=r(0, 6.28, 2))
    if mhd:
        k["b"] = st.tuples(ZV, ZV).map(list)
    return st.fixed_dictionaries(k)


def srcase(mhd):
    p = st.fixed_dictionaries(dict(l=srside(mhd), r=srside(mhd), bx=ZV, rot=r(0, 6.28, 2), near=st.sampled_from([0, 0, 1])))
    return st.fixed_dictionaries(dict(pairs=st.lists(p, min_size=1, max_size=6), gamma=st.sampled_from([5 / 3., 4 / 3., 1.4])))


def srrows(p, l):
    out = []
    bs = np.sqrt(p["l"]["d"] * p["l"]["t"])
    for q in (p["l"], p["r"]):
        if p["near"] and out:
            q = dict(p["l"], d=p["l"]["d"] * 1.3, t=p["l"]["t"] * 0.9)
        c, s = q["th"], np.sqrt(1 - q["th"] ** 2)
        v = [q["sp"] * c, q["sp"] * s * np.cos(q["ph"]), q["sp"] * s * np.sin(q["ph"])]
        w = [q["d"]] + v + [q["d"] * q["t"]]
        if l.mhd:
            w += [x * bs for x in q["b"]]
        out.append(np.array(w))
    return out[0], out[1], (p["bx"] * bs if l.mhd else 0.0)


def srfn(case, c, exe):
    k = dict(c)
    l = Lay(c)
    g = case["gamma"]
    P = [srrows(p, l) for p in case["pairs"]]
    recs = []
    for (a, b, bx), p in zip(P, case["pairs"]):
        t = p["rot"]
        for w, x, y in [(a, b, bx), (mirror(b, l), mirror(a, l), -bx), (rot(a, l, t), rot(b, l, t), bx), (a, a, bx), (b, b, bx)]:
            recs.append((1, np.concatenate([w, x, [y, 0.0]])))
    res = call(exe["x"], recs, g, 1.0)
    nt = False
    for n, ((a, b, bx), p) in enumerate(zip(P, case["pairs"])):
        o = res[5 * n:5 * n + 5]
        mag = 0
        for w in (a, b):
            U, F = srphys(w, bx, l, g)
            m = np.abs(U[0]) + 0 * F
            m[1:5] = np.abs(U[4])
            if l.mhd:
                m[5:] = np.sqrt(np.abs(U[4]))
            mag = mag + m
        for j, w in ((3, a), (4, b)):
            if o[j] is None:
                need(k["flux"] == "exact", "solver stopped on equal states %s", w.tolist())
                continue
            close(o[j], srphys(w, bx, l, g)[1], (1e-5 if k["flux"] in ("exact", "hlld") else 1e-8) * mag, "consistency F(W,W)", w, bx)
        if o[0] is None:
            continue
        nt = nt or not np.array_equal(a, b)
        F = o[0]
        need(np.isfinite(F).all(), "flux not finite: %s for %s %s Bx=%g", F.tolist(), a.tolist(), b.tolist(), bx)
        et = {"exact": 1e-3, "hlld": 1e-5}.get(k["flux"], 1e-8)
        if k["flux"] == "exact" and not (p["near"] and max(p["l"]["sp"], p["r"]["sp"]) < 0.8):
            continue                           # its quadrature and root finder are only accurate for moderate jumps
        if o[1] is not None and k["flux"] != "hlld":
            close(mirF(o[1], l), F, et * mag, "mirror", a, b, bx)
        if o[2] is not None and k["flux"] != "hlld":
            close(rot(o[2], l, -p["rot"]), F, et * mag, "rotation about x", a, b, bx)
    return nt, k["flux"]


def subs(tier):
    out = []
    for gas, eos, f in NEWT:
        for ex in ({}, {"cyl": 1}):
            if ex and f == "two-shock":
                continue
            c = B.cfg(gas, eos, "2" if f != "two-shock" else "2", f, "ctu", 2, **ex)
            out.append(Sub(label(c), pairs(gas == "mhd", 2), (lambda case, exe, c=c: newt(case, c, exe)), {"x": hspec(c)}, 220, 6000))
        if f == "roe":
            c = B.cfg(gas, eos, "2", f, "ctu", 2, hcorr=1)
            out.append(Sub(label(c), pairs(gas == "mhd", 2), (lambda case, exe, c=c: newt(case, c, exe)), {"x": hspec(c)}, 150, 4000))
    for gas, f in SR:
        c = B.cfg(gas, "adiabatic", "2p", f, "vl", 0, sr=1)
        out.append(Sub(label(c), srcase(gas == "mhd"), (lambda case, exe, c=c: srfn(case, c, exe)), {"x": hspec(c)}, 150, 4000))
    return out
