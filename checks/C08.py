"""Variable conversions, signal speeds and eigensystems, called directly on generated states.  Oracles: the defining formulas,
the round trip, and the Jacobian of the equations (built numerically from the formulas, not from the code's matrices)."""
from .common import *
from .fn import *
from .rsref import roe_matrix

RULE = ("A case is a batch of generated states (densities, pressures and fields over decades, velocities of either sign up to "
        "Mach 50 or Lorentz factor 100, degenerate field orientations included) for one configuration. Non-trivial: at least one "
        "state of the batch has non-zero velocity.")
ASSUMPTIONS = ["round-off tolerances scaled with the condition of each conversion (kinetic or magnetic over thermal energy)"]

NV = 12


def states(c, vmax=None, sr=False):
    k = dict(c)
    mhd = k["gas"] == "mhd"
    x = r(-1, 1, 2)
    one = st.fixed_dictionaries(dict(
        d=logr(1e-4, 1e4), p=logr(1e-4, 1e4) if not sr else logr(1e-3, 1e2), v=st.tuples(x, x, x).map(list),
        sp=st.one_of(st.just(0.0), logr(1e-3, 50)), b=st.tuples(x, x, x).map(list) if mhd else st.just([0, 0, 0]),
        bm=st.one_of(st.just(0.0), logr(1e-2, 20)) if mhd else st.just(0.0), s=st.tuples(r(-2, 2, 2), r(0, 1, 2)).map(list)))
    return st.fixed_dictionaries(dict(st=st.lists(one, min_size=1, max_size=NV), gamma=st.sampled_from([5 / 3., 1.4, 4 / 3., 1.05, 2.0]),
                                      cs=logr(0.05, 20)))


def rows(case, c, sr=False, mild=False):
    l = Lay(c)
    out = []
    for s in case["st"]:
        d, p = s["d"], s["p"]
        if sr:
            d = 10 ** (np.log10(d) / 4)
            p = s["p"] * d
        a = np.sqrt(case["gamma"] * p / d) if l.adi else case["cs"]
        n = np.sqrt(sum(q * q for q in s["v"]))
        if n == 0 or s["sp"] == 0:
            v = [0.0, 0.0, 0.0]
        elif sr:
            u = min(s["sp"], 100.0)           # |u| = gamma v
            sp = u / np.sqrt(1 + u * u)
            v = [q / n * sp for q in s["v"]]
        else:
            v = [q / n * s["sp"] * a for q in s["v"]]
        bm = s["bm"] * np.sqrt(2 * (p if l.adi else d * a * a))
        if sr:
            bm = min(s["bm"], 3.0) * np.sqrt(p)
        b = [q * bm for q in s["b"]]
        out.append((cell(c, d, v, p, b[1], b[2], s["s"][:l.ns]), b[0]))
    return out


def run_newt(case, c, exe):
    l = Lay(c)
    g, cs = case["gamma"], case["cs"]
    R = rows(case, c)
    recs = []
    for w, bx in R:
        # cell form: (d,V1..3,[P],[B1c,B2c,B3c],[r])
        full = list(w[:l.nw - 2 * l.mhd]) + ([bx] + list(w[l.By:l.By + 2]) if l.mhd else []) + list(w[l.nw:])
        recs += [(2, list(w) + [bx]), (6, full)]
    o = call(exe["x"], recs, g, cs)
    nt = False
    for n, (w, bx) in enumerate(R):
        w = np.array(w)
        a, b = o[2 * n], o[2 * n + 1]
        need(a is not None and b is not None, "conversion stopped the program on %s", list(w))
        U, F = phys(w, bx, l, g, cs)
        sc = np.abs(U) + 1e-300
        sc[1:4] = w[0] * np.abs(w[1:4]).max() + 1e-300
        got = a[:l.n]
        need((np.abs(got - U) <= 1e-13 * sc).all(), "conserved variables of %s Bx=%g are %s, should be %s", list(w), bx, list(got), list(U))
        W = a[l.nu:l.nu + l.n]
        ws = np.abs(w) + 1e-300
        ws[1:4] = np.abs(w[1:4]).max() + 1e-300
        if l.adi:
            ws[4] = w[4] + (g - 1) * abs(U[4])
        need((np.abs(W - w) <= 1e-13 * ws).all(), "primitive -> conserved -> primitive turns %s (Bx=%g) into %s", list(w), bx, list(W))
        # cell form must agree with the 1D form
        fU = np.concatenate([U[:l.nw - 2 * l.mhd], [bx, w[l.By], w[l.By + 1]] if l.mhd else [], U[l.nw:]])
        nc = l.n + l.mhd
        need((np.abs(b[:nc] - fU) <= 1e-13 * (np.abs(fU) + (sc[1] if 1 else 0))).all(), "cell conversion of %s gives %s, should be %s", list(w), list(b[:nc]), list(fU))
        back = b[nc + l.cyl:nc + l.cyl + nc]
        full = np.concatenate([w[:l.nw - 2 * l.mhd], [bx, w[l.By], w[l.By + 1]] if l.mhd else [], w[l.nw:]])
        fs = np.concatenate([ws[:l.nw - 2 * l.mhd], [abs(bx) + 1e-300] + list(ws[l.By:l.By + 2]) if l.mhd else [], ws[l.nw:]])
        need((np.abs(back - full) <= 1e-13 * fs).all(), "cell round trip turns %s into %s", list(full), list(back))
        # signal speed: largest characteristic speed of the Jacobian, measured from the gas
        cf = fast(w, bx, l, g, cs)
        need(abs(a[-1] - cf) <= 1e-12 * cf, "fast speed from primitives %.15g, should be %.15g for %s Bx=%g", a[-1], cf, list(w), bx)
        if l.adi:
            tol = 1e-13 * (1 + abs(U[4]) * (g - 1) / w[4])
        else:
            tol = 1e-12
        need(abs(a[-2] - cf) <= 10 * tol * cf, "fast speed from conserved %.15g, should be %.15g for %s Bx=%g", a[-2], cf, list(w), bx)
        nt = nt or np.abs(w[1:4]).max() > 0
    return bool(nt), "n=%d" % len(R)


def sr_cons(w, bx, l, g):
    d, v, p = w[0], w[1:4], w[4]
    v2 = (v * v).sum()
    G2 = 1 / (1 - v2)
    h = d + g / (g - 1) * p
    B = np.array([bx, w[l.By], w[l.By + 1]]) if l.mhd else np.zeros(3)
    vB = (v * B).sum()
    B2 = (B * B).sum()
    M = (h * G2 + B2) * v - vB * B
    E = h * G2 - p + 0.5 * B2 + 0.5 * (v2 * B2 - vB ** 2)
    return np.concatenate([[d * np.sqrt(G2)], M, [E], B[1:] if l.mhd else []])


def run_sr(case, c, exe):
    l = Lay(c)
    g = case["gamma"]
    R = rows(case, c, sr=True)
    o = call(exe["x"], [(2, list(w) + [bx]) for w, bx in R], g, 1.0)
    nt = False
    for (w, bx), a in zip(R, o):
        w = np.array(w)
        need(a is not None, "conversion stopped the program on %s", list(w))
        U = sr_cons(w, bx, l, g)
        sc = np.abs(U).copy()
        sc[1:4] = np.abs(U[1:4]).max() + 1e-300
        got = a[:l.n]
        G2 = 1 / (1 - (w[1:4] ** 2).sum())
        need((np.abs(got - U) <= 1e-12 * G2 * (sc + 1e-300)).all(), "relativistic conserved variables of %s Bx=%g are %s, should be %s", list(w), bx, list(got), list(U))
        W = a[l.nu:l.nu + l.n]
        need(np.isfinite(W).all(), "recovered primitives of %s (Bx=%g) are %s", list(w), bx, list(W))
        V2 = (W[1:4] ** 2).sum()
        need(W[0] > 0 and W[4] > 0 and V2 < 1, "recovered primitives of %s (Bx=%g) are unphysical: %s", list(w), bx, list(W))
        # backward error: what is recovered must reproduce the conserved state
        U2 = sr_cons(W, bx, l, g)
        tol = 1e-9 if not l.mhd else 1e-7
        es = np.abs(U).max() + 1e-300
        e = (np.abs(U2 - U) / es).max()
        if np.sqrt(G2) <= 10:
            need(e <= tol, "recovered primitives %s of %s (Bx=%g) carry other conserved variables (%.2e)", list(W), list(w), bx, e)
            cond = es / w[4]
            need((np.abs(W[1:4] - w[1:4]) <= 1e-9 * G2 * max(1, cond) + tol).all(), "relativistic round trip turns %s (Bx=%g) into %s", list(w), bx, list(W))
        nt = nt or np.abs(w[1:4]).max() > 0
    return bool(nt), "n=%d" % len(R)


def prim_matrix(w, bx, l, g, cs):
    n = l.nw
    A = np.zeros((n, n))
    d, vx = w[0], w[1]
    for i in range(n):
        A[i, i] = vx
    A[0, 1] = d
    if l.adi:
        A[1, 4] = 1 / d
        A[4, 1] = g * w[4]
    else:
        A[1, 0] = cs * cs / d
    if l.mhd:
        i, j = l.By, l.By + 1
        A[1, i], A[1, j] = w[i] / d, w[j] / d
        A[2, i] = A[3, j] = -bx / d
        A[i, 1], A[i, 2] = w[i], -bx
        A[j, 1], A[j, 3] = w[j], -bx
    return A


def judge(ev, Rm, Lm, A, S, what, deg):
    """S: natural scale of each variable; deg: nearly degenerate speeds (weaker conditioning)"""
    n = len(ev)
    As = A * S[None, :] / S[:, None]
    Rs = Rm / S[:, None]
    Ls = Lm * S[None, :]
    lam = np.abs(ev).max() + np.abs(As).max()
    cond = (np.linalg.norm(Rs, axis=0) * np.linalg.norm(Ls, axis=1)).max()
    if not (np.isfinite(cond) and np.isfinite(ev).all()):
        raise Violation("%s: eigensystem is not finite: %s" % (what, list(ev)))
    tol = 1e-9 * max(1.0, cond)
    if deg:
        tol = max(tol, 1e-5)
    need((np.diff(ev) >= -1e-9 * lam).all(), "%s: eigenvalues out of order: %s", what, list(ev))
    e = np.abs(Ls @ Rs - np.eye(n)).max()
    need(e <= tol, "%s: left and right eigenvectors are not inverse to each other (error %.2e)", what, e)
    e = np.abs(As @ Rs - Rs * ev[None, :]).max() / lam / max(1e-300, np.abs(Rs).max())
    need(e <= tol, "%s: right eigenvectors do not belong to the eigenvalues of the equations (error %.2e, ev %s)", what, e, list(ev))
    e = np.abs(Ls @ As - ev[:, None] * Ls).max() / lam / max(1e-300, np.abs(Ls).max())
    need(e <= tol, "%s: left eigenvectors do not belong to the eigenvalues of the equations (error %.2e, ev %s)", what, e, list(ev))


def run_eig(case, c, exe):
    l = Lay(c)
    g, cs = case["gamma"], case["cs"]
    n = l.nw
    R = rows(case, c)
    recs = []
    roe = []
    for w, bx in R:
        w = np.array(w)
        U, F = phys(w, bx, l, g, cs)
        h = 0.0
        if l.adi:
            h = (U[4] + w[4] + (0.5 * (bx * bx + w[l.By] ** 2 + w[l.By + 1] ** 2) if l.mhd else 0)) / w[0]
        X, Y = (abs(np.sin(w[0])) * 0.3 * w[0], 1.0) if l.mhd else (0.0, 0.0)
        X, Y = 0.0, 1.0
        if l.mhd and case["st"][0]["s"][0] > 0:
            # the X and Y factors of a pair of different states
            X = 0.25 * (w[l.By] ** 2 + w[l.By + 1] ** 2) / (2 * w[0]) * 0.3
            Y = 0.8
        by, bz = (w[l.By], w[l.By + 1]) if l.mhd else (0, 0)
        roe.append((w[0], w[1:4], h, (by, bz), X, Y))
        recs += [(3, list(w) + [bx]), (4, [w[1], w[2], w[3], h, w[0], bx, by, bz, X, Y])]
    o = call(exe["x"], recs, g, cs)
    nt = False
    for k, (w, bx) in enumerate(R):
        w = np.array(w)
        cf = fast(w, bx, l, g, cs)
        d = w[0]
        S = [d] + [cf] * 3 + ([d * cf * cf] if l.adi else []) + ([np.sqrt(d) * cf] * 2 if l.mhd else [])
        S = np.array(S)
        a2 = g * w[4] / d if l.adi else cs * cs
        deg = False
        if l.mhd:
            ca2, bt2 = bx * bx / d, (w[l.By] ** 2 + w[l.By + 1] ** 2) / d
            tot = a2 + ca2 + bt2
            rel = [ca2 / tot, bt2 / tot, a2 / tot, abs(ca2 - a2) / tot]
            deg = any(0 < q < 1e-6 for q in rel)
            if deg:
                continue
        what = "primitive eigensystem at %s Bx=%g" % (list(w), bx)
        a = o[2 * k]
        need(a is not None, "%s: program stopped", what)
        ev, Rm, Lm = a[:n], a[n:n + n * n].reshape(n, n), a[n + n * n:].reshape(n, n)
        judge(ev, Rm, Lm, prim_matrix(w, bx, l, g, cs), S, what, deg)
        need(abs(ev[-1] - (w[1] + cf)) <= 1e-9 * (abs(w[1]) + cf) and abs(ev[0] - (w[1] - cf)) <= 1e-9 * (abs(w[1]) + cf),
             "%s: extreme eigenvalues %s are not v +- fast speed %.12g", what, list(ev), cf)
        a = o[2 * k + 1]
        what = "Roe eigensystem at %s" % (roe[k],)
        need(a is not None, "%s: program stopped", what)
        ev, Rm, Lm = a[:n], a[n:n + n * n].reshape(n, n), a[n + n * n:].reshape(n, n)
        dd, v, h, b, X, Y = roe[k]
        sp = np.abs(w[1:4]).max() + cf
        S2 = np.array([d] + [d * sp] * 3 + ([d * sp * sp] if l.adi else []) + ([np.sqrt(d) * sp] * 2 if l.mhd else []))
        if np.abs(w[1:4]).max() > 20 * cf:
            continue
        vv = np.abs(w[1:4]).max() / np.sqrt(a2)
        if vv > 20 or (l.mhd and cf > 30 * np.sqrt(a2)):
            continue
        judge(ev, Rm, Lm, roe_matrix(dd, v, h, b, X, Y, bx, l, g, cs), S2, what, deg)
        if X == 0 and Y == 1:
            need(abs(ev[-1] - (w[1] + cf)) <= 1e-7 * sp and abs(ev[0] - (w[1] - cf)) <= 1e-7 * sp,
                 "%s: extreme eigenvalues %s are not v +- fast speed %.12g", what, list(ev), cf)
        nt = nt or np.abs(w[1:4]).max() > 0
    return bool(nt), "n=%d" % len(R)


def subs(tier):
    out = []
    for gas in ("hydro", "mhd"):
        for eos in ("adiabatic", "isothermal"):
            c = B.cfg(gas, eos, "2", "roe", "ctu", 2)
            out.append(Sub("convert-%s-%s" % (gas, eos), states(c), (lambda case, exe, c=c: run_newt(case, c, exe)), {"x": hspec(c)}, 300, shards=2))
            out.append(Sub("eigen-%s-%s" % (gas, eos), states(c), (lambda case, exe, c=c: run_eig(case, c, exe)), {"x": hspec(c)}, 500, shards=4))
        c = B.cfg(gas, "adiabatic", "2", "roe", "ctu", 1, cyl=1)
        out.append(Sub("convert-%s-cyl" % gas, states(c), (lambda case, exe, c=c: run_newt(case, c, exe)), {"x": hspec(c)}, 100))
        c = B.cfg(gas, "adiabatic", "2p", "hllc", "vl", 0, sr=1)
        out.append(Sub("convert-%s-sr" % gas, states(c, sr=True), (lambda case, exe, c=c: run_sr(case, c, exe)), {"x": hspec(c)}, 400, shards=4))
    return out
