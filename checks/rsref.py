"""Independent reference implementations of the published solvers (one interface at a time, longitudinal direction x)."""
import numpy as np
from .fn import phys, prim_of, fast

TINY = 1e-20


class Bad(Exception):
    """state pair outside the reference's well-defined range"""


def roe_avg(Wl, Wr, Bx, l, g, cs):
    sl, sr = np.sqrt(Wl[0]), np.sqrt(Wr[0])
    s = sl + sr
    v = (sl * Wl[1:4] + sr * Wr[1:4]) / s
    d = sl * sr
    b = np.zeros(2)
    X, Y = 0.0, 0.5 * (Wl[0] + Wr[0]) / d
    if l.mhd:
        bl, br = Wl[l.By:l.By + 2], Wr[l.By:l.By + 2]
        b = (sr * bl + sl * br) / s
        X = 0.5 * ((bl - br) ** 2).sum() / s ** 2
    h = 0.0
    if l.adi:
        H = []
        for W in (Wl, Wr):
            U, F = phys(W, Bx, l, g, cs)
            pb = 0.5 * ((W[l.By:l.By + 2] ** 2).sum() + Bx * Bx) if l.mhd else 0.0
            H.append((U[4] + W[4] + pb) / W[0])
        h = (sl * H[0] + sr * H[1]) / s
    return d, v, h, b, X, Y


def roe_matrix(d, v, h, b, X, Y, Bx, l, g, cs):
    """the Roe matrix (Stone et al. 2008, appendix B)"""
    n = l.nw
    A = np.zeros((n, n))
    vx, vy, vz = v
    v2 = (v ** 2).sum()
    A[0, 1] = 1
    A[2, :4] = [-vx * vy, vy, vx, 0]
    A[3, :4] = [-vx * vz, vz, 0, vx]
    g1 = g - 1
    if l.adi:
        A[1, :5] = [-vx * vx + 0.5 * g1 * v2, (3 - g) * vx, -g1 * vy, -g1 * vz, g1]
        A[4, :5] = [vx * (0.5 * g1 * v2 - h), h - g1 * vx * vx, -g1 * vx * vy, -g1 * vx * vz, g * vx]
    else:
        A[1, :2] = [cs * cs - vx * vx, 2 * vx]
    if l.mhd:
        i, j = l.By, l.By + 1
        by, bz = b
        A[2, i] = A[3, j] = -Bx
        A[i, 0], A[i, 1], A[i, 2], A[i, i] = (Bx * vy - by * vx) / d, by / d, -Bx / d, vx
        A[j, 0], A[j, 1], A[j, 3], A[j, j] = (Bx * vz - bz * vx) / d, bz / d, -Bx / d, vx
        if l.adi:
            Xp, Yp = (g - 2) * X, (g - 2) * Y
            A[1, 0] -= Xp
            A[1, i], A[1, j] = -by * Yp, -bz * Yp
            vb = Bx * vx + by * vy + bz * vz
            A[4, 0] += Bx * vb / d - vx * Xp
            A[4, 1] -= Bx * Bx / d
            A[4, 2] -= Bx * by / d
            A[4, 3] -= Bx * bz / d
            A[4, i], A[4, j] = -(Bx * vy + by * vx * Yp), -(Bx * vz + bz * vx * Yp)
        else:
            A[1, 0] += X
            A[1, i], A[1, j] = by * Y, bz * Y
    return A


def roe_ev(Wl, Wr, Bx, l, g, cs):
    """extreme eigenvalues of the Roe matrix"""
    d, v, h, b, X, Y = roe_avg(Wl, Wr, Bx, l, g, cs)
    e = np.linalg.eigvals(roe_matrix(d, v, h, b, X, Y, Bx, l, g, cs)).real
    return e.min(), e.max()


def hll_speeds(Wl, Wr, Bx, l, g, cs):
    lo, hi = roe_ev(Wl, Wr, Bx, l, g, cs)
    return min(lo, Wl[1] - fast(Wl, Bx, l, g, cs)), max(hi, Wr[1] + fast(Wr, Bx, l, g, cs))


def up(F, Wl, Wr, l):
    F = np.array(F)
    for i in range(l.ns):
        F[l.nw + i] = F[0] * (Wl if F[0] >= 0 else Wr)[l.nw + i]
    return F


def hlle(Wl, Wr, Bx, l, g, cs):
    Ul, Fl = phys(Wl, Bx, l, g, cs)
    Ur, Fr = phys(Wr, Bx, l, g, cs)
    al, ar = hll_speeds(Wl, Wr, Bx, l, g, cs)
    bm, bp = min(al, 0), max(ar, 0)
    return up((bp * Fl - bm * Fr + bp * bm * (Ur - Ul)) / (bp - bm), Wl, Wr, l)


def force(Wl, Wr, Bx, l, g, cs):
    Ul, Fl = phys(Wl, Bx, l, g, cs)
    Ur, Fr = phys(Wr, Bx, l, g, cs)
    al, ar = hll_speeds(Wl, Wr, Bx, l, g, cs)
    if min(abs(al), abs(ar)) < 1e-7 * (ar - al):
        raise Bad()                      # the definition jumps here
    if al >= 0:
        return Fl
    if ar <= 0:
        return Fr
    Uc = (ar * Ur - al * Ul + Fl - Fr) / (ar - al)
    Wc = prim_of(Uc, Bx, l, g, cs)
    if l.adi and Wc[4] < 1e-9 * abs(Uc[4]):
        raise Bad()
    Fc = phys(Wc, Bx, l, g, cs)[1]
    return up(0.5 * Fc + 0.5 * hlle(Wl, Wr, Bx, l, g, cs), Wl, Wr, l)


def hllc(Wl, Wr, Bx, l, g, cs):
    Ul, Fl = phys(Wl, Bx, l, g, cs)
    Ur, Fr = phys(Wr, Bx, l, g, cs)
    al, ar = hll_speeds(Wl, Wr, Bx, l, g, cs)
    if al >= 0:
        return up(Fl, Wl, Wr, l)
    if ar <= 0:
        return up(Fr, Wl, Wr, l)
    Pl, Pr = (Wl[4], Wr[4]) if l.adi else (Wl[0] * cs * cs, Wr[0] * cs * cs)
    ml, mr = Wl[0] * (al - Wl[1]), Wr[0] * (ar - Wr[1])
    sm = (Pr - Pl + Wl[1] * ml - Wr[1] * mr) / (ml - mr)
    ps = Pl + ml * (sm - Wl[1])
    W, U, F, s, P = (Wl, Ul, Fl, al, Pl) if sm >= 0 else (Wr, Ur, Fr, ar, Pr)
    if ps < 1e-9 * (Pl + Pr):
        raise Bad()
    Us = np.zeros_like(U)
    ds = W[0] * (s - W[1]) / (s - sm)
    Us[:4] = ds * np.array([1, sm, W[2], W[3]])
    if l.adi:
        Us[4] = ((s - W[1]) * U[4] - P * W[1] + ps * sm) / (s - sm)
    if not l.adi:
        # isothermal version: mass flux along the contact with the pressure of the contact
        Fx = sm / (sm - s) * (F - s * U)
        Fx[1] += -s / (sm - s) * ps
        return up(Fx, Wl, Wr, l)
    return up(F + s * (Us - U), Wl, Wr, l)


def hlld(Wl, Wr, Bx, l, g, cs):
    Ul, Fl = phys(Wl, Bx, l, g, cs)
    Ur, Fr = phys(Wr, Bx, l, g, cs)
    cl, cr = fast(Wl, Bx, l, g, cs), fast(Wr, Bx, l, g, cs)
    i = l.By
    sgn = 1.0 if Bx > 0 else -1.0
    if l.adi:
        c = max(cl, cr)
        S = [min(Wl[1], Wr[1]) - c, max(Wl[1], Wr[1]) + c]
    else:
        S = [min(Wl[1] - cl, Wr[1] - cr), max(Wl[1] + cl, Wr[1] + cr)]
    if S[0] >= 0:
        return up(Fl, Wl, Wr, l)
    if S[1] <= 0:
        return up(Fr, Wl, Wr, l)
    if l.adi:
        pt = [W[4] + 0.5 * (Bx * Bx + (W[i:i + 2] ** 2).sum()) for W in (Wl, Wr)]
        m = [W[0] * (s - W[1]) for W, s in zip((Wl, Wr), S)]
        sm = (pt[1] - pt[0] + m[0] * Wl[1] - m[1] * Wr[1]) / (m[0] - m[1])
        ps = pt[0] + m[0] * (sm - Wl[1])
        st = []
        for W, U, s, p, mm in ((Wl, Ul, S[0], pt[0], m[0]), (Wr, Ur, S[1], pt[1], m[1])):
            ds = mm / (s - sm)
            den = mm * (s - sm) - Bx * Bx
            if abs(den) < 1e-7 * ps:
                raise Bad()
            vs = W[2:4] - Bx * W[i:i + 2] * (sm - W[1]) / den
            bs = W[i:i + 2] * (mm * (s - W[1]) - Bx * Bx) / den
            vb = Bx * W[1] + (W[2:4] * W[i:i + 2]).sum()
            vbs = Bx * sm + (vs * bs).sum()
            es = ((s - W[1]) * U[4] - p * W[1] + ps * sm + Bx * (vb - vbs)) / (s - sm)
            Us = np.concatenate([[ds, ds * sm], ds * vs, [es], bs, np.zeros(l.ns)])
            st.append((ds, vs, bs, es, vbs, Us))
        q = [np.sqrt(x[0]) for x in st]
        if abs(0.5 * Bx * Bx - 1e-8 * ps) < 1e-10 * ps:
            raise Bad()
        sa = [sm - abs(Bx) / q[0], sm + abs(Bx) / q[1]]
        if 0.5 * Bx * Bx < 1e-8 * ps:
            D = [st[0][5], st[1][5]]
        else:
            s = q[0] + q[1]
            vd = (q[0] * st[0][1] + q[1] * st[1][1] + sgn * (st[1][2] - st[0][2])) / s
            bd = (q[0] * st[1][2] + q[1] * st[0][2] + sgn * q[0] * q[1] * (st[1][1] - st[0][1])) / s
            vbd = Bx * sm + (vd * bd).sum()
            D = []
            for x, z, e in ((st[0], q[0], -1), (st[1], q[1], 1)):
                ed = x[3] + e * z * sgn * (x[4] - vbd)
                D.append(np.concatenate([[x[0], x[0] * sm], x[0] * vd, [ed], bd, np.zeros(l.ns)]))
        if sa[0] >= 0:
            F = Fl + S[0] * (st[0][5] - Ul)
        elif sm >= 0:
            F = Fl + S[0] * (st[0][5] - Ul) + sa[0] * (D[0] - st[0][5])
        elif sa[1] > 0:
            F = Fr + S[1] * (st[1][5] - Ur) + sa[1] * (D[1] - st[1][5])
        else:
            F = Fr + S[1] * (st[1][5] - Ur)
        return up(F, Wl, Wr, l)
    ids = 1 / (S[1] - S[0])
    Uh = (S[1] * Ur - S[0] * Ul + Fl - Fr) * ids
    Fh = (S[1] * Fl - S[0] * Fr + S[0] * S[1] * (Ur - Ul)) * ids
    d = Uh[0]
    u = Fh[0] / d
    sa = [u - abs(Bx) / np.sqrt(d), u + abs(Bx) / np.sqrt(d)]
    st = []
    for W, U, s in ((Wl, Ul, S[0]), (Wr, Ur, S[1])):
        t = (s - sa[0]) * (s - sa[1])
        if min(abs(s / sa[0] - 1) if sa[0] else 1, abs(s / sa[1] - 1) if sa[1] else 1) < 1e-7:
            raise Bad()
        mf = Bx * (u - W[1]) / t
        bf = (W[0] * (s - W[1]) ** 2 - Bx * Bx) / (d * t)
        st.append(np.concatenate([[d, Uh[1]], d * W[2:4] - W[i:i + 2] * mf, W[i:i + 2] * bf, np.zeros(l.ns)]))
    if sa[0] >= 0:
        F = Fl + S[0] * (st[0] - Ul)
    elif sa[1] <= 0:
        F = Fr + S[1] * (st[1] - Ur)
    else:
        X = np.sqrt(d) * (-1.0 if Bx < 0 else 1.0)
        m = 0.5 * (st[0][2:4] + st[1][2:4] + X * (st[1][4:6] - st[0][4:6]))
        b = 0.5 * (st[0][4:6] + st[1][4:6] + (st[1][2:4] - st[0][2:4]) / X)
        F = np.concatenate([[Fh[0], Fh[1]], m * u - Bx * b, b * u - Bx * m / d, np.zeros(l.ns)])
    return up(F, Wl, Wr, l)


def two_shock(Wl, Wr, Bx, l, g, cs):
    a, b = np.sqrt(Wl[0]), np.sqrt(Wr[0])
    # density between two isothermal shocks: dv = cs*(sqrt(d/dl)-sqrt(dl/d)) + the same on the right
    q = (Wl[1] - Wr[1]) / cs
    z = 0.5 * (q + np.sqrt(q * q + 4 * (1 / a + 1 / b) * (a + b))) / (1 / a + 1 / b)
    v = Wl[1] - cs * (z / a - a / z)
    Fl, Fr = phys(Wl, 0, l, g, cs)[1], phys(Wr, 0, l, g, cs)[1]
    if Wr[1] + cs * z / b <= 0:
        return Fr
    if Wl[1] - cs * z / a >= 0:
        return Fl
    return phys(np.concatenate([[z * z, v], (Wl if v >= 0 else Wr)[2:]]), 0, l, g, cs)[1]


def spectrum(A, v, l, a2):
    """eigenvalues in increasing order (degenerate ones merged) and their spectral projectors"""
    n = len(A)
    if not l.mhd:
        if not a2 > 0:
            raise Bad()
        a = np.sqrt(a2)
        e = [v - a, v, v + a]
        I = np.eye(n)
        M = [A - x * I for x in e]
        return e, [M[1] @ M[2] / (2 * a * a), -M[0] @ M[2] / (a * a), M[0] @ M[1] / (2 * a * a)]
    try:
        e, R = np.linalg.eig(A)
        if np.abs(e.imag).max() > 1e-9 * np.abs(e).max() or np.linalg.cond(R) > 1e6:
            raise Bad()
        o = np.argsort(e.real)
        e, R = e.real[o], R.real[:, o]
        if np.linalg.cond(R) > 1e6:
            raise Bad()
        L = np.linalg.inv(R)
        if np.abs((R * e) @ L - A).max() > 1e-10 * np.abs(A).max():
            raise Bad()
    except np.linalg.LinAlgError:
        raise Bad()
    return list(e), [np.outer(R[:, i], L[i]) for i in range(n)]


def roe(Wl, Wr, Bx, l, g, cs, etah=0.0):
    """-> (flux, smallest density and thermal energy of the intermediate states relative to their scale, hlle flux)"""
    n = l.nw
    Ul, Fl = phys(Wl, Bx, l, g, cs)
    Ur, Fr = phys(Wr, Bx, l, g, cs)
    av = roe_avg(Wl, Wr, Bx, l, g, cs)
    A = roe_matrix(*av, Bx, l, g, cs)
    e, P = spectrum(A, av[1][0], l, (g - 1) * (av[2] - 0.5 * (av[1] ** 2).sum()) if l.adi else cs * cs)
    if e[0] >= 0:
        return up(Fl, Wl, Wr, l), 1.0, None
    if e[-1] <= 0:
        return up(Fr, Wl, Wr, l), 1.0, None
    dU = (Ur - Ul)[:n]
    F = 0.5 * (Fl + Fr)
    low = 1.0
    U = Ul[:n].copy()
    sc = max(abs(x) for x in e)
    for i in range(len(e)):
        w = P[i] @ dU
        F[:n] -= 0.5 * max(abs(e[i]), etah) * w
        U = U + w
        if i < len(e) - 1 and e[i + 1] - e[i] <= 1e-7 * sc:
            low = min(low, 0.0)          # splitting of a degenerate group is arbitrary: both branches are legitimate
        elif i < len(e) - 1:
            low = min(low, U[0] / (Wl[0] + Wr[0]))
            if l.adi and U[0] > 0:
                ei = U[4] - 0.5 * (U[1:4] ** 2).sum() / U[0]
                if l.mhd:
                    ei -= 0.5 * (U[5:7] ** 2).sum() + 0.5 * Bx * Bx
                low = min(low, ei / (Ul[4] + Ur[4]))
    return up(F, Wl, Wr, l), low, hlle(Wl, Wr, Bx, l, g, cs)


def _bis(f, a, b):
    fa = f(a)
    for _ in range(200):
        m = np.sqrt(a * b)
        fm = f(m)
        if (fm > 0) == (fa > 0):
            a = m
        else:
            b = m
        if b / a - 1 < 1e-15:
            break
    return np.sqrt(a * b)


def exact_adi(Wl, Wr, g, x=0.0):
    """primitive state (d, v, P, side) at x/t of the adiabatic Riemann problem (Toro ch. 4)"""
    dl, ul, pl, dr, ur, pr = Wl[0], Wl[1], Wl[4], Wr[0], Wr[1], Wr[4]
    al, ar = np.sqrt(g * pl / dl), np.sqrt(g * pr / dr)
    if 2 * (al + ar) / (g - 1) <= ur - ul:
        raise Bad()

    def f(p, d, pk, a):
        if p > pk:
            return (p - pk) * np.sqrt(2 / ((g + 1) * d) / (p + (g - 1) / (g + 1) * pk))
        return 2 * a / (g - 1) * ((p / pk) ** ((g - 1) / (2 * g)) - 1)
    fn = lambda p: f(p, dl, pl, al) + f(p, dr, pr, ar) + ur - ul
    lo, hi = 1e-14 * min(pl, pr), max(pl, pr)
    if fn(lo) > 0:
        raise Bad()
    while fn(hi) < 0:
        hi *= 10
    ps = _bis(fn, lo, hi)
    us = 0.5 * (ul + ur) + 0.5 * (f(ps, dr, pr, ar) - f(ps, dl, pl, al))
    sg, d, u, p, a = (-1, dl, ul, pl, al) if x <= us else (1, dr, ur, pr, ar)
    if ps > p:
        ds = d * (ps / p + (g - 1) / (g + 1)) / ((g - 1) / (g + 1) * ps / p + 1)
        S = u + sg * a * np.sqrt((g + 1) / (2 * g) * ps / p + (g - 1) / (2 * g))
        r = (d, u, p) if (x - S) * sg >= 0 else (ds, us, ps)
    else:
        ds, a2 = d * (ps / p) ** (1 / g), a * (ps / p) ** ((g - 1) / (2 * g))
        if (x - (u + sg * a)) * sg >= 0:
            r = (d, u, p)
        elif (x - (us + sg * a2)) * sg <= 0:
            r = (ds, us, ps)
        else:
            c = 2 / (g + 1) * (a - sg * (g - 1) / 2 * (u - x))
            r = (d * (c / a) ** (2 / (g - 1)), x - sg * c, p * (c / a) ** (2 * g / (g - 1)))
    return r + (sg,), us, ps


def exact_iso(Wl, Wr, cs, x=0.0):
    dl, ul, dr, ur = Wl[0], Wl[1], Wr[0], Wr[1]
    f = lambda d, k: cs * (np.sqrt(d / k) - np.sqrt(k / d)) if d > k else cs * np.log(d / k)
    fn = lambda d: f(d, dl) + f(d, dr) + ur - ul
    lo, hi = min(dl, dr), max(dl, dr)
    while fn(lo) > 0:
        lo *= 0.1
        if lo < 1e-250:
            raise Bad()
    while fn(hi) < 0:
        hi *= 10
    ds = _bis(fn, lo, hi)
    us = 0.5 * (ul + ur) + 0.5 * (f(ds, dr) - f(ds, dl))
    sg, d, u = (-1, dl, ul) if x <= us else (1, dr, ur)
    if ds > d:
        S = u + sg * cs * np.sqrt(ds / d)
        r = (d, u) if (x - S) * sg >= 0 else (ds, us)
    elif (x - (u + sg * cs)) * sg >= 0:
        r = (d, u)
    elif (x - (us + sg * cs)) * sg <= 0:
        r = (ds, us)
    else:
        r = (d * np.exp(-sg * (u - (x - sg * cs)) / cs), x - sg * cs)
    return r + (sg,), us, ds


def exact(Wl, Wr, Bx, l, g, cs):
    if l.adi:
        (d, u, p, s), us, _ = exact_adi(Wl, Wr, g)
    else:
        (d, u, s), us, _ = exact_iso(Wl, Wr, cs)
    W = (Wl if s < 0 else Wr).copy()
    W[0], W[1] = d, u
    if l.adi:
        W[4] = p
    return phys(W, 0.0, l, g, cs)[1]


REF = {"hlle": hlle, "hllc": hllc, "hlld": hlld, "force": force, "two-shock": two_shock, "exact": exact}
