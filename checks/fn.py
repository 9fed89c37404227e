"""Python side of src/h_fn.c, plus the reference formulas shared by the function-level checks."""
import os
from .common import *

H = os.path.join(B.HERE, "src", "h_fn.c")


def hspec(c, opt="-O1", extra=()):
    return spec(c, opt, extra, H)


class Fatal(Exception):
    pass


def call(exe, recs, gamma=5 / 3., cs=1.0):
    """recs: list of (op, array). Returns one array per record (None where the program stopped with a fatal error)."""
    out = []
    todo = list(recs)
    with ath.Scratch() as d:
        while todo:
            parts = [np.array([0, 2, gamma, cs])]
            for op, a in todo:
                a = np.asarray(a, float).ravel()
                parts.append(np.concatenate([[op, len(a)], a]))
            np.concatenate(parts).tofile(os.path.join(d, "in"))
            p = ath.launch(exe, ["in", "out"], d, timeout=30)
            a = np.fromfile(os.path.join(d, "out"), "<f8")
            o = n = 0
            while o + 2 <= len(a):
                m = int(a[o + 1])
                out.append(a[o + 2:o + 2 + m])
                o += 2 + m
                n += 1
            if n < len(todo):
                if p.timeout:
                    raise Violation("call did not return on %s" % (todo[n],))
                if p.rc < 0 or "Fatal" not in p.out and "error" not in p.out:
                    raise Violation("crash (status %d) on %s: %s" % (p.rc, todo[n], p.out[-200:]))
                out.append(None)
                todo = todo[n + 1:]
            else:
                todo = []
    return out


def cell(c, d, v, p, by=0.0, bz=0.0, sc=()):
    """a Prim1DS row"""
    k = dict(c)
    w = [d] + list(v)
    if k["eos"] == "adiabatic":
        w.append(p)
    if k["gas"] == "mhd":
        w += [by, bz]
    return w + list(sc)


class Lay:
    """indices in Prim1DS / Cons1DS"""

    def __init__(s, c):
        k = dict(c)
        s.adi, s.mhd = k["eos"] == "adiabatic", k["gas"] == "mhd"
        s.ns = int(k["nscal"])
        s.P = 4 if s.adi else None
        s.By = (5 if s.adi else 4) if s.mhd else None
        s.nw = 4 + s.adi + 2 * s.mhd
        s.n = s.nw + s.ns
        s.cyl = "cyl" in k
        s.nu = s.n + s.cyl


def phys(W, Bx, l, gamma, cs):
    """conserved variables and physical flux of primitive rows (Newtonian)"""
    W = np.asarray(W, float)
    d, vx, vy, vz = W[..., 0], W[..., 1], W[..., 2], W[..., 3]
    P = W[..., 4] if l.adi else d * cs * cs
    by, bz = (W[..., l.By], W[..., l.By + 1]) if l.mhd else (0 * d, 0 * d)
    b = Bx if l.mhd else 0 * d
    pt = P + 0.5 * (by * by + bz * bz + b * b)
    U, F = np.zeros(W.shape), np.zeros(W.shape)
    U[..., 0], U[..., 1], U[..., 2], U[..., 3] = d, d * vx, d * vy, d * vz
    F[..., 0] = d * vx
    F[..., 1] = d * vx * vx + pt - b * b
    F[..., 2] = d * vx * vy - b * by
    F[..., 3] = d * vx * vz - b * bz
    if l.adi:
        E = P / (gamma - 1) + 0.5 * d * (vx ** 2 + vy ** 2 + vz ** 2) + 0.5 * (by * by + bz * bz + b * b)
        U[..., 4] = E
        F[..., 4] = (E + pt) * vx - b * (vx * b + vy * by + vz * bz)
    if l.mhd:
        U[..., l.By], U[..., l.By + 1] = by, bz
        F[..., l.By] = by * vx - b * vy
        F[..., l.By + 1] = bz * vx - b * vz
    for i in range(l.ns):
        U[..., l.nw + i] = d * W[..., l.nw + i]
        F[..., l.nw + i] = d * vx * W[..., l.nw + i]
    return U, F


def prim_of(U, Bx, l, gamma, cs):
    U = np.asarray(U, float)
    W = U.copy()
    d = U[..., 0]
    for i in (1, 2, 3):
        W[..., i] = U[..., i] / d
    if l.adi:
        pb = 0.5 * (U[..., l.By] ** 2 + U[..., l.By + 1] ** 2 + Bx * Bx) if l.mhd else 0.0
        W[..., 4] = (gamma - 1) * (U[..., 4] - pb - 0.5 * (U[..., 1] ** 2 + U[..., 2] ** 2 + U[..., 3] ** 2) / d)
    for i in range(l.ns):
        W[..., l.nw + i] = U[..., l.nw + i] / d
    return W


def fast(W, Bx, l, gamma, cs):
    d = W[..., 0]
    a2 = gamma * W[..., 4] / d if l.adi else cs * cs + 0 * d
    if not l.mhd:
        return np.sqrt(a2)
    ct = (W[..., l.By] ** 2 + W[..., l.By + 1] ** 2) / d
    ca = Bx * Bx / d
    return np.sqrt(0.5 * (a2 + ct + ca + np.sqrt((ct + ca - a2) ** 2 + 4 * a2 * ct)))


def magscale(Wl, Wr, Bx, l, gamma, cs):
    """magnitude of each flux component"""
    s = 0
    for W in (Wl, Wr):
        d = W[..., 0]
        v = np.sqrt((W[..., 1:4] ** 2).sum(-1))
        sp = v + fast(W, Bx, l, gamma, cs) + (np.sqrt((Bx * Bx + W[..., l.By] ** 2 + W[..., l.By + 1] ** 2) / d) if l.mhd else 0)
        o = np.zeros(W.shape)
        o[..., 0] = d * sp
        for i in (1, 2, 3):
            o[..., i] = d * sp * sp
        if l.adi:
            o[..., 4] = d * sp ** 3 + W[..., 4] * gamma / (gamma - 1) * sp
        if l.mhd:
            o[..., l.By] = o[..., l.By + 1] = np.sqrt(d) * sp * sp
        for i in range(l.ns):
            o[..., l.nw + i] = d * sp * max(1e-3, np.abs(Wl[..., l.nw + i]).max(), np.abs(Wr[..., l.nw + i]).max())
        s = s + o
    return s
