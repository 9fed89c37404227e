"""Residual oracle: for generated smooth states, the rate of change produced by one very short step of the program is
compared with the differential equations evaluated independently on the same analytic state; the difference must vanish
with resolution.  Derivatives of the analytic state are taken by high-order differences of closed-form functions."""
from .common import *

H1 = 2e-3


def smooth_strategy(nd, gas, nscal=0, vmax=0.8, bmax=1.0, kmax=1):
    m = st.tuples(st.tuples(*[st.integers(-kmax, kmax) if d < nd else st.just(0) for d in range(3)]).map(list), r(0, 6.2, 1), r(0.3, 1, 1)).map(list)
    ml = st.lists(m, min_size=1, max_size=2)
    d = dict(rho0=r(0.5, 2, 1), p0=r(0.3, 2, 1), v0=st.tuples(*[r(-vmax, vmax, 1)] * 3).map(list), rho=ml, p=ml, v1=ml, v2=ml, v3=ml)
    if gas == "mhd":
        d.update(B0=st.tuples(*[r(-bmax, bmax, 1)] * 3).map(list), A1=ml, A2=ml, A3=ml)
    for i in range(nscal):
        d["s%d" % i] = ml
    return st.fixed_dictionaries(d)


class Smooth:
    """closed-form primitive fields on a box [x0, x0+L]; lg=True for cylindrical coordinates (x1=r, x2=phi)"""

    def __init__(self, s, L, x0, nd, gas, nscal, amp=0.15, vamp=0.2, bamp=0.2, cyl=False):
        self.s, self.L, self.x0, self.nd, self.gas, self.ns, self.cyl = s, L, x0, nd, gas, nscal, cyl
        self.amp, self.vamp, self.bamp = amp, vamp, bamp
        self.vphi = None        # a background azimuthal velocity that the stored state excludes

    def f(self, k, x):
        out = 0.0 * (x[0] + x[1] + x[2])
        for kk, ph, a in self.s[k]:
            out = out + a * np.sin(sum(2 * np.pi * kk[d] * (x[d] - self.x0[d]) / self.L[d] for d in range(3)) + ph)
        return out / len(self.s[k])

    def A(self, i, x):
        h = min(self.L[d] for d in range(self.nd)) / (2 * np.pi)
        if self.cyl:
            h = min(self.L[d] * (self.x0[0] if d == 1 else 1) for d in range(self.nd)) / (2 * np.pi)
        return self.bamp * h * self.f("A%d" % (i + 1), x)

    def d(self, fn, x, d):
        if d >= self.nd:
            return 0.0 * (x[0] + x[1] + x[2])
        h = H1 * self.L[d]

        def at(n):
            y = list(x)
            y[d] = x[d] + n * h
            return fn(y)
        return (45 * (at(1) - at(-1)) - 9 * (at(2) - at(-2)) + (at(3) - at(-3))) / (60 * h)

    def B(self, x):
        A = lambda i: (lambda y: self.A(i, y))
        B0 = self.s["B0"]
        if not self.cyl:
            return [B0[0] + self.d(A(2), x, 1) - self.d(A(1), x, 2), B0[1] + self.d(A(0), x, 2) - self.d(A(2), x, 0), B0[2] + self.d(A(1), x, 0) - self.d(A(0), x, 1)]
        rr = x[0]
        return [(B0[0] + self.d(A(2), x, 1)) / rr - self.d(A(1), x, 2), B0[1] + self.d(A(0), x, 2) - self.d(A(2), x, 0),
                B0[2] + (self.d(lambda y: y[0] * self.A(1, y), x, 0) - self.d(A(0), x, 1)) / rr]

    def prim(self, x, bare=False):
        s = self.s
        w = dict(rho=s["rho0"] * np.exp(self.amp * self.f("rho", x)), p=s["p0"] * np.exp(self.amp * self.f("p", x)),
                 v=[s["v0"][d] + self.vamp * self.f("v%d" % (d + 1), x) for d in range(3)], r=[0.5 + 0.3 * self.f("s%d" % i, x) for i in range(self.ns)])
        w["B"] = self.B(x) if self.gas == "mhd" else None
        if self.vphi is not None and not bare:
            w["v"][1] = w["v"][1] + self.vphi(x[0])
        return w

    def faces(self, N):
        """discretely divergence-free face fields"""
        dx = [self.L[d] / N[d] for d in range(3)]
        nd = self.nd
        e = [self.x0[d] + dx[d] * np.arange(N[d] + 1) if d < nd else np.array([self.x0[d]]) for d in range(3)]
        m = [self.x0[d] + dx[d] * (np.arange(N[d]) + 0.5) if d < nd else np.array([self.x0[d]]) for d in range(3)]
        g = lambda a: [a[0][None, None, :], a[1][None, :, None], a[2][:, None, None]]
        full = lambda a: np.zeros((len(a[2]), len(a[1]), len(a[0])))
        Ae = []
        for i in range(3):
            q = [m[d] if d == i else e[d] for d in range(3)]
            Ae.append(self.A(i, g(q)) + full(q))

        def df(a, d):
            return (np.diff(a, axis=2 - d) / dx[d]) if d < nd else 0.0
        B0 = self.s["B0"]
        if not self.cyl:
            return [B0[0] + df(Ae[2], 1) - df(Ae[1], 2) + self._z(N, 0), B0[1] + df(Ae[0], 2) - df(Ae[2], 0) + self._z(N, 1), B0[2] + df(Ae[1], 0) - df(Ae[0], 1) + self._z(N, 2)]
        ri, rc = e[0][None, None, :], m[0][None, None, :]
        return [(B0[0] + df(Ae[2], 1)) / ri - df(Ae[1], 2) + self._z(N, 0), B0[1] + df(Ae[0], 2) - df(Ae[2], 0) + self._z(N, 1),
                B0[2] + (df(Ae[1] * ri, 0) - df(Ae[0], 1)) / rc + self._z(N, 2)]

    def _z(self, N, d):
        n = [N[2], N[1], N[0]]
        if d < self.nd:
            n[2 - d] += 1
        return np.zeros(n)

    def cells(self, N):
        x = [self.x0[d] + self.L[d] / N[d] * (np.arange(N[d]) + 0.5) if d < self.nd else np.array([self.x0[d] + 0.5 * self.L[d] / N[d]]) for d in range(3)]
        return np.meshgrid(x[2], x[1], x[0], indexing="ij")[::-1]


class Newton:
    """Newtonian ideal (M)HD flux, conserved variables d,M,[E],[B],scalars"""

    def __init__(self, c, gamma, cs):
        d = dict(c)
        self.adi, self.mhd, self.ns = d["eos"] == "adiabatic", d["gas"] == "mhd", int(d["nscal"])
        self.gamma, self.cs = gamma, cs

    def P(self, w):
        return w["p"] if self.adi else self.cs ** 2 * w["rho"]

    def cons(self, w):
        return gen.cons(dict(w, Bc=w["B"]), "mhd" if self.mhd else "hydro", "adiabatic" if self.adi else "isothermal", self.gamma)

    def flux(self, w, d):
        rho, v, P = w["rho"], w["v"], self.P(w)
        B = w["B"] if self.mhd else [0, 0, 0]
        b2 = sum(b * b for b in B)
        vb = sum(a * b for a, b in zip(v, B))
        out = [rho * v[d]] + [rho * v[d] * v[i] - B[d] * B[i] + ((P + 0.5 * b2) if i == d else 0) for i in range(3)]
        if self.adi:
            E = P / (self.gamma - 1) + 0.5 * rho * sum(x * x for x in v) + 0.5 * b2
            out.append((E + P + 0.5 * b2) * v[d] - B[d] * vb)
        if self.mhd:
            out += [v[d] * B[i] - B[d] * v[i] + 0.0 * rho for i in range(3)]
        out += [rho * v[d] * s for s in w["r"]]
        return np.stack(np.broadcast_arrays(*out), -1)


class SR(Newton):
    def _b(self, w):
        v = w["v"]
        g2 = 1 / (1 - sum(x * x for x in v))
        B = w["B"] if self.mhd else [0 * w["rho"]] * 3
        vb = sum(a * b for a, b in zip(v, B))
        g = np.sqrt(g2)
        b = [(B[i] + g2 * vb * v[i]) / g for i in range(3)]
        b2 = sum(x * x for x in B) / g2 + vb ** 2
        h = w["rho"] + self.gamma / (self.gamma - 1) * w["p"]
        return g, g2, B, g * vb, b, b2, h + b2

    def cons(self, w):
        g, g2, B, b0, b, b2, W = self._b(w)
        p = w["p"] + 0.5 * b2
        out = [w["rho"] * g] + [W * g2 * w["v"][i] - b0 * b[i] for i in range(3)] + [W * g2 - p - b0 * b0]
        if self.mhd:
            out += list(B)
        return np.stack(np.broadcast_arrays(*out), -1)

    def flux(self, w, d):
        g, g2, B, b0, b, b2, W = self._b(w)
        v, p = w["v"], w["p"] + 0.5 * b2
        out = [w["rho"] * g * v[d]] + [W * g2 * v[i] * v[d] - b[i] * b[d] + (p if i == d else 0) for i in range(3)] + [W * g2 * v[d] - b0 * b[d]]
        if self.mhd:
            out += [v[d] * B[i] - B[d] * v[i] for i in range(3)]
        return np.stack(np.broadcast_arrays(*out), -1)


def rhs(sm, eq, x, extra=None):
    """-div F (+ extra terms) of the conserved variables at points x"""
    out = 0.0
    for d in range(sm.nd):
        out = out - sm.d(lambda y: eq.flux(sm.prim(y), d), x, d) if not sm.cyl else out
    if sm.cyl:
        rr = x[0][..., None]
        w = sm.prim(x)
        n = eq.flux(w, 0).shape[-1]
        # radial: (1/r) d(r F)/dr; azimuthal momentum (1/r^2) d(r^2 F)/dr; azimuthal field dF/dr
        F0 = sm.d(lambda y: eq.flux(sm.prim(y), 0) * y[0][..., None], x, 0) / rr
        Fm = sm.d(lambda y: eq.flux(sm.prim(y), 0)[..., 2] * y[0] ** 2, x, 0) / x[0] ** 2
        F0[..., 2] = Fm
        out = -F0
        if sm.nd > 1:
            out = out - sm.d(lambda y: eq.flux(sm.prim(y), 1), x, 1) / rr
        if sm.nd > 2:
            out = out - sm.d(lambda y: eq.flux(sm.prim(y), 2), x, 2)
        # M1 gains T_phiphi / r
        out[..., 1] += eq.flux(w, 1)[..., 2] / x[0]
        if eq.mhd:
            ib = 5 if eq.adi else 4
            out[..., ib + 1] = -sm.d(lambda y: eq.flux(sm.prim(y), 0)[..., ib + 1], x, 0) - (sm.d(lambda y: eq.flux(sm.prim(y), 2)[..., ib + 1], x, 2) if sm.nd > 2 else 0)
            # B1: only azimuthal and vertical derivatives (radial flux of B1 is zero)
    if extra is not None:
        out = out + extra(sm, eq, x)
    return out


def initial(sm, eq, N, cyl=False):
    x = sm.cells(N)
    w = sm.prim(x, True)
    Bf = None
    if eq.mhd:
        Bf = sm.faces(N)
        if cyl:
            from .feats import cellB_cyl
            w["B"] = cellB_cyl(Bf, N, sm.x0, sm.L)
        else:
            w["B"] = gen.cellB(Bf, N)
    U = eq.cons(w)
    if cyl:
        U = np.concatenate([U, np.zeros(U.shape[:3] + (1,))], -1)
    return x, U, Bf


def residual(exe, b, sm, eq, N, extra=None, skip=0, cyl=False, cour=2e-3, args=(), post=None):
    """-> (L1 error per variable, L1 norm of the analytic rate per variable)"""
    x, U, Bf = initial(sm, eq, N, cyl)
    b = dict(b, time=dict(b["time"], nlim=1, cour_no=cour))
    s = ath.final(exe, b, {(0, 0): (U, Bf)}, args=args)
    need(s.nstep == 1 and s.dt > 0, "one step was not taken")
    n = U.shape[3] - (1 if cyl else 0)
    with_t = s.time
    R = (s.U - U)[..., :n] / with_t
    T = rhs(sm, eq, x, extra)
    if post:
        T = post(T, x)
    sl = tuple(slice(skip if d < (1 if cyl else 0) else 0, -skip if d < (1 if cyl else 0) and skip else None) for d in (2, 1, 0))
    e = np.abs(R - T)[sl].reshape(-1, n)
    return e.mean(0), np.abs(T)[sl].reshape(-1, n).mean(0), np.abs(np.asarray(U[..., :n])).reshape(-1, n).mean(0)


def converge(exe, mk, sm, eq, N, c, floor=4e-3, ratio=0.7, extra=None, skip=0, cyl=False, what="", post=None):
    """errors at N and 2N; a term that is wrong leaves an error that does not shrink.  A suspicion has to be confirmed by
    the step from 2N to 4N."""
    dbl = lambda N: [2 * n if d < sm.nd else 1 for d, n in enumerate(N)]
    N2 = dbl(N)
    e1, t1, u = residual(exe, mk(N), sm, eq, N, extra, skip, cyl, post=post)
    e2, t2, u = residual(exe, mk(N2), sm, eq, N2, extra, 2 * skip, cyl, post=post)
    # momentum components and field components share scales
    sc = t2.copy()
    sc[1:4] = np.maximum(sc[1:4], t2[1:4].max())
    if eq.mhd:
        ib = 5 if eq.adi else 4
        sc[ib:ib + 3] = np.maximum(sc[ib:ib + 3], t2[ib:ib + 3].max())
    base = (u[1:4].max() + u[0]) / max(sm.L[:sm.nd])
    sc = np.maximum(sc, 1e-3 * base)
    bad = ~((e2 <= floor * sc) | (e2 <= ratio * e1))
    if bad.any():
        N4 = dbl(N2)
        e4, t4, u = residual(exe, mk(N4), sm, eq, N4, extra, 4 * skip, cyl, post=post)
        for i in np.nonzero(bad)[0]:
            need(e4[i] <= floor * sc[i] or e4[i] <= ratio * e2[i], "%s: rate of change of %s: mean error %.3e, %.3e, %.3e at N=%s and twice and four times that (typical rate %.3e): does "
                 "not converge to the equations", what, ath.names(c)[i], e1[i], e2[i], e4[i], N, sc[i])
    return float((t2 / np.maximum(u, 1e-12)).max())
