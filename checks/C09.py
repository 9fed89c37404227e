"""Interface reconstruction (lr_states), called directly on generated one-dimensional data for every order and integrator."""
from .common import *
from .fn import *
from .C08 import prim_matrix

RULE = ("A case is a pencil of generated cell averages (uniform, linear, quadratic or rough in every variable), a cell size and a time "
        "step, reconstructed directly by the compiled lr_states of one configuration. Non-trivial: the interface states differ from the "
        "adjacent averages (first order: the data are not uniform).")
ASSUMPTIONS = ["round-off tolerance 1e-12 of the data range plus value; the traced states of characteristic variables not reaching the "
               "interface are not constrained for Roe-type solvers"]

NG = 4


def strat(c, kinds):
    k = dict(c)
    x = r(-1, 1, 2)
    return st.fixed_dictionaries(dict(
        nx=st.integers(1, 6), seed=st.integers(0, 10 ** 6), d=logr(0.1, 10), p=logr(0.1, 10), v=st.tuples(r(-2, 2, 2), x, x).map(list),
        b=st.tuples(x, x, x).map(list), s=st.tuples(x, x).map(list), dx=logr(0.02, 5), cfl=st.one_of(st.just(0.0), r(0, 0.9, 1)), g=st.sampled_from([5 / 3., 1.4, 1.1]),
        cs=logr(0.3, 3), kind=st.sampled_from(kinds), amp=r(0, 1, 2), dir=st.integers(1, 3), r0=r(1, 5, 1), j=st.integers(0, 20),
        vk=st.lists(st.sampled_from(["rough", "step", "mono", "const"]), min_size=9, max_size=9)))


def base(case, c):
    l = Lay(c)
    return np.array(cell(c, case["d"], case["v"], case["p"], case["b"][1], case["b"][2], case["s"][:l.ns]), float), l


def scale(case, l):
    """natural amplitude of each variable"""
    a = np.sqrt(case["g"] * case["p"] / case["d"]) if l.adi else case["cs"]
    S = [case["d"]] + [a] * 3 + ([case["p"]] if l.adi else []) + ([np.sqrt(case["d"]) * a] * 2 if l.mhd else []) + [1.0] * l.ns
    return np.array(S)


def lr(exe, case, l, Ws, dts, dir_=None):
    """several pencils in one call -> list of (Wl, Wr)"""
    recs = []
    for W, (dt, bx) in zip(Ws, dts):
        n = len(W)
        recs.append((5, np.concatenate([[n - 2 * NG, dt, case["dx"], dir_ or case["dir"], case["r0"] + NG * case["dx"]], W.ravel(), np.full(n, bx)])))
    out = []
    for o in call(exe["x"], recs, case["g"], case["cs"]):
        need(o is not None, "reconstruction stopped the program")
        h = len(o) // 2
        out.append((o[:h].reshape(-1, l.n), o[h:].reshape(-1, l.n)))
    return out


def rough(case, c):
    W0, l = base(case, c)
    S = scale(case, l)
    rs = np.random.RandomState(case["seed"])
    n = case["nx"] + 2 * NG
    W = np.tile(W0, (n, 1))
    for v in range(l.n):
        k = case["vk"][v]
        u = 2 * rs.rand(n) - 1
        if k == "const":
            f = np.zeros(n)
        elif k == "step":
            f = np.where(np.arange(n) < rs.randint(n), -1.0, 1.0)
        elif k == "mono":
            f = np.sort(u) * (1 if rs.rand() > 0.5 else -1)
        else:
            f = u
        if v == 0 or (l.adi and v == 4):
            W[:, v] = W0[v] * np.exp(case["amp"] * f)
        else:
            W[:, v] = W0[v] + case["amp"] * S[v] * f
    return W, l, S


def dt_of(case, W, l):
    cf = fast(W, case["b"][0], l, case["g"], case["cs"])
    return case["cfl"] * case["dx"] / (np.abs(W[:, 1]) + cf).max()


def close(a, b, sc, tol, msg, *args):
    e = np.abs(a - b) / sc
    if not (e <= tol).all():
        i = np.unravel_index(np.argmax(np.where(np.isfinite(e), e, np.inf)), e.shape)
        raise Violation("%s: interface %d variable %d is %.15g, should be %.15g" % ((msg % args if args else msg), i[0], i[1], a[i], b[i] if np.ndim(b) == np.ndim(a) else b))


def run_basic(case, c, exe):
    """uniform, linear, quadratic data with and without tracing"""
    d = dict(c)
    W0, l = base(case, c)
    S = scale(case, l)
    n = case["nx"] + 2 * NG
    bx = case["b"][0]
    cyl1 = "cyl" in d and case["dir"] == 1
    rs = np.random.RandomState(case["seed"])
    # uniform
    W = np.tile(W0, (n, 1))
    dt = dt_of(case, W, l)
    mag = np.abs(W0) + S
    for Wl, Wr in lr(exe, case, l, [W, W], [(0.0, bx), (dt, bx)]):
        close(Wl, np.tile(W0, (len(Wl), 1)), mag, 1e-13, "uniform data, left state")
        close(Wr, np.tile(W0, (len(Wr), 1)), mag, 1e-13, "uniform data, right state")
    if d["order"] == "1":
        return False, "uniform"
    # linear
    sl = case["amp"] * 0.5 / n * S * (2 * rs.rand(l.n) - 1)
    x = np.arange(n) - 0.5 * (n - 1)
    W = W0 + x[:, None] * sl
    nt = case["amp"] > 0
    if cyl1:
        if d["order"] != "2":
            # the other orders do not claim exactness in radius: the parabolic one limits slopes of r*W, the primitive
            # ones carry no curvature weights
            return False, "cyl-uniform"
        # volume averages of a function linear in radius
        rc = case["r0"] + (np.arange(n) + 0.5) * case["dx"]
        W = W0 + ((rc - rc.mean() + case["dx"] ** 2 / (12 * rc)) / case["dx"])[:, None] * sl
        rf = case["r0"] + (NG + np.arange(case["nx"] + 1)) * case["dx"]
        ex = W0 + ((rf - rc.mean()) / case["dx"])[:, None] * sl
        Wl, Wr = lr(exe, case, l, [W], [(0.0, bx)])[0]
        close(Wl, ex, mag, 1e-11, "linear data in radius, left state")
        close(Wr, ex, mag, 1e-11, "linear data in radius, right state")
        return bool(nt), "cyl-linear"
    (Wl, Wr), (Tl, Tr) = lr(exe, case, l, [W, W], [(0.0, bx), (dt, bx)])
    m = case["nx"] + 1
    iL = NG - 1 + np.arange(m)
    exL, exR = W[iL] + 0.5 * sl, W[iL + 1] - 0.5 * sl
    close(Wl, exL, mag, 1e-12, "linear data, left state")
    close(Wr, exR, mag, 1e-12, "linear data, right state")
    if d["integ"] == "vl":
        close(Tl, exL, mag, 1e-12, "linear data with a time step, left state")
        close(Tr, exR, mag, 1e-12, "linear data with a time step, right state")
    elif dt > 0:
        hll = d["flux"] in ("hlle", "hllc", "hlld", "force")
        for k in range(m):
            for side in (0, 1):
                i = iL[k] + side
                w = W[i]
                A = prim_matrix(w, bx, l, case["g"], case["cs"])
                full = (exL, exR)[side][k] - 0.5 * dt / case["dx"] * np.concatenate([A @ sl[:l.nw], w[1] * sl[l.nw:]])
                got = (Tl, Tr)[side][k]
                err = (got - full)
                # scalars: only when moving towards the interface
                sg = 1 if side == 0 else -1
                if sg * w[1] > 0:
                    close(got[None, l.nw:], full[None, l.nw:], mag[None, l.nw:], 1e-12, "traced scalar, linear data, side %d", side)
                cf = fast(w, bx, l, case["g"], case["cs"])
                if abs(w[1]) < 1e-9 * cf:
                    continue        # exactly stationary waves carry nothing to either side
                full_ok = hll and sg * w[1] + cf > 0        # the downwind state of a supersonic flow is not traced in full
                if full_ok and not l.mhd:
                    close(got[None, :l.nw], full[None, :l.nw], mag[None, :l.nw], 1e-11, "traced linear data, side %d", side)
                else:
                    ev, R = np.linalg.eig(A / S[:l.nw][:, None] * S[:l.nw][None, :])
                    if np.abs(ev.imag).max() > 1e-7 or np.linalg.cond(R) > 1e6:
                        continue
                    Li = np.linalg.inv(R).real
                    ev = ev.real
                    sel = sg * ev > 1e-7 * np.abs(ev).max()
                    if full_ok:
                        sel = np.abs(ev) > 1e-7 * np.abs(ev).max()
                    am = Li[sel] @ (err[:l.nw] / S[:l.nw])
                    need(np.abs(am).max(initial=0) <= 1e-8, "traced linear data, side %d: characteristic amplitudes off by %s (state %s)", side, list(am), list(w))
    if d["order"] in ("3p", "3pck", "3pcl"):
        # quadratic cell averages in the passively moving variables
        W = np.tile(W0, (n, 1))
        vs = list(range(l.nw, l.n))
        if not l.mhd:
            vs += [2, 3]
        if l.adi:
            vs.append(0)
        if d["integ"] == "vl":
            vs = list(range(l.n))
        b = 0.1 * S * np.where(rs.rand(l.n) > 0.5, 1, -1) * (0.2 + 0.8 * rs.rand(l.n)) / n
        cc = b * (2 * rs.rand(l.n) - 1) * 0.45 / n
        q = lambda y, v: W0[v] + b[v] * y + cc[v] * y * y
        Q = lambda y, v: W0[v] * y + b[v] * y * y / 2 + cc[v] * y ** 3 / 3
        for v in vs:
            W[:, v] = Q(x + 0.5, v) - Q(x - 0.5, v)
        (Wl, Wr), (Tl, Tr) = lr(exe, case, l, [W, W], [(0.0, bx), (dt, bx)])
        xf = x[iL] + 0.5
        for v in vs:
            ex = q(xf, v)
            close(Wl[:, [v]], ex[:, None], mag[v], 1e-12, "quadratic data, left state")
            close(Wr[:, [v]], ex[:, None], mag[v], 1e-12, "quadratic data, right state")
            if d["integ"] == "ctu":
                vx = W0[1]
                cn = vx * dt / case["dx"]
                if abs(cn) > 1e-3:
                    ex = (Q(xf, v) - Q(xf - cn, v)) / cn
                    got = Tl if vx > 0 else Tr
                    close(got[:, [v]], ex[:, None], mag[v], 1e-11, "traced quadratic data of an advected variable")
        nt = True
    return bool(nt), "%s" % d["order"]


def run_rough(case, c, exe):
    """range, mirror, stencil, component exchange on rough data"""
    d = dict(c)
    W, l, S = rough(case, c)
    n = len(W)
    bx = case["b"][0]
    dt = dt_of(case, W, l)
    mag = np.abs(W).max(0) + S
    m = case["nx"] + 1
    cyl1 = "cyl" in d and case["dir"] == 1
    M = W[::-1].copy()
    M[:, 1] *= -1
    # transverse exchange
    X = W.copy()
    X[:, [2, 3]] = W[:, [3, 2]]
    if l.mhd:
        X[:, [l.By, l.By + 1]] = W[:, [l.By + 1, l.By]]
    # scalar exchange
    Y = W.copy()
    if l.ns > 1:
        Y[:, [l.nw, l.nw + 1]] = W[:, [l.nw + 1, l.nw]]
    # one cell changed
    j = case["j"] % n
    Z = W.copy()
    Z[j] = W[j] * 1.5 + 0.3 * S
    # scaled data, variable by variable (pure primitive reconstruction only)
    rs = np.random.RandomState(case["seed"] + 5)
    f, g0 = rs.rand(l.n) + 0.5, rs.rand(l.n)
    V = W * f + g0
    (Pl, Pr), (Tl, Tr), (Ml, Mr), (Xl, Xr), (Yl, Yr), (Zl, Zr), (Vl, Vr) = lr(
        exe, case, l, [W, W, M, X, Y, Z, V], [(0.0, bx), (dt, bx), (dt, -bx), (dt, bx), (dt, bx), (dt, bx), (0.0, bx)])
    for a in (Pl, Pr, Tl, Tr):
        need(np.isfinite(a).all(), "non-finite interface state")
    iL = NG - 1 + np.arange(m)
    o = d["order"]
    A, C = W[iL], W[iL + 1]
    if o == "1":
        need((Tl == A).all() and (Tr == C).all(), "first-order interface states are not the adjacent averages")
    lo, hi = np.minimum(A, C), np.maximum(A, C)
    if o in ("2", "2p", "3", "3pck") and not cyl1:
        t = 1e-12 * mag
        for nm, a in (("left", Pl), ("right", Pr)):
            bad = (a < lo - t) | (a > hi + t)
            if bad.any():
                i = np.argwhere(bad)[0]
                raise Violation("%s state %.15g of variable %d leaves the range [%.15g,%.15g] of the adjacent averages" % (nm, a[tuple(i)], i[1], lo[tuple(i)], hi[tuple(i)]))
    if o in ("3p", "3pcl") and not cyl1:
        # extremum-preserving limiters: bounded where the data are monotone
        t = 1e-12 * mag
        wide = 3 if o == "3p" else 2
        for k in range(m):
            q = W[iL[k] - wide + 1:iL[k] + wide + 1]
            dq = np.diff(q, axis=0)
            mono = ((dq >= 0).all(0) | (dq <= 0).all(0))
            if o == "3pcl":         # LimO3 switches its limiter off for differences below a tenth of the cell size
                mono &= ((W[iL[k]] - W[iL[k] - 1]) ** 2 + (W[iL[k] + 1] - W[iL[k]]) ** 2 >= (0.11 * case["dx"]) ** 2)
                mono &= ((W[iL[k] + 2] - W[iL[k] + 1]) ** 2 + (W[iL[k] + 1] - W[iL[k]]) ** 2 >= (0.11 * case["dx"]) ** 2)
            for nm, a in (("left", Pl), ("right", Pr)):
                bad = mono & ((a[k] < lo[k] - t) | (a[k] > hi[k] + t))
                need(not bad.any(), "%s state of variables %s leaves the range of the adjacent averages on monotone data: %s", nm, list(np.nonzero(bad)[0]), list(a[k]))
    if d["integ"] == "vl":
        need((Pl == Tl).all() and (Pr == Tr).all(), "reconstruction without characteristic tracing depends on the time step")
    sgn = np.ones(l.n)
    sgn[1] = -1
    if not cyl1:
        tol = 1e-11 if not l.mhd else 1e-8
        close(Ml, (Tr * sgn)[::-1], mag, tol, "mirrored data, left state")
        close(Mr, (Tl * sgn)[::-1], mag, tol, "mirrored data, right state")
    Ex = lambda a: np.concatenate([a[:, [0, 1, 3, 2]], a[:, 4:4 + l.adi], a[:, [l.By + 1, l.By]] if l.mhd else a[:, :0], a[:, l.nw:]], axis=1)
    close(Xl, Ex(Tl), mag[None] + Ex(mag[None]), 1e-11 if not l.mhd else 1e-8, "transverse components exchanged, left state")
    close(Xr, Ex(Tr), mag[None] + Ex(mag[None]), 1e-11 if not l.mhd else 1e-8, "transverse components exchanged, right state")
    if l.ns > 1:
        p = list(range(l.nw)) + [l.nw + 1, l.nw] + list(range(l.nw + 2, l.n))
        need((Yl == Tl[:, p]).all() and (Yr == Tr[:, p]).all(), "scalars exchanged: interface states differ")
    w = {"1": 1, "2": 2, "2p": 2, "3": 3, "3p": 3, "3pck": 2, "3pcl": 2}[o]
    for k in range(m):
        if j < iL[k] - w + 1 or j > iL[k] + w:
            need((Zl[k] == Tl[k]).all() and (Zr[k] == Tr[k]).all(), "interface %d depends on cell %d outside its stencil", k, j - NG)
    if o in ("2p", "3p", "3pck") :
        close(Vl, Pl * f + g0, np.abs(V).max(0) + S, 1e-10, "data rescaled variable by variable, left state")
        close(Vr, Pr * f + g0, np.abs(V).max(0) + S, 1e-10, "data rescaled variable by variable, right state")
    ch = max(np.abs(Pl - A).max(), np.abs(Pr - C).max()) if o != "1" else np.ptp(W, axis=0).max()
    return bool(ch > 0), "%s" % o


def subs(tier):
    out = []
    for gas in ("hydro", "mhd"):
        for eos in ("adiabatic", "isothermal"):
            fl = {"hydro": ["roe", "hllc"], "mhd": ["roe", "hlld"]}[gas]
            lst = []
            for n, o in enumerate(("1", "2", "2p", "3", "3p")):
                lst += [("ctu", o, f) for f in (fl if o != "1" else fl[:1])]
            lst += [("vl", o, "hlle") for o in ("1", "2p", "3p", "3pck", "3pcl")]
            for i, o, f in lst:
                c = B.cfg(gas, eos, o, f, i, 2)
                out.append(Sub("smooth-" + label(c), strat(c, ["x"]), (lambda case, exe, c=c: run_basic(case, c, exe)), {"x": hspec(c)}, 50))
                out.append(Sub("rough-" + label(c), strat(c, ["x"]), (lambda case, exe, c=c: run_rough(case, c, exe)), {"x": hspec(c)}, 70))
        for o, i in (("2", "ctu"), ("3", "ctu"), ("2p", "ctu"), ("3p", "vl")):
            c = B.cfg(gas, "adiabatic", o, "roe", i, 2, cyl=1)
            out.append(Sub("smooth-" + label(c), strat(c, ["x"]), (lambda case, exe, c=c: run_basic(case, c, exe)), {"x": hspec(c)}, 40))
            out.append(Sub("rough-" + label(c), strat(c, ["x"]), (lambda case, exe, c=c: run_rough(case, c, exe)), {"x": hspec(c)}, 40))
    return out
