"""Cooling: the operator-split implicit solver and the optically thin source term of the CTU integrators."""
import math

from .common import *
from vp.build import cfg
from vp.prop import Discard
from . import resid
from .C19 import NS

RULE = ("a case counts when cooling or heating changed the temperature of some cell by more than 1e-4 of itself and (solver) cells of different temperature were "
        "updated together")
ASSUMPTIONS = ["the cooling functions and physical constants are those documented in the source (Koyama & Inutsuka 2002 and the piecewise power-law fit, kB, 10 K floor)",
               "the solver is observed on cells so large that the hydrodynamic step changes them by much less than the cooling",
               "single-level meshes without passive scalars (the solver does not compile with scalars)"]

KB, MH, PC, KMS = 1.380658e-16, 1.6733e-24, 3.085678e18, 1e5
UT = KMS ** 2 * 1.4 * MH / 1.1 / KB
FIT = [(4.35, -1.0, -17.55), (4.90, 1.63636, -29.0182), (5.40, 0.0, -21.0), (5.90, -1.92, -10.632), (6.25, 0.0, -21.96), (6.50, -1.92, -9.96), (7.50, -0.34, -20.23),
       (1e9, 0.40, -25.78)]


def lam(T):
    lt = math.log10(T)
    if lt < 4.2:
        return 2e-26 * (1e7 * math.exp(-1.184e5 / (T + 1e3)) + 1.4e-2 * math.sqrt(T) * math.exp(-92. / T))
    for hi, b, c in FIT:
        if lt < hi:
            return 10 ** (c + b * lt)


EDGES = [10 ** x for x in (4.2, 4.35, 4.9, 5.4, 5.9, 6.25, 6.5, 7.5)]


def implicit(T0, n, heat, uc, dt):
    """all solutions near T0 of T + uc (n lam(T) - heat) dt = T0, by scanning and bisection"""
    f = lambda T: T + uc * (n * lam(T) - heat) * dt - T0
    g = T0 * np.linspace(0.75, 1.35, 241)
    v = [f(x) for x in g]
    out = []
    for a, b, fa, fb in zip(g, g[1:], v, v[1:]):
        if fa == 0:
            out.append(a)
        elif fa * fb < 0:
            for _ in range(60):
                m = 0.5 * (a + b)
                fm = f(m)
                if fa * fm <= 0:
                    b = m
                else:
                    a, fa = m, fm
            out.append(0.5 * (a + b))
    return out


def temperature(U, c, g1):
    d = dict(c)
    e = U[..., 4] - 0.5 * (U[..., 1:4] ** 2).sum(-1) / U[..., 0]
    if d["gas"] == "mhd":
        e = e - 0.5 * (U[..., 5:8] ** 2).sum(-1)
    return UT * g1 * e / U[..., 0]


def split(c, nd):
    d_ = dict(c)

    def fn(case, exe):
        N = case["N"]
        rs = np.random.RandomState(case["seed"])
        sh = (N[2], N[1], N[0])
        rho = case["n0"] * np.exp(case["dn"] * rs.uniform(-1, 1, sh))
        T = case["T0"] * np.exp(case["dT"] * rs.uniform(-1, 1, sh))
        for e in case["at"]:            # some cells elsewhere
            T[rs.randint(N[2]), rs.randint(N[1]), rs.randint(N[0])] = e
        p = rho * T / UT
        cs = np.sqrt(case["gamma"] * p / rho)
        v = [case["mach"] * cs * rs.uniform(-1, 1, sh) for _ in range(3)]
        w = dict(rho=rho, v=v, p=p, B=None, Bc=None, r=[])
        Bf = None
        if d_["gas"] == "mhd":
            b = np.sqrt(p.mean()) * np.array(case["b"])
            Bf = [np.full((N[2] + (nd > 2 and a == 2), N[1] + (nd > 1 and a == 1), N[0] + (a == 0)), b[a]) for a in range(3)]
            w["B"], w["Bc"] = Bf, [np.full(sh, b[a]) for a in range(3)]
        U = gen.cons(w, d_["gas"], "adiabatic", case["gamma"])
        g1 = case["gamma"] - 1
        uc = PC / KMS * g1 / KB / 1.1
        heat = 2e-26 * case["heat"]
        tt = min(t / (uc * abs(n * lam(t) - heat) + 1e-300) for n, t in zip(rho.flat, np.maximum(T, 10.0).flat))
        L = [case["size"] * tt * speed(U, c, case["gamma"], 1.0).max() / case["cour"] * n for n in N]
        b = every_step(ath.blocks(N, L, tlim=1e30, nlim=case["nlim"], cour=case["cour"], gamma=case["gamma"], cs=1.0, heat_ratio=case["heat"]))
        done = big = 0
        with ath.Scratch() as d:
            pr = ath.run(exe["x"], b, {(0, 0): (U, Bf)}, d, expect_ok=False)
            if pr.rc and "Not gonna do it" in pr.out:
                raise Discard("the solver gave up cleanly")
            ath.check_ok(pr)
            old = None
            for k, rec in outs(d):
                s = ath.assemble(rec)
                if old is None:
                    old = s
                    need(np.array_equal(s.U, U), "initial state")
                    continue
                dt = s.time - old.time
                T0, T1 = np.maximum(temperature(old.U, c, g1), 10.0), temperature(s.U, c, g1)
                cmax = speed(old.U, c, case["gamma"], 1.0).max() * 3
                adv = cmax * dt * sum(N[a] / L[a] for a in range(nd))       # how much of a cell the flow can exchange
                for ix in np.ndindex(*sh):
                    t0, n = T0[ix], old.U[ix][0]
                    q = [n * lam(t0 * f) - heat for f in np.linspace(0.88, 1.12, 25)]
                    if min(q) > 0 or max(q) < 0:
                        m = 0.102 * t0 / (uc * min(abs(x) for x in q))
                        need(dt <= 1.05 * m, "step %d: dt=%g, but cooling of the gas of density %g at %.6g K allows a tenth in %g", k, dt, n, t0, m)
                if adv > 1e-3:
                    old = s
                    continue
                done += 1
                need(np.isfinite(s.U).all(), "step %d: not finite", k)
                sc = scales(old.U, c, case["gamma"], 1.0)
                for q in range(s.U.shape[-1]):
                    if q != 4:
                        e = np.abs(s.U[..., q] - old.U[..., q]).max()
                        need(e <= 10 * adv * max(sc[q], np.abs(old.U[..., q]).max(), 1e-300) + 1e-12 * sc[q], "step %d: %s changed by %g while the flow can only change it by %g", k,
                             ath.names(c)[q], e, adv * sc[q])
                e0 = old.U[..., 4].max()
                for ix in np.ndindex(*sh):
                    t0, t1 = T0[ix], T1[ix]
                    tol = 30 * adv * e0 * g1 / old.U[ix][0] * UT + 1e-9 * t0
                    need(t1 >= 10.0 * (1 - 1e-9) - tol, "step %d: temperature %g below the floor", k, t1)
                    if tol > 2e-3 * t0:
                        continue
                    n = old.U[ix][0]
                    need(abs(t1 - t0) <= 0.101 * t0 + tol, "step %d: temperature %g became %g, more than a tenth", k, t0, t1)
                    if any(abs(math.log(t0 / x)) < 0.12 for x in EDGES):
                        continue            # the fit jumps there
                    R = [max(x, 10.0) for x in implicit(t0, n, heat, uc, dt)]
                    if not R:
                        continue
                    big = max(big, abs(t1 - t0) / t0)
                    e = min(abs(t1 - x) - 0.15 * abs(x - t0) for x in R)
                    need(e <= tol, "step %d dt=%g: gas of density %g at %.6g K (heating %g) went to %.6g K, the implicit step gives %s", k, dt, n, t0, case["heat"], t1, R)
                    r0, r1 = n * lam(t0) - heat, n * lam(max(t1, 10.0)) - heat
                    if r0 * r1 < 0:         # through equilibrium: at most by the accuracy of the iteration
                        need(abs(t1 - t0) <= 0.03 * t0 + tol, "step %d: gas at %.6g K crossed its equilibrium to %.6g K", k, t0, t1)
                old = s
        return done > 0 and big > 1e-4, "%s nd%d" % (label(c), nd)
    s = st.fixed_dictionaries(dict(N=gen.dims(nd, 4, hi1=10, hi2=6, hi3=5), seed=st.integers(0, 2 ** 31 - 1), n0=logr(0.03, 300), dn=st.sampled_from([0.0, 0.5, 2.0]), T0=logr(15, 3e6),
                                   dT=st.sampled_from([0.0, 0.3, 1.0]), at=st.lists(st.one_of(logr(6, 1e5), st.sampled_from([10.0, 9.0, 12.0])), max_size=3), mach=st.sampled_from([0.0, 0.5, 2.0]),
                                   b=st.tuples(*[r(-1, 1, 1)] * 3).map(list), gamma=st.sampled_from([5 / 3., 1.4]), heat=st.sampled_from([1.0, 1.0, 0.0, 3.0, 100.0]),
                                   size=logr(1e3, 1e4), nlim=st.integers(1, 4), cour=r(0.1, 0.3, 1)))
    return s, fn


# -- source term in the integrators -----------------------------------------------------------------------------------------
def uniform(c, nd):
    d_ = dict(c)

    def fn(case, exe):
        N, L = case["N"], case["L"]
        sh = (N[2], N[1], N[0])
        one = np.ones(sh)
        w = dict(rho=case["d"] * one, v=[v * one for v in case["v"]], p=case["p"] * one, B=None, Bc=None, r=[x * one for x in case["col"][:int(d_["nscal"])]])
        Bf = None
        if d_["gas"] == "mhd":
            Bf = [np.full((N[2] + (nd > 2 and a == 2), N[1] + (nd > 1 and a == 1), N[0] + (a == 0)), case["b"][a]) for a in range(3)]
            w["B"], w["Bc"] = Bf, [case["b"][a] * one for a in range(3)]
        U = gen.cons(w, d_["gas"], "adiabatic", case["gamma"])
        g1 = case["gamma"] - 1
        dt_est = case["cour"] * min(L[a] / N[a] for a in range(nd)) / math.sqrt(case["gamma"] * case["p"] / case["d"])      # no step can be longer
        k = case["x"] / (g1 * case["d"] * dt_est)
        b = every_step(blk(case, cool=k))
        with ath.Scratch() as d:
            ath.run(exe["x"], b, {(0, 0): (U, Bf)}, d)
            old = None
            for n, rec in outs(d):
                s = ath.assemble(rec)
                if old is not None:
                    dt = s.time - old.time
                    V = s.U - old.U
                    sc = np.abs(old.U).max()
                    for q in range(V.shape[-1]):
                        if q != 4:
                            need(np.abs(V[..., q]).max() <= 1e-12 * sc, "step %d: uniform cooling changed %s by %g", n, ath.names(c)[q], np.abs(V[..., q]).max())
                    p0 = case["p"] * one if n == 1 else p1
                    e = s.U[..., 4] - (U[..., 4] - w["p"] / g1)       # kinetic and magnetic energy stay as they were
                    p1 = g1 * e
                    y = k * g1 * case["d"] * dt
                    r_ = p1 / p0
                    need(np.abs(r_ - r_.mean()).max() <= 1e-11, "step %d: uniform gas cooled unevenly", n)
                    need(abs(r_.mean() - math.exp(-y)) <= 0.55 * y * y + 1e-11, "step %d: pressure of uniform gas fell by the factor %.9g in a step of %.4g cooling times, expected %.9g", n,
                         r_.mean(), y, math.exp(-y))
                old = s
        return True, "%s nd%d" % (label(c), nd)
    s = st.fixed_dictionaries(dict(N=gen.dims(nd, 4, hi1=10, hi2=7, hi3=6), L=st.tuples(*[r(0.5, 2, 1)] * 3).map(list), d=logr(0.1, 10), p=logr(0.1, 10), v=st.tuples(*[r(-2, 2, 1)] * 3).map(list),
                                   b=st.tuples(*[r(-1, 1, 1)] * 3).map(list), col=st.just([0.3, 0.6]), gamma=st.sampled_from([5 / 3., 1.4, 1.1]), cs=st.just(1.0), x=logr(1e-3, 0.2), nlim=st.integers(1, 4),
                                   cour=r(0.2, 0.4, 1)))
    return s, fn


def smooth(c, nd):
    d_ = dict(c)

    def fn(case, exe):
        sm = resid.Smooth(case["s"], case["L"], [0.0] * 3, nd, d_["gas"], 0)
        eq = resid.Newton(c, case["gamma"], 1.0)
        k = case["k"]

        def extra(sm, eq, x):
            w = sm.prim(x)
            t = np.zeros(x[0].shape + (5 + (3 if eq.mhd else 0),))
            t[..., 4] = -k * w["rho"] * w["p"]
            return t
        N = [NS[nd] if q < nd else 1 for q in range(3)]
        mk = lambda N: blk(dict(case, N=N, nlim=1, cour=0.1), cool=k)
        first = d_["order"] == "1"
        fl = {1: 0.01, 2: 0.015, 3: 0.04}[nd]
        resid.converge(exe["x"], mk, sm, eq, N, c, what="smooth state with cooling rate %g d p" % k, ratio=0.75 if first else 0.65, floor=2 * fl if first else fl, extra=extra)
        return True, "%s nd%d" % (label(c), nd)
    s = st.fixed_dictionaries(dict(s=resid.smooth_strategy(nd, d_["gas"], 0), L=st.tuples(*[r(0.7, 1.5, 1)] * 3).map(list), gamma=st.sampled_from([5 / 3., 1.4]),
                                   cs=st.just(1.0), k=st.sampled_from([3.0, 10.0, -2.0])))
    return s, fn


MBAR = 1.37 * 1.6733e-24


def koyama(c, nd):
    """the built-in cooling function, in cgs units, on uniform gas"""
    d_ = dict(c)

    def fn(case, exe):
        N = case["N"]
        sh = (N[2], N[1], N[0])
        one = np.ones(sh)
        n, T = case["n"], case["T"]
        rho, g1 = n * MBAR, case["gamma"] - 1
        p = n * KB * T
        pp = lambda T: 2e-26 * (n * (1e7 * math.exp(-1.184e5 / (T + 1000.)) + 0.014 * math.sqrt(T) * math.exp(-92. / T)) - 1.0)
        tc = KB * T / g1 / max(abs(pp(max(T, 10.))), 1e-40)
        a = math.sqrt(case["gamma"] * p / rho)
        v = [q * a for q in case["v"]]
        dt0 = case["x"] * tc
        if case["aim"] and T > case["aim"] and pp(T) > 0:
            dt0 = (T - case["aim"]) * KB / g1 / pp(T)
        L = [dt0 * (abs(v[q]) + a) / case["cour"] * N[q] for q in range(3)]
        w = dict(rho=rho * one, v=[q * one for q in v], p=p * one, B=None, Bc=None, r=[])
        U = gen.cons(w, "hydro", "adiabatic", case["gamma"])
        b = every_step(ath.blocks(N, L, tlim=1e40, nlim=1, cour=case["cour"], gamma=case["gamma"], cs=1.0, koyinut=1, dmin=1e-40))
        with ath.Scratch() as d:
            ath.run(exe["x"], b, {(0, 0): (U, None)}, d)
            rec = [ath.assemble(q) for _, q in outs(d)]
        s0, s = rec[0], rec[-1]
        dt = s.time - s0.time
        V = s.U - s0.U
        for q in range(4):
            need(np.abs(V[..., q]).max() <= 1e-12 * np.abs(s0.U[..., q]).max() + 1e-12 * rho * a * (q > 0), "uniform cooling changed %s", ath.names(c)[q])
        T1 = (p + g1 * V[..., 4]) / (n * KB)
        need(np.abs(T1 - T1.mean()).max() <= 1e-9 * max(T, np.abs(T1).max()), "uniform gas cooled unevenly: %s", T1)
        T1 = T1.mean()
        lim = 1e-9 * T * (1 + sum(q * q for q in case["v"]))
        Tf = max(T, 10.)
        want = T - g1 / KB * pp(Tf) * dt
        rate = pp(Tf) * dt * g1 / KB
        if abs(Tf - rate - 185.0) < 1e-4:
            raise Discard
        if Tf - rate > 185.0:
            # far from the floor nothing is limited
            need(abs(T1 - want) <= 1e-6 * abs(want - T) + lim, "gas with n=%g at %g K changed to %.9g K in dt=%g, the cooling function gives %.9g", n, T, T1, dt, want)
        else:
            ln = math.log10(n)
            teq = 10 ** (3.9247499 - 1.8479378 * ln + 1.5335032 * ln ** 2 - 0.47665872 * ln ** 3 + 0.076789136 * ln ** 4 - 0.0049052587 * ln ** 5) / n
            want2 = T - min(rate, Tf - teq)
            need(abs(T1 - want2) <= 1e-6 * abs(want2 - T) + lim, "gas with n=%g at %g K changed to %.9g K in dt=%g, expected %.9g (equilibrium %.6g)", n, T, T1, dt, want2, teq)
        need(T1 > 0, "temperature %g", T1)
        return abs(T1 / T - 1) > 1e-4, "nd%d" % nd
    s = st.fixed_dictionaries(dict(N=gen.dims(nd, 4, hi1=8, hi2=6, hi3=5), n=logr(0.1, 1e3), T=logr(15, 2e4), v=st.tuples(*[st.sampled_from([0.0, 0.5, -1.0])] * 3).map(list), gamma=st.just(5 / 3.),
                                   x=logr(1e-2, 3.0), cour=r(0.2, 0.4, 1), aim=st.one_of(st.just(0), st.integers(20, 320))))
    return s, fn


def subs(tier):
    out = []
    P = [("hydro", "2", "hllc", "ctu"), ("mhd", "2p", "hlld", "vl"), ("mhd", "2", "roe", "ctu"), ("hydro", "3p", "roe", "vl")]
    for i, (g, o, f, m) in enumerate(P):
        c = cfg(g, "adiabatic", o, f, m, 0, cooling=1)
        for nd in (1, 2, 3):
            if tier == "quick" and (i + nd) % 2:
                continue
            s, fn = split(c, nd)
            out.append(Sub("split-%s-%dd" % (label(c), nd), s, fn, {"x": spec(c, "-O1")}, quick=40, thorough=1500))
    for i, (g, o, f, ns) in enumerate([("hydro", "2", "hllc", 1), ("mhd", "3", "hlld", 0), ("mhd", "2p", "roe", 1), ("hydro", "1", "roe", 0)]):
        c = cfg(g, "adiabatic", o, f, "ctu", ns)
        for nd in (1, 2, 3):
            s, fn = uniform(c, nd)
            out.append(Sub("uniform-%s-%dd" % (label(c), nd), s, fn, {"x": spec(c, "-O1")}, quick=25, thorough=600))
        c = cfg(g, "adiabatic", o, f, "ctu", 0)
        for nd in (1, 2, 3):
            if tier == "quick" and (i == 3 or nd == 3 and i != 1):
                continue
            s, fn = smooth(c, nd)
            out.append(Sub("smooth-%s-%dd" % (label(c), nd), s, fn, {"x": spec(c, "-O1")}, quick={1: 12, 2: 6, 3: 3}[nd], thorough={1: 200, 2: 80, 3: 20}[nd]))
    c = cfg("hydro", "adiabatic", "2", "hllc", "ctu", 0)
    for nd in (1, 2, 3):
        s, fn = koyama(c, nd)
        out.append(Sub("koyama-%dd" % nd, s, fn, {"x": spec(c, "-O1")}, quick=60, thorough=1500))
    from .C05 import feature_subs
    out += feature_subs(("cooling",), 6)
    return out
