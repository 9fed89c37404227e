"""Particles: identity, trajectories, interpolation, stopping times, drag and feedback, binning."""
import math
import os

from .common import *
from vp import files
from vp.build import cfg
from vp.prop import Discard
from .C04 import splits

RULE = ("a case counts when at least one particle crossed the boundary of a process or of the domain (identity, free flight and shearing box), "
        "the gas or the relative velocity is not uniform zero (drag, feedback), or a particle overlaps more than one cell (binning)")
ASSUMPTIONS = ["the harness places particles and gas and records them exactly; particles are identified by the number given to them at the start",
               "acceleration and feedback are measured over one very short step; drag laws are the documented Epstein/Stokes/turbulent and fixed stopping times"]

XS = st.one_of(r(0, 0.999, 3), r(0, 0.999, 3), st.sampled_from([0.0, 0.001, 0.999, 0.5]))


def parts(types=2, vmax=1.0, maxn=12):
    v = st.one_of(r(-vmax, vmax, 2), st.just(0.0))
    a = st.tuples(XS, v)
    a = st.one_of(a, a, a, a, a, st.sampled_from([(0.0, -1e-18), (0.0, -1e-30), (0.0, 1e-18)]))     # crossing by less than round-off
    return st.lists(st.tuples(a, a, a, st.integers(0, types - 1)).map(lambda q: [q[0][0], q[1][0], q[2][0], q[0][1], q[1][1], q[2][1], q[3]]), min_size=1, max_size=maxn)


def weights(x, lo, dx, n, interp):
    """list of (cell index relative to lo, weight) along one direction"""
    if n == 1:
        return [(0, 1.0)]
    a = (x - lo) / dx
    if interp == 1:
        i = math.floor(a - 0.5)
        f = a - 0.5 - i
        return [(i, 1 - f), (i + 1, f)]
    i = math.floor(a)
    s = a - i - 0.5
    if interp == 2:
        return [(i - 1, 0.5 * (0.5 - s) ** 2), (i, 0.75 - s * s), (i + 1, 0.5 * (0.5 + s) ** 2)]
    return [(i - 1, 0.5 * s * (s - 1)), (i, 1 - s * s), (i + 1, 0.5 * s * (s + 1))]


def cells(x, x0, dx, N, interp):
    """(k, j, i), weight with periodic wrapping"""
    W = [weights(x[d], x0[d], dx[d], N[d], interp) for d in range(3)]
    return [((k % N[2], j % N[1], i % N[0]), a * b * c) for i, a in W[0] for j, b in W[1] for k, c in W[2]]


def nudge(pp, N):
    """the quadratic interpolant jumps between cells: keep particles off the faces"""
    pp = [list(q) for q in pp]
    for q in pp:
        for a in range(3):
            f = q[a] * N[a]
            if N[a] > 1 and abs(f - round(f)) < 1e-2:
                q[a] = (math.floor(f) + 0.3) / N[a]
    return pp


def real(p):
    return p[p[:, 7] != 0]


def by_id(p):
    return {int(q[8]): q for q in real(p)}


def check_ids(p, ids, what):
    got = sorted(int(x) for x in real(p)[:, 8])
    need(got == sorted(ids), "%s: particles %s lost, %s unexpected or duplicated", what, sorted(set(ids) - set(got)),
         [g for g in got if g not in ids or got.count(g) > 1][:6])


def inside(rec, what, bc=(4,) * 6):
    """on the process that owns its cell; particles leaving through an outflow side are followed into the ghost cells (all but the last)"""
    for q in real(rec.par):
        for d in range(3):
            if rec.Nx[d] > 1:
                e = 1e-12 * (abs(rec.MinX[d]) + abs(rec.MaxX[d])) + (rec.g[d] * rec.dx[d] if 2 in bc[2 * d:2 * d + 2] else 0)
                need(rec.MinX[d] - e <= q[d] <= rec.MaxX[d] + e, "%s: particle %d at x%d=%.17g, outside the process's [%g,%g]", what, q[8], d + 1, q[d],
                     rec.MinX[d], rec.MaxX[d])


def stop(mode, ty, rho, cs, vd, alam):
    if mode == 3:
        return ty[0]
    if mode == 2 or alam * ty[2] * rho < 2.25:
        return ty[2] / (rho * cs)
    Re = 4 * alam * ty[2] * rho * vd / cs
    if Re < 1:
        return ty[2] * 4 * alam * ty[2] / (24 * cs)        # 24/Re: independent of vd
    CD = 24 * Re ** -0.6 if Re < 800 else 0.44
    return ty[2] / (rho * vd * CD)


def cut(case, N, np_):
    """process grid for np_ processes"""
    ok = [s for s in splits(N, np_)] if np_ else []
    return ok


GASES = [cfg(gas="hydro", eos="adiabatic", integ="ctu", order="2", flux="hllc", par=1), cfg(gas="hydro", eos="isothermal", integ="ctu", order="2p", flux="hlle", par=1),
         cfg(gas="mhd", eos="adiabatic", integ="ctu", order="2p", flux="hlld", par=1), cfg(gas="mhd", eos="isothermal", integ="ctu", order="3", flux="roe", par=1)]


def grid_of(case):
    N, L = case["N"], case["L"]
    return N, L, [L[i] / N[i] for i in range(3)]


def procs(np_, nd):
    """process counts per direction"""
    return st.sampled_from([p for p in ([1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1], [3, 1, 1], [1, 3, 1], [2, 1, 2], [2, 2, 2], [1, 2, 2])
                            if all(p[d] == 1 or d < nd for d in range(3)) and (np_ or p == [1, 1, 1]) and (not np_ or p != [1, 1, 1])])


def grid(b, pr):
    for d in range(3):
        b["domain1"]["NGrid_x%d" % (d + 1)] = pr[d]
    return int(np.prod(pr))


def launch(exe, b, ic, d, par, pr):
    pr = [min(pr[a], max(1, b["domain1"]["Nx%d" % (a + 1)] // 4)) for a in range(3)]
    n = int(np.prod(pr))
    if n > 1:
        grid(b, pr)
    ath.run(exe, b, {(0, 0): ic}, d, n if b.get('mpi_') or n > 1 else None, par=par)


# -- identities: rough gas, several types, periodic ----------------------------
def ident(c, nd, mpi):
    def fn(case, exe):
        N, L, dx, w, U = expand(case, c)
        b = every_step(blk(case, x0=case["x0"]))
        par_block(b, 2, case["interp"], case["tsmode"], case["integ"])
        b["particle"]["tshuf"] = case["tshuf"]
        ty = [(case["ts"][0], case["mass"], 1.0, case["pint"][0]), (case["ts"][1], case["mass"], 0.7, case["pint"][1])]
        pp = case["pp"]
        pf = par_file(pp, ty, N, L, case["x0"])
        crossed = 0
        with ath.Scratch() as d:
            launch(exe, b, (U, w["B"]), d, pf, case["pr"])
            prev = None
            for k, rs in outs(d):
                p = np.concatenate([x.par for x in rs])
                check_ids(p, range(1, len(pp) + 1), "step %d" % k)
                for x in rs:
                    inside(x, "step %d" % k)
                now = by_id(p)
                for i, q in now.items():
                    need(q[6] == pp[i - 1][6], "step %d: particle %d changed type from %d to %d", k, i, pp[i - 1][6], q[6])
                    need(np.isfinite(q[:6]).all(), "step %d: particle %d is not finite", k, i)
                    if prev:
                        o = prev[i]
                        crossed += any(abs(q[a] - o[a]) > 0.5 * L[a] for a in range(3) if N[a] > 1)
                    for a in range(3):
                        if N[a] == 1:
                            need(q[a] == case["x0"][a], "step %d: particle %d moved along the ignored direction x%d", k, i, a + 1)
                own = {int(q[8]): n for n, x in enumerate(rs) for q in real(x.par)}
                if prev:
                    crossed += any(own[i] != pown[i] for i in own)
                prev, pown = now, own
        return crossed > 0, "%s crossings=%d n=%d" % (label(c), min(crossed, 5), len(pp))
    s = evo_case(c, nd, lo=8 if mpi else 5, steps=(4, 12), x0=st.tuples(*[r(-1, 1, 1)] * 3).map(list), interp=st.integers(1, 3), tsmode=st.integers(1, 3),
                 integ=st.integers(1, 3), ts=st.tuples(logr(0.05, 50), logr(0.5, 50)).map(list), mass=logr(1e-3, 1e-1), tshuf=st.sampled_from([1, 2, 100000]),
                 pint=st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), pp=parts(2, 8.0, 16), pr=procs(mpi, nd))
    return s, fn


# -- free flight between walls -------------------------------------------------
def flight(x, v, lo, hi, b0, b1, t):
    """analytic position and velocity after t; None when it left through an outflow side; also distance in time to the nearest exit"""
    L = hi - lo
    while True:
        if v == 0:
            return x, v, 1e99
        tw = (hi - x) / v if v > 0 else (lo - x) / v
        side = b1 if v > 0 else b0
        if side == 2:
            return (x + v * t, v, tw - t)
        if tw > t:
            return x + v * t, v, 1e99
        t -= tw
        if side == 4:
            x = lo if v > 0 else hi
        else:
            x = hi if v > 0 else lo
            v = -v


def free(c, nd, mpi):
    def fn(case, exe):
        N, L, dx = grid_of(case)
        w = dict(rho=np.full((N[2], N[1], N[0]), case["d"]), v=[np.zeros((N[2], N[1], N[0]))] * 3, p=np.full((N[2], N[1], N[0]), 1.0), B=None, r=[])
        U = gen.cons(w, "hydro", dict(c)["eos"], case["gamma"])
        bc = case["bc"]
        b = every_step(blk(case, bc=bc, x0=case["x0"]))
        par_block(b, 1, case["interp"], 3, 2)
        b["particle"]["tshuf"] = case["tshuf"]
        pp = case["pp"]
        pf = par_file(pp, [(1e30, 0.0, 1.0, case["pint"])], N, L, case["x0"])
        x0 = case["x0"]
        hit = 0
        with ath.Scratch() as d:
            launch(exe, b, (U, None), d, pf, case["pr"])
            for k, rs in outs(d):
                t = rs[0].time
                p = np.concatenate([x.par for x in rs])
                ids = [int(q[8]) for q in real(p)]
                need(len(ids) == len(set(ids)), "step %d: particles duplicated: %s", k, sorted(ids))
                got = by_id(p)
                for x in rs:
                    inside(x, "step %d" % k, bc)
                for n, q in enumerate(pp):
                    s, gone, near, far = [], False, False, False
                    for a in range(3):
                        xa = x0[a] + q[a] * L[a] if N[a] > 1 else x0[a]
                        va = q[3 + a]
                        if N[a] > 1:
                            y, u, m = flight(xa, va, x0[a], x0[a] + L[a], bc[2 * a], bc[2 * a + 1], t)
                            gone |= m < 0
                            far |= m < 0 and -m * abs(va) > rs[0].g[a] * dx[a]
                            near |= va != 0 and abs(m) * abs(va) < 1e-9 * L[a]
                            hit += u != va or abs(y - xa - va * t) > 1e-9 or m < 0
                        else:
                            y, u = xa, va
                        s.append((y, u))
                    if near:
                        need(2 in bc or n + 1 in got, "step %d: particle %d (start %s) was lost at a boundary (bc %s)", k, n + 1, q, bc)
                        continue
                    if gone:
                        need(not far or n + 1 not in got, "step %d: particle %d left through an outflow boundary but is still there at %s", k, n + 1,
                             got.get(n + 1, np.zeros(3))[:3])
                        continue
                    need(n + 1 in got, "step %d: particle %d (start %s) was lost (bc %s)", k, n + 1, q, bc)
                    g = got[n + 1]
                    for a in range(3):
                        e = abs(g[a] - s[a][0])
                        if bc[2 * a] == 4 and N[a] > 1:
                            e = min(e, abs(e - L[a]))
                        if abs(e) <= 1e-9 and abs(g[3 + a] + s[a][1]) < 1e-12 and min(abs(g[a] - x0[a]), abs(g[a] - x0[a] - L[a])) < 1e-9:
                            continue        # exactly at the wall: either sign
                        need(e <= 1e-9 * (1 + L[a]) and abs(g[3 + a] - s[a][1]) <= 1e-12 * (1 + abs(s[a][1])),
                             "step %d t=%g: free particle %d has x%d=%.15g v%d=%.15g, expected %.15g, %.15g (bc %s)", k, t, n + 1, a + 1, g[a], a + 1, g[3 + a],
                             s[a][0], s[a][1], bc)
        return hit > 0, "nd%d pr%s bc%s" % (nd, case["pr"], bc)
    s = st.fixed_dictionaries(dict(N=gen.dims(nd, 8 if mpi else 5, hi3=9, hi2=14, hi1=40), L=st.tuples(*[r(0.5, 2, 1)] * 3).map(list), d=r(0.5, 2, 1),
                                   nlim=st.integers(4, 14), cour=r(0.2, 0.4, 1), gamma=st.just(1.4), cs=r(0.5, 1, 1), x0=st.tuples(*[st.one_of(st.just(0.0), r(-1, 1, 1))] * 3).map(list),
                                   bc=bc_strategy(nd, [[1, 1], [2, 2], [4, 4], [1, 2], [2, 1]]), interp=st.integers(1, 3), pint=st.integers(1, 3),
                                   tshuf=st.sampled_from([1, 2, 100000]), pp=parts(1, 4.0, 12), pr=procs(mpi, nd)))
    return s, fn


# -- drag in a uniform gas -----------------------------------------------------
def relax(c, nd):
    def fn(case, exe):
        N, L, dx = grid_of(case)
        d_ = dict(c)
        one = np.ones((N[2], N[1], N[0]))
        u = case["u"]
        w = dict(rho=case["d"] * one, v=[x * one for x in u], p=case["P"] * one, B=None, r=[])
        U = gen.cons(w, "hydro", d_["eos"], case["gamma"])
        cs = math.sqrt(case["gamma"] * case["P"] / case["d"]) if d_["eos"] == "adiabatic" else case["cs"]
        b = every_step(blk(case))
        par_block(b, 2, case["interp"], case["tsmode"], 2)
        b["problem"]["alamcoeff"] = case["alam"]
        ty = [(case["ts"][0], 0.0, case["rad"][0], case["pint"][0]), (case["ts"][1], 0.0, case["rad"][1], case["pint"][1])]
        # the explicit integrator is meant for stopping times longer than the step
        dtm = case["cour"] * min(dx[a] for a in range(3) if N[a] > 1) / cs
        vmx = max([0.1] + [np.sqrt(((np.array(q[3:6]) - u) ** 2).sum()) for q in case["pp"]])
        ty = [t if dtm < 0.9 * stop(case["tsmode"], t, case["d"], cs, vmx, case["alam"]) else t[:3] + (max(t[3], 2),) for t in ty]
        pf = par_file(case["pp"], ty, N, L)
        nt = 0
        with ath.Scratch() as d:
            launch(exe, b, (U, None), d, pf, [1, 1, 1])
            prev = None
            for k, rs in outs(d):
                now, t = by_id(rs[0].par), rs[0].time
                check_ids(rs[0].par, range(1, len(case["pp"]) + 1), "step %d" % k)
                if prev:
                    dt = t - pt
                    for i, q in now.items():
                        o = prev[i]
                        T = ty[int(o[6])]
                        r0, r1 = o[3:6] - u, q[3:6] - u
                        vd = np.sqrt((r0 ** 2).sum())
                        sc = vd + np.abs(u).max() + 1e-30
                        if vd < 1e-9 * sc or vd < 1e-9:
                            need(np.abs(r1).max() <= 1e-6 * (1 + sc), "step %d: particle %d at rest in the gas was accelerated", k, i)
                            continue
                        ts = stop(case["tsmode"], T, case["d"], cs, vd, case["alam"])
                        z = dt / ts
                        R = (r1 * r0).sum() / vd ** 2
                        need(np.abs(r1 - R * r0).max() <= 1e-10 * sc, "step %d: drag on particle %d is not along the relative velocity", k, i)
                        lin = case["tsmode"] > 1 or case["alam"] * T[2] * case["d"] < 2.25
                        if T[3] > 1:
                            need(abs(R) <= 1 + 1e-10 * sc / vd, "step %d: drag drove particle %d away from the gas velocity (R=%g, dt/ts=%g, integrator %d)", k, i, R, z, T[3])
                        if z < 1:
                            # nonlinear drag (ts depends on the speed): only first order is fixed by ts at the start
                            tol = 0.3 * z ** 3 if lin else 2 * z ** 2
                            need(abs(R - math.exp(-z)) <= tol + 1e-10 * sc / vd, "step %d: particle %d relative velocity changed by factor %.12g, exp(-dt/ts)=%.12g "
                                 "(dt/ts=%g integrator %d mode %d)", k, i, R, math.exp(-z), z, T[3], case["tsmode"])
                            nt += z > 1e-3
                            for a in range(3):
                                if N[a] == 1:
                                    need(q[a] == o[a], "ignored direction moved")
                                    continue
                                ex = u[a] * dt + r0[a] * ts * (1 - math.exp(-z)) if lin else u[a] * dt + r0[a] * dt * (1 - z / 2)
                                e = q[a] - o[a] - ex
                                e -= L[a] * round(e / L[a])
                                need(abs(e) <= abs(r0[a]) * dt * (0.5 * z * z if lin else 2 * z * z) + 1e-10 * (sc * dt + L[a]),
                                     "step %d: particle %d moved %.12g along x%d, expected %.12g", k, i, q[a] - o[a], a + 1, ex)
                prev, pt = now, t
        return nt > 0, "mode%d int%s z" % (case["tsmode"], case["pint"])
    s = st.fixed_dictionaries(dict(N=gen.dims(nd, 5, hi3=7, hi2=10, hi1=20), L=st.tuples(*[r(0.5, 2, 1)] * 3).map(list), d=logr(0.3, 3), P=logr(0.3, 3),
                                   u=st.tuples(*[r(-1, 1, 2)] * 3).map(list), nlim=st.integers(1, 5), cour=r(0.1, 0.4, 1), gamma=st.sampled_from([1.4, 5 / 3.]),
                                   cs=r(0.5, 2, 1), interp=st.integers(1, 3), tsmode=st.integers(1, 3), alam=st.one_of(logr(0.01, 1), logr(1, 1e4)),
                                   ts=st.tuples(logr(1e-3, 5), logr(1e-3, 5)).map(list), rad=st.tuples(logr(1e-2, 10), logr(1e-2, 10)).map(list),
                                   pint=st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), pp=parts(2, 3.0, 8)))
    return s, fn


# -- acceleration in a rough gas, one short step; feedback ---------------------
DT = 1e-6


def accel(c, nd, mpi):
    d_ = dict(c)
    fb = "feedback" in d_

    def fn(case, exe):
        N, L, dx, w, U = expand(case, c, 0.8, 0.5, 0.3)
        if fb:                                   # uniform gas: the only sources are the particles
            U = U.mean((0, 1, 2), keepdims=True) + 0 * U
            if w["B"] is not None:
                w["B"] = [0 * x + x.mean() for x in w["B"]]
                i = 5 if d_["eos"] == "adiabatic" else 4
                U[..., i:i + 3] = [x.mean() for x in w["B"]]
                if d_["eos"] == "adiabatic":
                    U[..., 4] = 1.0 / (case["gamma"] - 1) + 0.5 * (U[..., 1:4] ** 2).sum(-1) / U[..., 0] + 0.5 * (U[..., 5:8] ** 2).sum(-1)
        x0 = case["x0"]
        b = every_step(blk(case, x0=x0, tlim=DT, nlim=-1))
        par_block(b, 2, case["interp"], case["tsmode"], 2)
        b["problem"]["alamcoeff"] = case["alam"]
        ty = [(case["ts"][0], case["mass"], case["rad"][0], case["pint"][0]), (case["ts"][1], 0.5 * case["mass"], case["rad"][1], case["pint"][1])]
        pp = nudge(case["pp"], N)
        pf = par_file(pp, ty, N, L, x0)
        with ath.Scratch() as d:
            launch(exe, b, (U, w["B"]), d, pf, case["pr"])
            h = [(rs[0].time, ath.assemble(rs)) for k, rs in outs(d)]
        s0, s1 = h[0][1], h[-1][1]
        dt = h[-1][0] - h[0][0]
        check_ids(s1.par, range(1, len(pp) + 1), "after a short step")
        A, Z = by_id(s0.par), by_id(s1.par)
        rho = U[..., 0]
        v = [U[..., 1 + a] / rho for a in range(3)]
        if d_["eos"] == "adiabatic":
            i = 5
            P = U[..., 4] - 0.5 * rho * sum(x * x for x in v)
            if d_["gas"] == "mhd":
                P = P - 0.5 * (U[..., 5:8] ** 2).sum(-1)
            cs = np.sqrt(case["gamma"] * (case["gamma"] - 1) * P / rho)
        else:
            cs = np.full(rho.shape, case["cs"])
        sp = speed(U, c, case["gamma"], case["cs"]).max()
        vm = sp + max(np.abs(q[3:6]).max() for q in A.values())
        hmin = min(dx[a] for a in range(3) if N[a] > 1)
        eps = vm * dt / hmin                                   # relative change of everything over the step
        dep = np.zeros(rho.shape + (4,))
        amax = 0
        for i, q in A.items():
            T = ty[int(q[6])]
            W = cells(q[:3], x0, dx, N, case["interp"])
            g = lambda f: sum(wt * f[ix] for ix, wt in W)
            R, C, u = g(rho), g(cs), np.array([g(x) for x in v])
            need(R > 0 and C > 0, "bad interpolation") if case["interp"] < 3 else None
            if R <= 0 or C <= 0:
                raise Discard()
            vd = np.sqrt(((q[3:6] - u) ** 2).sum())
            # a stopping time decided by a threshold that lies within the tolerance is not decided
            al = case["alam"] * T[2] * R
            if case["tsmode"] == 1 and (abs(al / 2.25 - 1) < 0.01 or any(abs(4 * al * vd / C / x - 1) < 0.01 for x in (1, 800))):
                raise Discard()
            ts = stop(case["tsmode"], T, R, C, vd, case["alam"])
            if fb:
                # with feedback, the stopping time is stretched where the particles' drag is stiff (total mass/ts*dt > 1): never here
                if case["mass"] * len(pp) * dt / (ts * rho.min()) > 0.01:
                    raise Discard()
            if dt / ts > 1e-3:
                raise Discard()
            ex = (u - q[3:6]) / ts
            got = (Z[i][3:6] - q[3:6]) / dt
            tol = (1e-9 * vm / dt * 1e-5) + (30 * eps + 2 * dt / ts) * (vm / ts) + 1e-14 * vm / dt
            need(np.abs(got - ex).max() <= tol, "particle %d at %s: acceleration %s, expected %s (tol %g, interp %d, mode %d, ts %g, gas v %s)", i, q[:3], got, ex,
                 tol, case["interp"], case["tsmode"], ts, u)
            amax = max(amax, np.abs(ex).max())
            for ix, wt in W:
                dep[ix][:3] -= wt * T[1] * ex
                dep[ix][3] -= wt * T[1] * (ex * q[3:6]).sum()     # kinetic energy the particle loses goes to the gas
        if fb and amax > 0:
            m = case["mass"]
            dU = (s1.U - s0.U) / dt
            sc = m * amax * len(pp)
            fl = 1e-13 * (rho.max() * vm * (1 + vm)) * (1 / dt + sp / hmin) + 100 * eps * sc
            for a in range(3):
                e = np.abs(dU[..., 1 + a] - dep[..., a]).max()
                need(e <= fl + 1e-4 * sc, "feedback of M%d: error %g of %g (interp %d)", a + 1, e, sc, case["interp"])
                tot = (s1.U - s0.U)[..., 1 + a].sum() + sum(ty[int(q[6])][1] * (Z[i][3 + a] - q[3 + a]) for i, q in A.items())
                need(abs(tot) <= 1e-12 * (rho.sum() * vm + m * len(pp) * vm), "momentum %d of gas and particles changed by %g in one step", a + 1, tot)
            if d_["eos"] == "adiabatic":
                e = np.abs(dU[..., 4] - dep[..., 3]).max()
                need(e <= fl * (1 + vm) + 1e-4 * sc * (vm + 1) + 1e-13 * np.abs(U[..., 4]).max() / dt, "feedback heating: error %g of %g", e, sc * vm)
        return amax > 0, "%s interp%d mode%d pr%s" % (label(c), case["interp"], case["tsmode"], case["pr"])
    s = evo_case(c, nd, lo=8 if mpi else 5, steps=(1, 1), x0=st.tuples(*[r(-1, 1, 1)] * 3).map(list), interp=st.integers(1, 3), tsmode=st.integers(1, 3),
                 alam=st.one_of(logr(0.01, 1), logr(1, 1e4)), ts=st.tuples(logr(1e-2, 5), logr(1e-2, 5)).map(list), mass=logr(1e-3, 1e-1),
                 rad=st.tuples(logr(1e-1, 10), logr(1e-1, 10)).map(list), pint=st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), pp=parts(2, 1.0, 8), pr=procs(mpi, nd))
    return s, fn


# -- feedback over whole steps: momentum totals --------------------------------
def total(c, nd, mpi):
    def fn(case, exe):
        N, L, dx, w, U = expand(case, c, 0.6, 0.5, 0.3)
        b = every_step(blk(case, x0=case["x0"]))
        par_block(b, 2, case["interp"], case["tsmode"], 2)
        ty = [(case["ts"][0], case["mass"], case["ts"][0], case["pint"][0]), (case["ts"][1], 0.5 * case["mass"], case["ts"][1], case["pint"][1])]
        pf = par_file(case["pp"], ty, N, L, case["x0"])
        m = np.array([t[1] for t in ty])
        moved = 0
        with ath.Scratch() as d:
            launch(exe, b, (U, w["B"]), d, pf, case["pr"])
            first = None
            for k, rs in outs(d):
                s = ath.assemble(rs)
                p = real(s.par)
                check_ids(s.par, range(1, len(case["pp"]) + 1), "step %d" % k)
                P = s.U[..., 1:4].sum((0, 1, 2)) + (m[p[:, 6].astype(int), None] * p[:, 3:6]).sum(0)
                if first is None:
                    first, p0 = P, p
                    sc = scales(U, c, case["gamma"], case["cs"])[1] * U[..., 0].size + m.max() * np.abs(p[:, 3:6]).sum()
                need(np.isfinite(P).all(), "not finite")
                need(np.abs(P - first).max() <= 1e-11 * sc, "step %d: total momentum of gas and particles changed by %s (scale %g)", k, P - first, sc)
                need(abs(s.U[..., 0].sum() - U[..., 0].sum()) <= 1e-11 * U[..., 0].sum(), "step %d: gas mass changed", k)
        moved = any(np.abs(by_id(s.par)[i][3:6] - by_id(p0)[i][3:6]).max() > 1e-3 for i in by_id(p0))
        return bool(moved), "%s interp%d pr%s" % (label(c), case["interp"], case["pr"])
    s = evo_case(c, nd, lo=8 if mpi else 5, kinds=("mode", "noise"), steps=(2, 6), x0=st.tuples(*[r(-1, 1, 1)] * 3).map(list), interp=st.integers(1, 3),
                 tsmode=st.integers(1, 3), ts=st.tuples(logr(2e-2, 5), logr(2e-2, 5)).map(list), mass=logr(1e-3, 3e-1),
                 pint=st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), pp=parts(2, 2.0, 12), pr=procs(mpi, nd))
    return s, fn


# -- binned output -------------------------------------------------------------
def binned(c, nd, mpi):
    fb = "feedback" in dict(c)

    def fn(case, exe):
        N, L, dx, w, U = expand(case, c, 0.5, 0.3, 0.2)
        x0 = case["x0"]
        b = blk(case, x0=x0)
        par_block(b, 2, case["interp"], 3, 2)
        ty = [(1.0, case["mass"], 1.0, 2), (2.0, 0.5 * case["mass"], 1.0, 2)]
        names = ["dpar", "M1par", "M2par", "M3par"]
        b["job"]["maxout"] = 6
        for n, v in enumerate(names + ["V1par"]):
            b["output%d" % (n + 1)] = dict(out=v, out_fmt="vtk", dt=1e30, id=v)
        b["output6"] = {"name": "vpraw", "dt": 1e30}
        pf = par_file(nudge(case["pp"], N), ty, N, L, x0)
        with ath.Scratch() as d:
            launch(exe, b, (U, w["B"]), d, pf, case["pr"])
            n = int(np.prod(case["pr"]))
            ev = 0
            for num in range(2):
                rs = ath.states(d, "out6.%d" % num)
                if not rs:
                    continue
                p = real(np.concatenate([x.par for x in rs]))
                ex = np.zeros((N[2], N[1], N[0], 4))
                for q in p:
                    m = ty[int(q[6])][1] if fb else 1.0
                    W = cells(q[:3], x0, dx, N, case["interp"])
                    for ix, wt in W:
                        ex[ix] += wt * m * np.concatenate([[1.0], q[3:6]])
                for a, v in enumerate(names + ["V1par"]):
                    for k, x in enumerate(rs):
                        f = [os.path.join(r_, g) for r_, _, fs in os.walk(d) for g in fs if g.endswith(".%04d.%s.vtk" % (num, v))]
                        f = [g for g in f if os.path.basename(g).startswith("vp-id%d." % k if k else "vp.")]
                        need(len(f) == 1, "no %s output of process %d at dump %d: %s", v, k, num, f)
                        got = [y for y in files.read_vtk(f[0])["vars"].values()][0].reshape(x.Nx[2], x.Nx[1], x.Nx[0])
                        sl = tuple(slice(x.Disp[q_], x.Disp[q_] + x.Nx[q_]) for q_ in (2, 1, 0))
                        if a < 4:
                            want = ex[sl + (a,)]
                        else:
                            dd = ex[sl + (0,)]
                            ok = dd > 1e-3 * case["mass"]
                            if not ok.any():
                                continue
                            want, got = (ex[sl + (1,)] / np.where(ok, dd, 1))[ok], got[ok]
                        sc = max(np.abs(ex[..., 0]).max(), np.abs(ex).max()) if a < 4 else 1 + np.abs(want).max() * 10
                        e = np.abs(got - want).max()
                        need(e <= 2e-6 * sc, "dump %d process %d: binned %s off by %g of %g", num, k, v, e, sc)
                        ev += 1
        return ev > 0, "interp%d pr%s dumps%d" % (case["interp"], case["pr"], ev)
    s = evo_case(c, nd, lo=8 if mpi else 5, kinds=("mode",), steps=(1, 4), x0=st.tuples(*[r(-1, 1, 1)] * 3).map(list), interp=st.integers(1, 3), mass=logr(1e-2, 1),
                 pp=parts(2, 2.0, 12), pr=procs(mpi, nd))
    return s, fn


# -- free particles in the shearing box ----------------------------------------
def epicycle(c, nd, mpi):
    d_ = dict(c)
    fargo = "fargo" in d_

    def exact(x, y, vx, vy, om, q, t):
        """y, vy with the full (not perturbed) velocity"""
        if fargo:
            vy = vy - q * om * x
        k2 = 2 * (2 - q) * om * om
        k = math.sqrt(k2)
        # x'' = 2 om y' + 2 q om^2 x ; y' + 2 om x = h
        h = vy + 2 * om * x
        xc = 2 * om * h / k2
        X = xc + (x - xc) * math.cos(k * t) + vx / k * math.sin(k * t)
        VX = -(x - xc) * k * math.sin(k * t) + vx * math.cos(k * t)
        I = xc * t + (x - xc) / k * math.sin(k * t) + vx / k2 * (1 - math.cos(k * t))
        Y = y + h * t - 2 * om * I
        VY = h - 2 * om * X
        if fargo:
            VY += q * om * X
        return X, Y, VX, VY

    def fn(case, exe):
        case = dict(case, N=[n + (n % 6 and 6 - n % 6) if a == 1 and mpi and n > 1 else n for a, n in enumerate(case["N"])])
        N, L, dx = grid_of(case)
        xy = nd == 3 or case["xy"]
        if fargo:
            xy = 1
        x0 = [-0.5 * L[0], case["x0"][1], case["x0"][2]]
        om, q = case["omega"], case["qshear"]
        one = np.ones((N[2], N[1], N[0]))
        xc = x0[0] + dx[0] * (np.arange(N[0]) + 0.5)
        sh = 0 * one if fargo else -q * om * xc[None, None, :] * one
        w = dict(rho=one, v=[0 * one, sh if xy else 0 * one, 0 * one if xy else sh], p=one, B=None, r=[])
        U = gen.cons(w, "hydro", d_["eos"], case["gamma"])
        pp = [list(z) for z in case["pp"]]
        a2 = 4 if xy else 5
        if not fargo:
            for z in pp:
                z[a2] += -q * om * (x0[0] + z[0] * L[0])
        pf = par_file(pp, [(1e30, 0.0, 1.0, case["pint"])], N, L, x0)
        err, crossed = [], 0
        for f in (1, 2):
            b = blk(case, x0=x0, omega=om, qshear=q, sb_xy=xy, tlim=case["T"], nlim=-1, cour=case["cour"] / f)
            every_step(b)
            par_block(b, 1, case["interp"], 3, 2)
            with ath.Scratch() as d:
                launch(exe, b, (U, None), d, pf, case["pr"])
                last = None
                for k, rs in outs(d):
                    p = np.concatenate([x.par for x in rs])
                    check_ids(p, range(1, len(pp) + 1), "step %d (time %g)" % (k, rs[0].time))
                    for x in rs:
                        inside(x, "step %d" % k)
                    last = (rs[0].time, by_id(p))
            t, got = last
            e = 0
            for n, z in enumerate(pp):
                X = [x0[a] + z[a] * L[a] if N[a] > 1 else x0[a] for a in range(3)]
                iy, iz = (1, 2) if xy else (2, 1)
                EX, EY, EVX, EVY = exact(X[0], X[iy], z[3], z[3 + iy], om, q, t)
                g = got[n + 1]
                sh = round((EX - g[0]) / L[0])
                crossed += sh != 0
                EX -= sh * L[0]
                EY += sh * q * om * L[0] * t
                if not fargo:
                    EVY += sh * q * om * L[0]
                e = max(e, abs(EX - g[0]), abs(EVX - g[3]), abs(EVY - g[3 + iy]))
                if N[iy] > 1:
                    ey = EY - g[iy]
                    e = max(e, abs(ey - L[iy] * round(ey / L[iy])))
                else:
                    need(g[iy] == X[iy], "ignored direction moved")
                if N[iz] > 1:
                    ez = X[iz] + z[3 + iz] * t - g[iz]
                    ez -= L[iz] * round(ez / L[iz])
                    need(abs(ez) <= 1e-9, "vertical position of a free particle is off by %g", ez)
            err.append(e)
        vm = max(max(abs(y) for y in z[3:6]) for z in pp) + 1
        need(err[1] <= 0.5 * err[0] + 1e-7 * vm, "epicyclic motion does not converge: errors %g, %g when the time step is halved", *err)
        need(err[0] <= 0.5 * vm * om * case["T"], "epicyclic motion is off by %g (velocities up to %g, time %g)", err[0], vm, case["T"])
        return crossed > 0, "%s nd%d xy%d crossed=%d" % (label(c), nd, xy, min(crossed, 3))
    s = st.fixed_dictionaries(dict(N=gen.dims(nd, 8 if mpi else 6, hi3=8, hi2=12, hi1=12), L=st.tuples(*[r(0.5, 2, 1)] * 3).map(list), T=r(0.2, 1.5, 2),
                                   cour=st.sampled_from([0.3, 0.4]), gamma=st.just(1.4), cs=r(0.3, 0.6, 1), x0=st.tuples(*[r(-1, 1, 1)] * 3).map(list), nlim=st.just(1),
                                   omega=r(0.3, 1.5, 1), qshear=r(0.5, 1.8, 1), xy=st.integers(0, 1), interp=st.integers(1, 3), pint=st.integers(1, 3), pp=parts(1, 1.0, 8),
                                   pr=procs(mpi, nd)))
    return s, fn


def subs(tier):
    out = []

    def add(name, sf, c, np_, q, t):
        s, fn = sf
        cc = dict(c)
        if np_:
            cc["mpi"] = 1
        out.append(Sub(name, s, lambda case, exe: fn(case, exe["a"]), {"a": spec(cfg(**cc))}, quick=q, thorough=t))
    H = cfg(gas="hydro", eos="isothermal", integ="ctu", order="2", flux="hllc", par=1)
    FB = [cfg(**dict(g, feedback=1)) for g in GASES[:3]]
    SB = [cfg(**dict(H, sb=1)), cfg(**dict(H, sb=1, fargo=1))]
    for nd in (1, 2, 3):
        for i, c in enumerate(GASES):
            if tier == "quick" and (i + nd) % 2:
                continue
            add("ident-%s-%dd" % (label(c), nd), ident(c, nd, 0), c, 0, 12, 200)
        add("ident-mpi-%dd" % nd, ident(GASES[nd % 2], nd, 1), GASES[nd % 2], 1, 12, 200)
        add("free-%dd" % nd, free(H, nd, 0), H, 0, 25, 500)
        add("free-mpi-%dd" % nd, free(H, nd, 1), H, 1, 16, 300)
        for c in GASES[:2]:
            add("relax-%s-%dd" % (label(c), nd), relax(c, nd), c, 0, 20, 400)
        for i, c in enumerate(GASES):
            if tier == "quick" and (i + nd) % 2 == 0:
                continue
            add("accel-%s-%dd" % (label(c), nd), accel(c, nd, 0), c, 0, 20, 400)
        add("accel-mpi-%dd" % nd, accel(GASES[0], nd, 1), GASES[0], 1, 10, 200)
        for i, c in enumerate(FB):
            if tier == "quick" and i != nd % 3:
                continue
            add("feedback-%s-%dd" % (label(c), nd), accel(c, nd, 0), c, 0, 20, 400)
            add("total-%s-%dd" % (label(c), nd), total(c, nd, 0), c, 0, 12, 300)
        add("feedback-mpi-%dd" % nd, accel(FB[0], nd, 1), FB[0], 1, 12, 200)
        add("total-mpi-%dd" % nd, total(FB[0], nd, 1), FB[0], 1, 12, 200)
        if nd == 1:
            continue
        add("binned-%dd" % nd, binned(GASES[0], nd, 0), GASES[0], 0, 12, 200)
        add("binned-fb-mpi-%dd" % nd, binned(FB[0], nd, 1), FB[0], 1, 8, 150)
    for nd in (2, 3):
        for c in SB:
            f = "fargo" if "fargo" in dict(c) else "shear"
            add("%s-%dd" % (f, nd), epicycle(c, nd, 0), c, 0, 12, 200)
            add("%s-mpi-%dd" % (f, nd), epicycle(c, nd, 1), c, 1, 10, 150)
    return out
