import numpy as np
from hypothesis import strategies as st
from vp import ath, gen, build as B
from vp.prop import Sub, Violation, need, spec
from vp.gen import r, logr
from vp.cfgs import label


def evo_case(c, nd, maxn=3, steps=(2, 5), vmax=1.0, bmax=1.0, kinds=("mode", "box", "noise", "spike"), lo=None, **extra):
    d = dict(c)
    lo = lo or {1: 8, 2: 6, 3: 5}[nd]
    k = dict(N=gen.dims(nd, lo, hi3=9, hi2=14, hi1=40), L=st.tuples(*[r(0.5, 2, 1)] * 3).map(list),
             st=gen.state_strategy(nd, d["gas"], maxn, vmax, bmax, kinds, int(d["nscal"])),
             nlim=st.integers(*steps), cour=r(0.2, 0.8 if nd == 1 and d["integ"] == "ctu" else 0.4, 1), gamma=st.sampled_from([5 / 3., 1.4, 1.1, 2.0]),
             cs=r(0.5, 2, 1))
    k.update(extra)
    return st.fixed_dictionaries(k)


def expand(case, c, contrast=0.8, vamp=0.5, camp=0.3):
    """-> (N, L, dx, w, U)"""
    d = dict(c)
    N, L = case["N"], case["L"]
    dx = [L[i] / N[i] for i in range(3)]
    bc = case.get("bc", [4] * 6)
    wall = [1 in bc[2 * i:2 * i + 2] for i in range(3)]     # reflecting walls carry no normal field
    w = gen.prims(case["st"], N, dx, d["gas"], d["eos"], int(d["nscal"]), contrast, vamp, camp, wall)
    U = gen.cons(w, d["gas"], d["eos"], case["gamma"], "cyl" in d)
    return N, L, dx, w, U


def blk(case, bc=(4,) * 6, **kw):
    a = dict(tlim=1e3, nlim=case["nlim"], cour=case["cour"], gamma=case["gamma"], cs=case["cs"])
    a.update(kw)
    return ath.blocks(case["N"], case["L"], bc=bc, **a)


def speed(U, c, gamma, cs):
    """characteristic signal speed field (|v| + fast speed bound)"""
    d = dict(c)
    rho = U[..., 0]
    v2 = (U[..., 1:4] ** 2).sum(-1) / rho ** 2
    b2 = 0
    i = 5 if d["eos"] == "adiabatic" else 4
    if d["gas"] == "mhd":
        b2 = (U[..., i:i + 3] ** 2).sum(-1)
    if d["eos"] == "adiabatic":
        p = (gamma - 1) * (U[..., 4] - 0.5 * rho * v2 - 0.5 * b2)
        a2 = gamma * np.maximum(p, 0) / rho
    else:
        a2 = cs * cs
    return np.sqrt(v2) + np.sqrt(a2 + b2 / rho)


def scales(U, c, gamma, cs):
    """per-variable magnitude scale (mean) used for round-off tolerances"""
    d = dict(c)
    rho = U[..., 0]
    if "sr" in d:
        e = np.abs(U[..., 4]).mean()
        return np.array([rho.mean(), e, e, e, e] + ([np.sqrt(e)] * 3 if d["gas"] == "mhd" else []))
    sp = speed(U, c, gamma, cs)
    m = (rho * sp).mean()
    out = [rho.mean(), m, m, m]
    if d["eos"] == "adiabatic":
        out.append((np.abs(U[..., 4])).mean() + (rho * sp ** 2).mean())
    if d["gas"] == "mhd":
        out += [np.sqrt((rho * sp ** 2).mean())] * 3
    k = len(out)
    out += [rho.mean() + np.abs(U[..., k + i]).mean() for i in range(int(d["nscal"]))]
    return np.array(out)


BCS = [[1, 1], [2, 2], [4, 4], [5, 5], [1, 2], [2, 1], [5, 1], [1, 5], [2, 5], [5, 2]]


def bc_strategy(nd, flags=BCS):
    return st.tuples(*[st.sampled_from(flags) if d < nd else st.just([4, 4]) for d in range(3)]).map(lambda t: t[0] + t[1] + t[2])


def ndim(N):
    return 1 + (N[1] > 1) + (N[2] > 1)


def seq(d, nmax):
    """grid records after each traced step (cycle numbers from 0) present in d"""
    for n in range(0, nmax + 1):
        rs = ath.states(d, "step%d" % n)
        if rs:
            yield n, rs


def every_step(b, n=1):
    """adds an output block that records the exact state at the start of every step and at the end"""
    b["job"]["maxout"] = max(n, b["job"]["maxout"])
    b["output%d" % n] = {"name": "vpraw", "dt": 1e-30}
    return b


def outs(d, n=1):
    """records written by every_step, in order"""
    k = 0
    while True:
        rs = ath.states(d, "out%d.%d" % (n, k))
        if not rs:
            return
        yield k, rs
        k += 1


def par_strategy(maxn=12, types=1, vmax=2.0):
    return st.lists(st.tuples(r(0, 0.999, 3), r(0, 0.999, 3), r(0, 0.999, 3), r(-vmax, vmax, 2), r(-vmax, vmax, 2), r(-vmax, vmax, 2),
                              st.integers(0, types - 1)).map(list), min_size=1, max_size=maxn)


def par_file(pp, types, N, L, x0=(0, 0, 0)):
    """types: list of (tstop, mass, radius, integrator)"""
    a = [float(len(types))]
    for t in types:
        a += [float(x) for x in t]
    for n, p in enumerate(pp):
        a += [x0[q] + p[q] * L[q] if N[q] > 1 else x0[q] for q in range(3)] + list(p[3:6]) + [p[6], n + 1]
    return np.array(a)


def par_block(b, ntypes=1, interp=2, tsmode=3, integ=2):
    b["particle"] = dict(partypes=ntypes, interp=interp, tsmode=tsmode, integrator=integ, parnumgrid=64)
    return b


def fragile(go, U, Bf, s, e, n=4, fac=100.):
    """Is a difference e (per variable) of the size that a relative 1e-12 change of the initial state already makes?  Then a
    switch of the scheme is decided by round-off and the comparison says nothing.  go(U, Bf) runs, s is the unperturbed end."""
    r = np.random.default_rng(12345)
    m = np.zeros(len(e))
    for _ in range(n):
        V = U * (1 + 1e-12 * r.uniform(-1, 1, U.shape))
        VB = None if Bf is None else [b * (1 + 1e-12 * r.uniform(-1, 1, b.shape)) for b in Bf]
        f = go(V, VB)
        if f.U.shape != s.U.shape or f.nstep != s.nstep:
            return True
        m = np.maximum(m, np.abs(f.U - s.U)[..., :len(e)].reshape(-1, len(e)).max(0))
    return bool((fac * m.max() >= np.max(e)))
