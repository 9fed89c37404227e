"""Special relativity: rate of change of smooth states against the relativistic equations, conservation and physicality,
symmetries, and the Newtonian limit."""
from .common import *
from . import resid, C05
from .feats import sr_prims
from vp import cfgs
from vp.build import cfg

RULE = ("A case is a relativistic state (speeds up to 0.9 of light, gas pressure from cold to hot, any field) on a grid, advanced by the real program; smooth states are stepped once at two resolutions, the others are "
        "run for a few steps together with their image under a symmetry or in the Newtonian program. Non-trivial: the state changed by more than 1e-5 of its scale.")
ASSUMPTIONS = ["conservation to 1e-11 of each variable's mean size; states whose inversion the program itself reports as failed are left out", "Newtonian limit at speeds of a few percent of light"]

NS = {1: 64, 2: 32, 3: 16}


def sr_cfgs():
    out = []
    for o, f in (("2p", "hllc"), ("1", "hllc"), ("3p", "hllc"), ("2p", "exact")):
        out.append(cfg("hydro", "adiabatic", o, f, "vl", 0, sr=1))
    for o, f in (("2p", "hlld"), ("1", "hlle"), ("2p", "hllc"), ("3p", "hlld"), ("2p", "hlle")):
        out.append(cfg("mhd", "adiabatic", o, f, "vl", 0, sr=1))
    return out


def residual(case, c, nd, exe):
    d = dict(c)
    s = dict(case["s"], v0=[v * case["vs"] for v in case["s"]["v0"]])
    sm = resid.Smooth(s, case["L"], [0.0] * 3, nd, d["gas"], 0, vamp=0.1)
    eq = resid.SR(c, case["gamma"], 1.0)
    N = [NS[nd] if q < nd else 1 for q in range(3)]
    mk = lambda N: blk(dict(case, N=N, nlim=1, cour=0.1))
    first = d["order"] == "1" or d["flux"] == "hlle"
    fl = {1: 0.006, 2: 0.008, 3: 0.02}[nd]
    m = resid.converge(exe["x"], mk, sm, eq, N, c, what="smooth relativistic state", ratio=0.8 if first else 0.65, floor=3 * fl if first else fl)
    return m > 1e-3, "residual %dd" % nd


def physical(U, B, case, c):
    """does a physical state with these conserved variables exist?  E^2 > D^2 + M^2 (hydro)"""
    if dict(c)["gas"] == "hydro":
        return bool((U[..., 0] > 0).all() and (U[..., 4] ** 2 > U[..., 0] ** 2 + (U[..., 1:4] ** 2).sum(-1)).all())
    return bool((U[..., 0] > 0).all() and (U[..., 4] > 0).all())


def evolve(case, c, exe):
    d = dict(c)
    N, L, dx, w, U = sr_prims(case, c)
    f = ath.final(exe["x"], blk(case), {(0, 0): (U, w["B"])})
    need(f.nstep == case["nlim"], "run stopped after %d of %d steps", f.nstep, case["nlim"])
    need(np.isfinite(f.U).all(), "non-finite state")
    sc = scales(U, c, case["gamma"], 1.0)
    n = U[..., 0].size
    dlt = (f.U - U).reshape(n, -1).sum(0)[:len(sc)] / n
    for i in range(len(sc)):
        need(abs(dlt[i]) <= 1e-11 * sc[i], "total of %s changed by %.3e per cell (scale %.3e) over %d steps", ath.names(c)[i], dlt[i], sc[i], case["nlim"])
    need(physical(f.U, f.B, case, c), "conserved variables of no physical state (speed of light exceeded or negative energy)")
    if d["gas"] == "mhd":
        dv = np.abs(gen.divB(f.B, N, dx)).max() * min(dx[:ndim(N)])
        bs = max(np.abs(b).max() for b in f.B)
        need(dv <= 1e-11 * max(bs, 1e-3), "divergence of B times cell size is %.3e (field %.3g)", dv, bs)
        e = max(np.abs(a - f.U[..., 5 + q]).max() for q, a in enumerate(gen.cellB(f.B, N)))
        need(e <= 1e-12 * max(bs, 1e-3), "cell-centred field is not the mean of the face fields (%.3e)", e)
    ch = np.abs(f.U - U).reshape(n, -1).max(0)[:len(sc)] / sc
    return bool(ch.max() > 1e-5), "%dD" % ndim(N)


def newton(case, c, nc, exe):
    """velocities, sound and Alfven speeds scaled by eps: D, M, tau, B scale to the Newtonian rho, M, E, B"""
    d = dict(c)
    N, L = case["N"], case["L"]
    dx = [L[i] / N[i] for i in range(3)]
    w = gen.prims(case["st"], N, dx, d["gas"], "adiabatic", 0, 0.5, 0.3, 0.2)
    Un = gen.cons(w, d["gas"], "adiabatic", case["gamma"])
    s0 = ath.final(exe["n"], blk(case), {(0, 0): (Un, w["B"])})
    if not C05.sane(s0):
        return False, "blown up"
    eps = 0.03
    ws = dict(w, v=[v * eps for v in w["v"]], p=w["p"] * eps ** 2)
    if w["B"] is not None:
        ws["B"] = [b * eps for b in w["B"]]
        ws["Bc"] = [b * eps for b in w["Bc"]]
    U = resid.SR(c, case["gamma"], 1.0).cons(dict(ws, B=ws.get("Bc")))
    b = blk(dict(case, nlim=-1), tlim=s0.time / eps)
    s1 = ath.final(exe["x"], b, {(0, 0): (U, ws.get("B"))})
    m = [1] + [1 / eps] * 3 + ([0] + [1 / eps] * 3 if d["gas"] == "mhd" else [0])
    V = s1.U[..., :len(m)] * np.array(m)
    V[..., 4] = (s1.U[..., 4] - s1.U[..., 0]) / eps ** 2
    sc = scales(Un, nc, case["gamma"], 1.0)
    ch = np.abs(s0.U - Un)[..., :len(sc)].reshape(-1, len(sc)).mean(0)
    e = np.abs(V - s0.U[..., :len(sc)]).reshape(-1, len(sc)).mean(0)
    for i in range(len(sc)):
        need(e[i] <= 0.02 * sc[i] + 0.05 * ch[i], "Newtonian limit: %s differs by %.3e on average from the Newtonian program (scale %.3g, change %.3g)", ath.names(c)[i], e[i], sc[i], ch[i])
    return bool((ch / sc).max() > 1e-3), "newton %dD" % ndim(N)


def subs(tier):
    out = []
    gm = st.sampled_from([5 / 3., 4 / 3.])
    ex = dict(amp=r(0.02, 0.2, 2), sd=st.integers(0, 10 ** 6), gamma=gm, vcap=r(0.2, 0.9, 1), cour=r(0.2, 0.4, 1))
    for c in sr_cfgs():
        d = dict(c)
        b = {"x": spec(c, "-O0")}
        bo = {"x": spec(c, "-O2")}
        ex["tol"] = st.just(1e-3 if d["flux"] == "exact" else 1e-6)      # iterative solvers
        for nd in (1, 2, 3):
            s = st.fixed_dictionaries(dict(L=st.tuples(*[r(0.8, 1.6, 1)] * 3).map(list), s=resid.smooth_strategy(nd, d["gas"], 0, vmax=0.5, bmax=1.0), gamma=gm, vs=st.sampled_from([1.0, 0.5, 1.0, 0.1]), cs=st.just(1.0)))
            out.append(Sub("residual-%s-%dd" % (label(c), nd), s, (lambda case, exe, c=c, nd=nd: residual(case, c, nd, exe)), bo, {1: 8, 2: 8, 3: 4}[nd]))
            s = evo_case(c, nd, gamma=gm, vcap=r(0.2, 0.9, 1), cour=r(0.2, 0.4, 1))
            out.append(Sub("evolve-%s-%dd" % (label(c), nd), s, (lambda case, exe, c=c: evolve(case, c, exe)), b, {1: 16, 2: 16, 3: 16}[nd]))
            s = evo_case(c, nd, steps=(1, 3), maxn=2, kinds=("mode", "box"), kind=st.sampled_from(["shift", "mirror", "flip"] + (["perm"] if nd > 1 else [])),
                         sh=st.tuples(*[st.integers(-5, 5)] * 3).map(list), pi=st.integers(0, 59), **ex)
            out.append(Sub("sym-%s-%dd" % (label(c), nd), s, (lambda case, exe, c=c: C05.do(case, c, exe)), b, {1: 10, 2: 16, 3: 16}[nd]))
            for hi in range(nd + 1, 4):
                s = evo_case(c, nd, steps=(1, 3), maxn=2, kinds=("mode", "box"), hi=st.just(hi), pi=st.integers(0, 59), m=st.integers(4, 6), **ex)
                out.append(Sub("embed-%s-%d-%d" % (label(c), nd, hi), s, (lambda case, exe, c=c: C05.extend(case, c, exe)), b, 8))
            if d["order"] == "2p" and d["flux"] in ("hllc", "hlld") and not (d["gas"] == "mhd" and d["flux"] == "hllc"):
                nc = cfg(d["gas"], "adiabatic", d["order"], d["flux"], "vl", 0)
                s = evo_case(c, nd, steps=(2, 4), maxn=2, kinds=("mode",), gamma=gm, cour=r(0.2, 0.4, 1))
                out.append(Sub("newton-%s-%dd" % (label(c), nd), s, (lambda case, exe, c=c, nc=nc: newton(case, c, nc, exe)), dict(b, n=spec(nc, "-O0")), 8))
    return out
