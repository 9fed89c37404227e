"""Time step.  Every run records the exact state and the next time step at every cycle; the step is recomputed from the
state by an independent reference (signal speeds in every cell, diffusion limit, growth limit, time limit)."""
from .common import *
from vp import cfgs

RULE = ("A case is a random state, grid, Courant number, time and cycle limit for one configuration; every recorded step of the run "
        "is compared with the reference. Non-trivial: at least two steps were compared and the state is not uniform.")
ASSUMPTIONS = ["relative tolerance 1e-11 between the program's step and the reference"]


def rates(r, c, case):
    """largest inverse crossing time of one Grid, and the three signal speed maxima"""
    d = dict(c)
    N = r.Nx
    sl = tuple(slice(r.g[2 - a], r.g[2 - a] + N[2 - a]) for a in range(3))
    U = r.U[sl]
    rho = U[..., 0]
    v = [U[..., 1 + q] / rho for q in range(3)]
    v2 = sum(x * x for x in v)
    adi = d["eos"] == "adiabatic"
    b = [0, 0, 0]
    if d["gas"] == "mhd":
        o = 5 if adi else 4
        b = [np.abs(U[..., o + q]) + np.abs(r.B[q][sl] - U[..., o + q]) for q in range(3)]
    b2 = sum(x * x for x in b)
    if adi:
        a2 = case["gamma"] * np.maximum((case["gamma"] - 1) * (U[..., 4] - 0.5 * rho * v2 - 0.5 * b2), 1e-20) / rho
    else:
        a2 = case["cs"] ** 2 + 0 * rho
    sp = []
    for q in range(3):
        bt = b2 - b[q] * b[q]
        s, t = b2 / rho + a2, b2 / rho - a2
        sp.append(np.abs(v[q]) + np.sqrt(0.5 * (s + np.sqrt(t * t + 4 * a2 * bt / rho))))
    if "cyl" in d:
        x1 = (r.MinX[0] + (np.arange(N[0]) + 0.5) * r.dx[0])
        sp[1] = sp[1] / x1
    m = [float(x.max()) for x in sp]
    if r.par is not None and len(r.par):
        for q in range(3):
            m[q] = max(m[q], float(np.abs(r.par[:, 3 + q]).max()))
    if "sr" in d:
        m = [1.0, 1.0, 1.0]
    return max(m[q] / r.dx[q] for q in range(3) if N[q] > 1), m


def diff_rate(rs, c, case):
    d = dict(c)
    nd = ndim(rs[0].DNx)
    coef = 0.0
    if "cond" in d:
        coef = max(coef, case["kappa_iso"] + case["kappa_aniso"])
    if "visc" in d:
        coef = max(coef, case["nu_iso"] + case["nu_aniso"])
    if "res" in d:
        coef = max(coef, case["eta_Ohm"])
    dx = min(rs[0].dx[q] for q in range(nd))
    return coef / (dx * dx / {1: 4.0, 2: 8.0, 3: 6.0}[nd])


def run(case, c, exe, par=None, **prob):
    N, L, dx, w, U = expand(case, c)
    d_ = dict(c)
    if "cyl" in d_:
        prob["x0"] = (case["r0"], 0.0, 0.0)
    with ath.Scratch() as d:
        b = every_step(blk(case, tlim=case["tlim"], **prob))
        if par is not None:
            par_block(b, 1, case["interp"], 3, case["pint"])
        ath.run(exe["x"], b, {(0, 0): (U, w["B"])}, d, par=par)
        recs = list(outs(d))
        fin = ath.states(d, "final")
    need(len(recs) >= 1, "no state recorded")
    recs.append(("final", fin))
    # the initial forced output is followed by the first step's output of the same state
    prev = None
    cmp_ = 0
    lim = ""
    for k, rs in recs:
        r = rs[0]
        if prev is not None and r.nstep == prev.nstep:
            continue
        rate = max(rates(x, c, case)[0] for x in rs)
        if not np.isfinite(rate):
            return False, "blown up"
        dt = case["cour"] / rate
        lim = "cfl"
        if r.nstep > 0:
            need(abs(r.time - (prev.time + prev.dt)) <= 1e-12 * r.time, "cycle %d: time %.17g is not the previous time plus the step", r.nstep, r.time)
            if 2 * prev.dt < dt:
                dt, lim = 2 * prev.dt, "double"
        if r.time < case["tlim"] and case["tlim"] - r.time < dt:
            dt, lim = case["tlim"] - r.time, "tlim"
        if any(x in d_ for x in ("cond", "visc", "res")):
            dr = diff_rate(rs, c, case)
            if dr * dt > case["cour"]:
                dt, lim = case["cour"] / dr, "diffusion"
        need(abs(r.dt - dt) <= 1e-11 * dt, "cycle %d: step %.17g, reference %.17g (limited by %s)", r.nstep, r.dt, dt, lim)
        for x in rs:
            need(x.gtime == r.time and x.gdt == r.dt, "cycle %d: a grid has its own time or step", r.nstep)
        cmp_ += 1
        prev = r
    if prev.nstep < case["nlim"]:
        need(abs(prev.time - case["tlim"]) <= 1e-12 * case["tlim"], "run ended at %.17g instead of the time limit %.17g", prev.time, case["tlim"])
    else:
        need(prev.nstep == case["nlim"], "run took %d cycles, limit %d", prev.nstep, case["nlim"])
    return bool(cmp_ > 1 and np.ptp(U[..., 0]) + np.ptp(U[..., 1]) > 0), lim


def particles(case, c, exe):
    return run(case, c, exe, par=par_file(case["pp"], [(case["ts"], 1e-6, 0.0, case["pint"])], case["N"], case["L"]))


def subs(tier):
    out = []
    # physical run length is a few crossing times of a cell, so that both limits are met
    ex = dict(tlim=logr(3e-3, 3.0))
    for c in cfgs.main(nscal=1) + cfgs.special(nscal=1)[:1]:
        s = st.sampled_from([1, 2, 3]).flatmap(lambda nd, c=c: evo_case(c, nd, steps=(1, 6), **ex))
        out.append(Sub(label(c), s, (lambda case, exe, c=c: run(case, c, exe)), {"x": spec(c, "-O0")}, 24))
    for flag, pars in (("visc", dict(nu_iso=st.sampled_from([0.001, 0.01, 0.3, 3.0]), nu_aniso=st.just(0.0))),
                       ("cond", dict(kappa_iso=st.sampled_from([0.001, 0.01, 0.3, 3.0]), kappa_aniso=st.just(0.0))),
                       ("res", dict(eta_Ohm=st.sampled_from([0.001, 0.01, 0.3, 3.0])))):
        c = B.cfg("mhd" if flag == "res" else "hydro", "adiabatic", "2", "hlle", "ctu", 0, **{flag: 1})
        s = st.sampled_from([1, 2, 3]).flatmap(lambda nd, c=c, pars=pars: evo_case(c, nd, steps=(1, 4), **ex, **pars))
        out.append(Sub(flag, s, (lambda case, exe, c=c, pars=pars: run(case, c, exe, **{k: case[k] for k in pars})), {"x": spec(c, "-O0")}, 30))
    c = B.cfg("mhd", "adiabatic", "2p", "hlld", "vl", 0, cyl=1)
    s = st.sampled_from([1, 2, 3]).flatmap(lambda nd, c=c: evo_case(c, nd, steps=(1, 4), r0=r(0.5, 3, 1), **ex))
    out.append(Sub("cyl", s, (lambda case, exe, c=c: run(case, c, exe)), {"x": spec(c, "-O0")}, 30))
    for nd in (2, 3):
        c = B.cfg("hydro", "isothermal", "2", "roe", "ctu", 0, par=1)
        s = evo_case(c, nd, steps=(1, 4), vmax=0.3, pp=st.tuples(par_strategy(vmax=3.0), st.integers(0, nd)).map(lambda t: [[v * (0.1 if 3 <= i < 6 and t[1] and i - 2 != t[1] else 1.0) for i, v in enumerate(q)] for q in t[0]]), ts=logr(0.01, 10), pint=st.integers(1, 3), interp=st.integers(1, 3), **ex)
        out.append(Sub("particles-%dd" % nd, s, (lambda case, exe, c=c: particles(case, c, exe)), {"x": spec(c, "-O0")}, 30))
    c = B.cfg("hydro", "adiabatic", "2p", "hllc", "vl", 0, sr=1)
    s = st.sampled_from([1, 2, 3]).flatmap(lambda nd, c=c: evo_case(c, nd, steps=(1, 4), vmax=0.2, maxn=0, **ex))
    out.append(Sub("sr", s, (lambda case, exe, c=c: run(case, c, exe)), {"x": spec(c, "-O0")}, 20))
    return out
