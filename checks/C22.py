"""Passive scalars: relations between runs that differ only in their scalars."""
from .common import *
from .C05 import sane
from vp import cfgs

RULE = ("A case is a random gas state, grid, Courant number and step count with one relation between runs that differ only in their "
        "scalar fields. Non-trivial: the gas moved (density changed by more than 1e-6 of its scale) so that scalars were transported.")
ASSUMPTIONS = ["uniform concentration is required to 1e-11; the linearity relation excludes the LimO3/Koren limiter switches with absolute thresholds"]


def rd(exe, case, U, B, **kw):
    return ath.final(exe, blk(case, **kw), {(0, 0): (U, B)})


def do(case, c, exe):
    case = dict(case)
    case["st"] = gen.generic(case["st"], case["amp"], case["sd"])
    N, L, dx, w, U = expand(case, c)
    n = int(dict(c)["nscal"])
    rho = U[..., 0]
    B = w["B"]
    k = case["kind"]
    U = U.copy()
    bc = case["bc"]
    if k == "uniform":
        cc = case["conc"]
        for i in range(n):
            U[..., -n + i] = rho * cc[i]
        f = rd(exe["x"], case, U, B, bc=bc)
        if not sane(f):
            return False, "blown up"
        for i in range(n):
            e = np.abs(f.U[..., -n + i] - f.U[..., 0] * cc[i]).max()
            need(e <= 1e-11 * (rho.mean() * max(1, abs(cc[i]))), "uniform concentration %g of scalar %d changed by %.3e", cc[i], i, e)
    elif k == "none":
        f = rd(exe["x"], case, U, B, bc=bc)
        if not sane(f):
            return False, "blown up"
        g = rd(exe["y"], case, U[..., :-n], B, bc=bc)
        e = np.abs(f.U[..., :-n] - g.U).max()
        need(e == 0 and f.time == g.time, "gas differs by %.3e (times %.17g %.17g) when compiled without scalars", e, f.time, g.time)
        if B is not None:
            need(all(np.array_equal(a, b) for a, b in zip(f.B, g.B)), "face fields differ when compiled without scalars")
    elif k == "change":
        f = rd(exe["x"], case, U, B, bc=bc)
        if not sane(f):
            return False, "blown up"
        V = U.copy()
        rs = np.random.RandomState(case["sd"])
        for i in range(n):
            V[..., -n + i] = rho * rs.uniform(-3, 3, rho.shape)
        g = rd(exe["x"], case, V, B, bc=bc)
        need(np.array_equal(f.U[..., :-n], g.U[..., :-n]) and f.time == g.time, "gas changes by %.3e with different scalar data",
             np.abs(f.U[..., :-n] - g.U[..., :-n]).max())
    elif k == "alike":
        U[..., -1] = U[..., -n]
        f = rd(exe["x"], case, U, B, bc=bc)
        if not sane(f):
            return False, "blown up"
        need(np.array_equal(f.U[..., -1], f.U[..., -n]), "scalars 0 and %d started equal and differ by %.3e", n - 1,
             np.abs(f.U[..., -1] - f.U[..., -n]).max())
    elif k == "swap":
        f = rd(exe["x"], case, U, B, bc=bc)
        if not sane(f):
            return False, "blown up"
        V = U.copy()
        V[..., -n:] = U[..., -n:][..., ::-1]
        g = rd(exe["x"], case, V, B, bc=bc)
        need(np.array_equal(f.U[..., -n:][..., ::-1], g.U[..., -n:]), "exchanging the scalars does not exchange the results: %.3e",
             np.abs(f.U[..., -n:][..., ::-1] - g.U[..., -n:]).max())
    elif k == "scale":
        f = rd(exe["x"], case, U, B, bc=bc)
        if not sane(f):
            return False, "blown up"
        V = U.copy()
        m = [2.0, -0.25, 4.0][:n]
        for i in range(n):
            V[..., -n + i] *= m[i]
        g = rd(exe["x"], case, V, B, bc=bc)
        for i in range(n):
            e = np.abs(f.U[..., -n + i] * m[i] - g.U[..., -n + i]).max()
            need(e <= 1e-12 * abs(m[i]) * rho.mean(), "scalar %d multiplied by %g: result off by %.3e", i, m[i], e)
    elif k == "range":
        f = rd(exe["x"], case, U, B, bc=bc)
        if not sane(f):
            return False, "blown up"
        for i in range(n):
            r0, r1 = U[..., -n + i] / rho, f.U[..., -n + i] / f.U[..., 0]
            sl = 1e-10 * max(1, np.abs(r0).max())
            need(r1.min() >= r0.min() - sl and r1.max() <= r0.max() + sl, "scalar %d left its initial range [%.6g,%.6g]: [%.6g,%.6g]",
                 i, r0.min(), r0.max(), r1.min(), r1.max())
    need(np.isfinite(f.U).all(), "non-finite state")
    return bool(np.abs(f.U[..., 0] - rho).max() > 1e-6 * rho.mean()), k


def subs(tier):
    out = []
    for c in cfgs.main(nscal=3) + cfgs.special(nscal=3):
        d = dict(c)
        y = B.cfg(d["gas"], d["eos"], d["order"], d["flux"], d["integ"], 0, **{k: d[k] for k in ("hcorr", "fofc") if k in d})
        b = {"x": spec(c, "-O0"), "y": spec(y, "-O0")}
        for nd in (1, 2, 3):
            kinds = ["uniform", "none", "change", "alike", "swap"]
            if d["order"] not in ("3pck", "3pcl"):
                kinds.append("scale")
            e = dict(kind=st.sampled_from(kinds), amp=r(0.02, 0.3, 2), sd=st.integers(0, 10 ** 6), bc=bc_strategy(nd),
                     conc=st.tuples(*[r(-2, 2, 2)] * 3).map(list))
            out.append(Sub("%s-%dd" % (label(c), nd), evo_case(c, nd, maxn=2, steps=(1, 4), **e),
                           (lambda case, exe, c=c: do(case, c, exe)), b, {1: 12, 2: 16, 3: 14}[nd]))
            if nd == 1 and d["order"] == "1" and d["integ"] == "ctu":
                e = dict(e, kind=st.just("range"))
                out.append(Sub("range-%s-%dd" % (label(c), nd), evo_case(c, nd, maxn=2, steps=(1, 6), **dict(e, cour=r(0.2, 0.4, 1))),
                               (lambda case, exe, c=c: do(case, c, exe)), b, 30))
    return out + feat_subs()


def feat(case, fe, exe):
    b, ics, par = fe.make(case)
    n = int(dict(fe.c)["nscal"])
    o = -n - (1 if "cyl" in dict(fe.c) else 0)
    k = case["rel"]
    rs = np.random.RandomState(case["sd"])
    ic2 = {}
    for key, ic in ics.items():
        V = ic[0].copy()
        for i in range(n):
            V[..., o + i] = V[..., 0] * (case["conc"][i] if k == "uniform" else rs.uniform(-3, 3, V.shape[:3]))
        ic2[key] = (V,) + tuple(ic[1:])

    def go(ics):
        with ath.Scratch() as d:
            ath.run(exe["x"], b, ics, d, par=par)
            return ath.states(d)
    f = go(ic2)
    if any(not np.isfinite(x.U).all() for x in f):
        return False, "blown up"
    if k == "uniform":
        for x in f:
            for i in range(n):
                e = np.abs(x.U[..., o + i] - x.U[..., 0] * case["conc"][i]).max()
                need(e <= 1e-10 * max(1, abs(case["conc"][i])) * np.abs(x.U[..., 0]).max(), "%s: uniform concentration changed by %.3e", fe.name, e)
    else:
        g = go(ics)
        for x, y in zip(f, g):
            m = [i for i in range(x.U.shape[3]) if not o + x.U.shape[3] <= i < o + n + x.U.shape[3]]
            need(np.array_equal(x.U[..., m], y.U[..., m]), "%s: gas changes by %.3e with different scalar data", fe.name,
                 np.abs(x.U[..., m] - y.U[..., m]).max())
            if x.B is not None:
                need(all(np.array_equal(a, c) for a, c in zip(x.B, y.B)), "%s: face field changes with different scalar data", fe.name)
    ch = np.abs(f[0].U[..., 0] - f[0].U[..., 0].mean()).max()
    return bool(ch > 0), "physics " + k


def feat_subs():
    from . import feats
    out = []
    for fe in feats.table():
        if int(dict(fe.c)["nscal"]) == 0:
            continue
        for nd in fe.nds:
            s = st.tuples(fe.strategy(nd), st.fixed_dictionaries(dict(rel=st.sampled_from(["change"] if "sb" in dict(fe.c) else ["uniform", "change"]), sd=st.integers(0, 10 ** 6),
                          conc=st.tuples(*[r(-2, 2, 2)] * 3).map(list)))).map(lambda t: dict(t[0], **t[1]))
            out.append(Sub("feat-%s-%dd" % (fe.name, nd), s, (lambda case, exe, fe=fe: feat(case, fe, exe)), {"x": spec(fe.c)}, 8))
    return out
