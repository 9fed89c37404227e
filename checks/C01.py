"""Conservation on periodic domains."""
import re

from .common import *
from vp import cfgs
from vp.build import cfg

RULE = ("A case is a periodic initial state (base values plus Fourier, box, noise and single-cell features in every "
        "variable and in the vector potential), a grid, a Courant number and a number of steps, run by the real program "
        "for one build configuration. Non-trivial: the state changed by more than 1e-5 of its scale.")
ASSUMPTIONS = ["round-off tolerance 1e-11 of the domain-integrated magnitude of each variable"]


def conserve(case, c, exe):
    N, L, dx, w, U = expand(case, c)
    f = ath.final(exe["x"], blk(case), {(0, 0): (U, w["B"])})
    need(f.nstep == case["nlim"], "run stopped after %d of %d steps", f.nstep, case["nlim"])
    need(np.isfinite(f.U).all(), "non-finite state")
    sc = scales(U, c, case["gamma"], case["cs"])
    n = U[..., 0].size
    nv = len(sc)
    dlt = (f.U - U).reshape(n, -1).sum(0)[:nv] / n
    nm = ath.names(c)
    for i in range(nv):
        need(abs(dlt[i]) <= 1e-11 * sc[i], "total of %s changed by %.3e per cell (scale %.3e) over %d steps",
             nm[i], dlt[i], sc[i], case["nlim"])
    ch = np.abs(f.U - U).reshape(n, -1).max(0)[:nv] / sc
    return bool(ch.max() > 1e-5), "%dD" % (1 + (N[1] > 1) + (N[2] > 1))


def violent(c, nd):
    """cold gas with strong velocity, density and field jumps in the middle of the grid, so that the update of some cells fails and is redone with first-order fluxes; one step, so that no
    such cell lies at the edge of the grid"""
    d_ = dict(c)
    N1 = {2: 12, 3: 10}[nd]

    def fn(case, exe):
        N = [N1] * nd + [1] * (3 - nd)
        sh = (N[2], N[1], N[0])
        rg = np.random.RandomState(case["seed"])
        m = np.zeros(sh)
        lo, hi = 4, N1 - 4
        m[tuple(slice(lo, hi) if N[2 - a] > 1 else slice(None) for a in range(3))] = 1
        def noise():        # rough or smoother: steep gradients spanning a few cells make the high-order update fail most often
            x = rg.uniform(-1, 1, sh)
            for a in range(3):
                for _ in range(case["smooth"]):
                    if sh[a] > 1:
                        x = (x + np.roll(x, 1, a)) / 1.3
            return x
        w = dict(rho=1 + m * (10 ** np.clip(1.5 * noise() - 0.5, -3, 1) - 1), p=case["p"] * np.ones(sh), v=[m * case["v"] * noise() for _ in range(3)],
                 r=[m * rg.uniform(0, 1, sh) for _ in range(int(d_["nscal"]))], B=None, Bc=None)
        Bf = None
        if d_["gas"] == "mhd":
            A = [np.zeros((N[2] + (N[2] > 1), N[1] + (N[1] > 1), N[0] + 1)) for _ in range(3)]
            s3 = tuple(slice(lo + 1, hi) if N[2 - a] > 1 else slice(None) for a in range(3))
            for a in range(3):
                A[a][s3] = case["b"] * 0.1 * rg.uniform(-1, 1, A[a][s3].shape)
            z = lambda a, ax: np.diff(a, axis=ax) * N1 if a.shape[ax] > 1 else 0.0 * a
            cut = lambda a, axes: a[tuple(slice(0, N[2 - x]) if x in axes else slice(None) for x in range(3))]
            # B = curl A with A on edges: A1 at (j,k) edges, A2 at (i,k), A3 at (i,j)
            d2A3, d3A2 = z(cut(A[2], (0,)), 1), z(cut(A[1], (1,)), 0)
            d3A1, d1A3 = z(cut(A[0], (2,)), 0), z(cut(A[2], (0,)), 2)
            d1A2, d2A1 = z(cut(A[1], (1,)), 2), z(cut(A[0], (2,)), 1)
            Bf = [d2A3 - d3A2[..., :] if d3A2.shape == d2A3.shape else d2A3, d3A1 - d1A3 if d3A1.shape == d1A3.shape else -d1A3, d1A2 - d2A1]
            b0 = case["b0"]
            Bf = [x + y for x, y in zip(Bf, b0)]
            av = lambda a, ax: 0.5 * (np.take(a, range(a.shape[ax] - 1), ax) + np.take(a, range(1, a.shape[ax]), ax)) if a.shape[ax] > 1 else a
            w["B"], w["Bc"] = Bf, [av(Bf[0], 2), av(Bf[1], 1), av(Bf[2], 0)]
        U = gen.cons(w, d_["gas"], "adiabatic", case["gamma"])
        b = ath.blocks(N, [1.0] * 3, nlim=1, tlim=1e3, cour=case["cour"], gamma=case["gamma"], trace=2)
        with ath.Scratch() as d:
            p = ath.run(exe["x"], b, {(0, 0): (U, Bf)}, d)
            rs = ath.states(d)
            f = ath.assemble(rs)
            if not np.isfinite(f.U).all():
                return False, "blown up"
            sc = np.abs(U).max()
            for i in range(U.shape[-1]):
                e = abs((f.U - U)[..., i].sum()) / m.sum()
                need(e <= 1e-11 * sc, "total of %s changed by %.3e per cell with first-order flux correction (%s)", ath.names(c)[i], e, "".join(re.findall("Step14.*", p.out)))
            if Bf is not None:
                x = gen.divB(f.B, N, [1.0 / N1] * 3)
                e = np.abs(x).max() / N1
                need(e <= 1e-11 * max(1, max(np.abs(q).max() for q in f.B)), "div B * dx = %.3e with first-order flux correction", e)
        return "Step14" in p.out, "corrected" if "Step14" in p.out else "not needed"
    s = st.fixed_dictionaries(dict(seed=st.integers(0, 10 ** 6), smooth=st.sampled_from([0, 1, 2, 2, 3, 3]), p=logr(1e-9, 1e-4), v=r(1, 10, 1), cour=r(0.3, 0.5, 1), gamma=st.sampled_from([5 / 3., 1.4]), b=r(0, 2, 1),
                                   b0=st.tuples(*[r(-1, 1, 1)] * 3).map(list)))
    return s, fn


def subs(tier):
    out = []
    for gas in ("hydro", "mhd"):
        for nd in (2, 3):
            c = cfg(gas, "adiabatic", "3p", "hllc" if gas == "hydro" else "hlld", "vl", 2, fofc=1)
            s, fn = violent(c, nd)
            out.append(Sub("fofc-%s-%dd" % (gas, nd), s, fn, {"x": spec(c, "-O0")}, 50 if gas == "hydro" else 90, 1500))
    for c in cfgs.main() + cfgs.special():
        for nd in (1, 2, 3):
            out.append(Sub("%s-%dd" % (label(c), nd), evo_case(c, nd),
                           (lambda case, exe, c=c: conserve(case, c, exe)), {"x": spec(c, "-O0")},
                           {1: 16, 2: 24, 3: 24}[nd]))
    return out
