"""Divergence-free field.  Initial fields are curls of generated vector potentials (plus a uniform field); the discrete
divergence of every cell and the cell-centred/face-centred consistency are evaluated after every step of a real run."""
from .common import *
from vp import cfgs
from . import feats

RULE = ("A case is a divergence-free random field plus gas state, boundary flags, grid and step count for one configuration. "
        "Non-trivial: the face-centred field changed by more than 1e-6 of its scale during the run.")
ASSUMPTIONS = ["divergence tolerance 3e-11 * field scale / smallest cell size (round-off)"]


def bscale(U, c, case):
    return float(np.sqrt((U[..., 0] * speed(U, c, case["gamma"], case["cs"]) ** 2).max()))


def check_rec(r, c, bs, tag, tol=3e-11, bc=(4,) * 6):
    """every Grid record: divergence of active cells, and cell-centred average.  Cells touching a reflecting wall are
    left out: the wall's normal field is reset to zero by the boundary condition, not evolved."""
    d = dict(c)
    N = r.Nx
    gi, gj, gk = r.g
    sl = [slice(gk, gk + N[2]), slice(gj, gj + N[1]), slice(gi, gi + N[0])]
    ib = 5 if d["eos"] == "adiabatic" else 4
    dmin = min(r.dx[q] for q in range(3) if N[q] > 1)
    x1f = r.MinX[0] + np.arange(N[0] + 1) * r.dx[0]
    div = 0.0
    for q in range(3):
        lo = r.B[q][tuple(sl)]
        bcen = r.U[tuple(sl)][..., ib + q]
        if q == 0 or N[q] > 1:
            s2 = list(sl)
            ax = 2 - q
            s2[ax] = slice(sl[ax].start + 1, sl[ax].stop + 1)
            hi = r.B[q][tuple(s2)]
            avg = 0.5 * (lo + hi)
            if "cyl" in d and q == 0:
                xv = 0.5 * (x1f[1:] + x1f[:-1])
                avg = 0.5 * (x1f[:-1] * lo + x1f[1:] * hi) / xv
            if N[q] > 1:
                if "cyl" in d:
                    xv = 0.5 * (x1f[1:] + x1f[:-1])
                    if q == 0:
                        div = div + (x1f[1:] * hi - x1f[:-1] * lo) / (xv * r.dx[0])
                    elif q == 1:
                        div = div + (hi - lo) / (xv * r.dx[1])
                    else:
                        div = div + (hi - lo) / r.dx[2]
                else:
                    div = div + (hi - lo) / r.dx[q]
        else:
            avg = lo
        e = np.abs(avg - bcen)
        if N[q] > 1:
            for side in (0, 1):
                if bc[2 * q + side] == 1:
                    e = np.delete(e, [0 if side == 0 else e.shape[2 - q] - 1], axis=2 - q)
        e = e.max() if e.size else 0.0
        need(e <= 1e-12 * bs, "%s: cell-centred B%d differs from the face average by %.3e (scale %.3g)", tag, q + 1, e, bs)
    div = np.array(div)
    for q in range(3):
        for side in (0, 1):
            if bc[2 * q + side] == 1 and N[q] > 1:
                ix = [slice(None)] * 3
                ix[2 - q] = 0 if (side == 0 and r.Disp[q] == 0) else (-1 if side == 1 and r.Disp[q] + N[q] == r.DNx[q] else slice(0, 0))
                div[tuple(ix)] = 0.0
    m = float(np.abs(div).max())
    need(np.isfinite(m), "%s: non-finite field", tag)
    need(m * dmin <= tol * bs, "%s: div B * dx = %.3e (field scale %.3g)", tag, m * dmin, bs)


def run_div(case, c, exe, bc, **prob):
    N, L, dx, w, U = expand(case, c)
    bs = bscale(U, c, case)
    with ath.Scratch() as d:
        ath.run(exe["x"], blk(case, bc, trace=2, **prob), {(0, 0): (U, w["B"])}, d)
        last = None
        for n, rs in seq(d, case["nlim"]):
            for r in rs:
                if not np.isfinite(r.U).all():
                    return False, "blown up"
                bs = max(bs, *[float(np.abs(b).max()) for b in r.B])
                check_rec(r, c, bs, "step %d" % n, bc=bc)
            last = rs
        need(last is not None, "no step was taken")
        f = ath.assemble(last)
    ch = max(np.abs(f.B[q] - w["B"][q]).max() for q in range(3))
    return bool(ch > 1e-6 * bs), "%dD" % ndim(N)


def run_feat(f):
    def fn(case, exe):
        b, ics, par = f.make(case)
        b["problem"].update(trace=2)
        d1 = b["domain1"]
        bc = [d1.get("bc_%sx%d" % (e, q + 1), 4) for q in range(3) for e in "io"]
        B0 = {k: ic[1] for k, ic in ics.items()}
        with ath.Scratch() as d:
            ath.run(exe["x"], b, ics, d, par=par)
            bs, n0, last = max(float(np.abs(x).max()) for B in B0.values() for x in B), 0, None
            for n, rs in seq(d, case["nlim"]):
                for r in rs:
                    if not np.isfinite(r.U).all():
                        return False, "blown up"
                    bs = max(bs, *[float(np.abs(x).max()) for x in r.B])
                    check_rec(r, f.c, bs, "step %d, level %d Domain %d" % (n, r.level, r.dom), bc=bc if r.level == 0 else [4] * 6 if len(rs) == 1 else bc)
                last = rs
                n0 += 1
            need(n0 > 0 or case["nlim"] == 0, "no step was taken")
            if last is None:
                return False, "no step"
            ch = max(float(np.abs(r.B[q]).max()) for r in last for q in range(3))
        return ch > 0, f.name
    return fn


def subs(tier):
    out = []
    for f in feats.table():
        if dict(f.c)["gas"] == "mhd" and (set(dict(f.c)) & {"res", "sb", "cyl", "sr", "smr", "sts"}):
            for nd in f.nds:
                if nd > 1:
                    out.append(Sub("feat-%s-%dd" % (f.name, nd), f.strategy(nd), run_feat(f), {"x": spec(f.c, "-O0")}, quick=12, thorough=400))
    for c in cfgs.main(nscal=1, mhd_only=True) + cfgs.special(nscal=1, mhd_only=True):
        for nd in (2, 3):
            out.append(Sub("%s-%dd" % (label(c), nd), evo_case(c, nd, bc=bc_strategy(nd)),
                           (lambda case, exe, c=c: run_div(case, c, exe, case["bc"])), {"x": spec(c, "-O0")}, 20))
    return out
