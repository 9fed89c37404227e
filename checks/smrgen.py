"""Generated mesh hierarchies: a field is built at the finest virtual resolution of the whole domain and
restricted level by level, so that every Domain starts from mutually consistent data."""
from .common import *


def _interval(draw, lo, hi, unit, minlen):
    """[a,b) multiple of unit inside [lo,hi] of length >= minlen"""
    nmax = (hi - lo) // unit
    nmin = -(-minlen // unit)
    n = draw(st.integers(nmin, nmax))
    a = lo + unit * draw(st.integers(0, nmax - n))
    return a, a + unit * n


@st.composite
def layout(draw, nd, levels=2, bc=(4,) * 6, second=True, root=None, nested=True, every=False):
    """dict(N=root cells, doms=[[level, Disp, Nx], ...]) legal for nghost=4 (child >= 2 parent cells away from the
    parent's edge, or spanning the whole root axis / touching a non-periodic root edge)."""
    rng = {1: (12, 32), 2: (10, 16), 3: (8, 12)}[nd]
    N = root or [draw(st.integers(*rng)) if d < nd else 1 for d in range(3)]
    doms = [[0, [0, 0, 0], list(N)]]

    def child(level, plo, phi):
        """plo/phi in root cells of the parent's extent; Domains are aligned to whole root cells"""
        lo, hi = [0] * 3, [1] * 3
        for d in range(nd):
            gap = 2 if level == 1 else 1      # in root cells; nghost/2 parent cells
            gap = -(-2 // (2 ** (level - 1)))
            periodic = bc[2 * d] == 4
            atl, atr = plo[d] == 0, phi[d] == N[d]
            mode = draw(st.sampled_from(["in", "in", "span", "left", "right"]))
            a, b = plo[d] + gap, phi[d] - gap
            if mode == "span" and atl and atr:
                lo[d], hi[d] = 0, N[d]
                continue
            if b - a < 2:
                return None
            x, y = _interval(draw, a, b, 1, 2)
            if mode == "left" and atl and not periodic:
                x = 0
            if mode == "right" and atr and not periodic:
                y = N[d]
            lo[d], hi[d] = x, y
        f = 2 ** level
        return [level, [lo[d] * f if d < nd else 0 for d in range(3)],
                [(hi[d] - lo[d]) * f if d < nd else 1 for d in range(3)]], lo, hi

    c = child(1, [0] * 3, N)
    if c is None:
        c = ([1, [0, 0, 0], [2 * N[d] if d < nd else 1 for d in range(3)]], [0] * 3, list(N))
    doms.append(c[0])
    firsts = [c]
    if second and draw(st.booleans()):
        c2 = child(1, [0] * 3, N)
        if c2 is not None:
            # must not overlap or touch
            if any(c[2][d] < c2[1][d] - 1 or c2[2][d] < c[1][d] - 1 for d in range(nd)):
                doms.append(c2[0])
                firsts.append(c2)
    if levels > 1 and every:
        for par in firsts:
            c3 = child(2, par[1], par[2])
            if c3 is not None:
                doms.append(c3[0])
    elif levels > 1 and nested and draw(st.booleans()):
        par = firsts[draw(st.integers(0, len(firsts) - 1))]
        c3 = child(2, par[1], par[2])
        if c3 is not None:
            doms.append(c3[0])
    return dict(N=list(N), doms=doms)


def restrict(U, B, nd):
    """one level of restriction of conserved cells and face fields (Cartesian)"""
    for d in range(nd):
        ax = 2 - d
        n = U.shape[ax] // 2
        U = 0.5 * (np.take(U, range(0, 2 * n, 2), axis=ax) + np.take(U, range(1, 2 * n, 2), axis=ax))
    if B is None:
        return U, None
    out = []
    for d in range(3):
        b = B[d]
        for e in range(nd):
            ax = 2 - e
            if e == d:
                b = np.take(b, range(0, b.shape[ax], 2), axis=ax)
            else:
                n = b.shape[ax] // 2
                b = 0.5 * (np.take(b, range(0, 2 * n, 2), axis=ax) + np.take(b, range(1, 2 * n, 2), axis=ax))
        out.append(b)
    return U, out


def cut(U, B, disp, Nx):
    sl = [slice(disp[2], disp[2] + Nx[2]), slice(disp[1], disp[1] + Nx[1]), slice(disp[0], disp[0] + Nx[0])]
    u = U[tuple(sl)]
    if B is None:
        return u, None
    out = []
    for d in range(3):
        q = list(sl)
        if d == 0 or Nx[d] > 1:
            q[2 - d] = slice(q[2 - d].start, q[2 - d].stop + 1)
        out.append(B[d][tuple(q)])
    return u, out


def fix_cellB(U, B, c):
    d = dict(c)
    if d["gas"] != "mhd":
        return U
    i = 5 if d["eos"] == "adiabatic" else 4
    N = [U.shape[2], U.shape[1], U.shape[0]]
    bc = gen.cellB(B, N)
    U = U.copy()
    if d["eos"] == "adiabatic":
        U[..., 4] += 0.5 * sum(b * b for b in bc) - 0.5 * (U[..., i:i + 3] ** 2).sum(-1)
    for k in range(3):
        U[..., i + k] = bc[k]
    return U


def hierarchy(case, c, lay, contrast=0.6, vamp=0.4, camp=0.3, wall=(0, 0, 0)):
    """-> {(level,dom): (U,B)}"""
    d = dict(c)
    nd = ndim(lay["N"])
    top = max(x[0] for x in lay["doms"])
    f = 2 ** top
    N = [lay["N"][i] * f if i < nd else 1 for i in range(3)]
    dx = [case["L"][i] / N[i] for i in range(3)]
    w = gen.prims(case["st"], N, dx, d["gas"], d["eos"], int(d["nscal"]), contrast, vamp, camp, wall)
    U = gen.cons(w, d["gas"], d["eos"], case["gamma"], "cyl" in d)
    lev = {top: (U, w["B"])}
    for l in range(top - 1, -1, -1):
        lev[l] = restrict(*lev[l + 1], nd)
    ics, cnt = {}, {}
    for l, disp, nx in lay["doms"]:
        n = cnt.get(l, 0)
        cnt[l] = n + 1
        u, b = cut(*lev[l], disp, nx)
        ics[(l, n)] = (fix_cellB(u, b, c) if b is not None else u, b)
    return ics


def mesh_blocks(b, lay, order=None):
    """adds the refined Domains to an input description"""
    b["job"]["num_domains"] = len(lay["doms"])
    for n, (l, disp, nx) in enumerate(lay["doms"]):
        if n == 0:
            continue
        b["domain%d" % (n + 1)] = dict(level=l, Nx1=nx[0], Nx2=nx[1], Nx3=nx[2], iDisp=disp[0], jDisp=disp[1], kDisp=disp[2])
    return b
