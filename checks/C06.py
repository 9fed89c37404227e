"""Boundary conditions.  After a run with a random mix of boundary flags the ghost zones of the final state record are compared,
bit for bit, with a reference fill (x1, then x2, then x3) computed from the active zones; hydrodynamic runs next to a reflecting wall are
compared with the mirror-extended problem; closed boxes keep their mass and energy."""
from .common import *
from vp import cfgs

RULE = ("A case is a random state, grid and mix of boundary flags on the faces in use, for one configuration. Non-trivial: the "
        "state is not uniform and at least one flag is not periodic, or the mirrored run evolved.")
ASSUMPTIONS = ["mirror comparison tolerance 1e-9, conservation tolerance 1e-11 of each variable's scale",
               "normal interface fields at outer outflow faces repeat the last zone's own (lower) face"]


def idx(a, ax, i):
    s = [slice(None)] * a.ndim
    s[ax] = i
    return tuple(s)


def fill(U, B, r, c, bc, ng):
    """reference ghost zones from active zones"""
    d_ = dict(c)
    U = U.copy()
    B = [b.copy() for b in B] if B is not None else None
    ob = 5 if d_["eos"] == "adiabatic" else 4
    for d in range(3):
        n = r.Nx[d]
        if n == 1:
            continue
        ax = 2 - d
        s, e = ng, ng + n - 1
        for side in (0, 1):
            f = bc[2 * d + side]
            for m in range(1, ng + 1):
                g = s - m if side == 0 else e + m
                mir = s + (m - 1) if side == 0 else e - (m - 1)
                per = (e - (m - 1)) if side == 0 else (s + (m - 1))
                src = {1: mir, 5: mir, 4: per, 2: s if side == 0 else e}[f]
                U[idx(U, ax, g)] = U[idx(U, ax, src)]
                if f in (1, 5):
                    U[idx(U, ax, g)][..., 1 + d] *= -1
                if B is not None:
                    for q in range(3):
                        if f == 1 and q == d or f == 5 and q != d:
                            U[idx(U, ax, g)][..., ob + q] *= -1
                        if q != d:
                            v = B[q][idx(B[q], ax, src)]
                            B[q][idx(B[q], ax, g)] = -v if f == 5 else v
            if B is not None:
                b = B[d]
                if f == 1:
                    b[idx(b, ax, s if side == 0 else e + 1)] = 0.0
                rng = range(1, ng) if side == 0 else range(2, ng + 1)
                for m in rng:
                    g = s - m if side == 0 else e + m
                    if f in (1, 5):
                        src = s + m if side == 0 else e - (m - 2)
                    elif f == 4:
                        src = e - (m - 1) if side == 0 else s + (m - 1)
                    else:
                        src = s if side == 0 else e
                    v = b[idx(b, ax, src)]
                    b[idx(b, ax, g)] = -v if f == 1 else v
    return U, B


def ghosts(case, c, exe):
    N, L, dx, w, U = expand(case, c)
    bc = case["bc"]
    with ath.Scratch() as d:
        ath.run(exe["x"], blk(case, bc), {(0, 0): (U, w["B"])}, d)
        r_ = ath.states(d)[0]
    ng = r_.g[0]
    need(ng >= 4, "fewer ghost zones than the scheme needs: %d", ng)
    V, VB = fill(r_.U, r_.B, r_, c, bc, ng)
    nm = ath.names(c)
    bad = np.argwhere(~((V == r_.U) | (np.isnan(V) & np.isnan(r_.U))))
    if len(bad):
        k, j, i, v = [int(x) for x in bad[0]]
        raise Violation("ghost zone (i,j,k)-start=(%d,%d,%d) of %s is %.17g, should be %.17g; flags %s, grid %s"
                        % (i - ng, j - r_.g[1], k - r_.g[2], nm[v], r_.U[k, j, i, v], V[k, j, i, v], bc, N))
    if VB is not None:
        for q in range(3):
            ok = (VB[q] == r_.B[q]) | (np.isnan(VB[q]) & np.isnan(r_.B[q]))
            if N[q] > 1:
                ok[idx(ok, 2 - q, 0)] = True
            bad = np.argwhere(~ok)
            if len(bad):
                k, j, i = [int(x) for x in bad[0]]
                raise Violation("ghost face (i,j,k)-start=(%d,%d,%d) of B%d is %.17g, should be %.17g; flags %s, grid %s"
                                % (i - ng, j - r_.g[1], k - r_.g[2], q + 1, r_.B[q][k, j, i], VB[q][k, j, i], bc, N))
    return bool(np.ptp(U[..., 0]) + np.ptp(U[..., 1]) > 0 and set(bc) != {4}), "%dD" % ndim(N)


def mirrored(case, c, exe):
    """reflecting wall = mirror-extended problem (hydrodynamics)"""
    case = dict(case, st=gen.generic(case["st"], case["amp"], case["sd"]))
    N, L, dx, w, U = expand(case, c)
    nd = ndim(N)
    a = case["axis"] % nd
    side = case["side"]
    bc = list(case["bc"])
    bc[2 * a + side] = 1
    if bc[2 * a + 1 - side] not in (1, 2):
        bc[2 * a + 1 - side] = 2
    V = np.flip(U, 2 - a).copy()
    V[..., 1 + a] *= -1
    W = np.concatenate([V, U] if side == 0 else [U, V], 2 - a)
    bc2 = list(bc)
    bc2[2 * a] = bc2[2 * a + 1] = bc[2 * a + 1 - side]
    N2, L2 = list(N), list(L)
    N2[a] *= 2
    L2[a] *= 2
    f = ath.final(exe["x"], blk(case, bc), {(0, 0): (U, None)})
    g = ath.final(exe["x"], blk(dict(case, N=N2, L=L2), bc2), {(0, 0): (W, None)})
    if not np.isfinite(f.U).all():
        return False, "blown up"
    half = np.take(g.U, range(N[a], 2 * N[a]) if side == 0 else range(N[a]), axis=2 - a)
    sc = scales(U, c, case["gamma"], case["cs"])
    nm = ath.names(c)
    need(abs(f.time - g.time) <= 1e-10 * f.time, "times differ")
    for i in range(len(sc)):
        e = np.abs(half - f.U)[..., i].max()
        need(e <= 1e-9 * sc[i], "reflecting wall on axis %d side %d: %s differs from the mirror-extended run by %.3e", a + 1, side, nm[i], e)
    return True, "mirror%dD" % nd


def closed(case, c, exe):
    N, L, dx, w, U = expand(dict(case, bc=[1] * 6), c)
    f = ath.final(exe["x"], blk(case, [1] * 6), {(0, 0): (U, w["B"])})
    if not (np.isfinite(f.U).all() and np.abs(f.U).max() < 1e3 * np.abs(U).max()):
        return False, "blown up"
    sc = scales(U, c, case["gamma"], case["cs"])
    n = U[..., 0].size
    t = (f.U - U).reshape(n, -1).sum(0) / n
    nm = ath.names(c)
    mhd = dict(c)["gas"] == "mhd"
    for i in range(len(sc)):
        if nm[i] == "d" or nm[i][0] == "s" or (nm[i] == "E" and not mhd):
            need(abs(t[i]) <= 1e-11 * sc[i], "closed box: total of %s changed by %.3e (scale %.3g)", nm[i], t[i], sc[i])
    return bool(np.ptp(U[..., 1]) + np.ptp(U[..., 0]) > 0), "closed"


def subs(tier):
    out = []
    for c in cfgs.main(nscal=2):
        b = {"x": spec(c, "-O0")}
        for nd in (1, 2, 3):
            s = evo_case(c, nd, steps=(0, 2), lo={1: 4, 2: 4, 3: 4}[nd], bc=bc_strategy(nd))
            out.append(Sub("ghost-%s-%dd" % (label(c), nd), s, (lambda case, exe, c=c: ghosts(case, c, exe)), b, {1: 8, 2: 14, 3: 16}[nd]))
        # MHD only in 1D: elsewhere the half-step field at the wall is not exactly zero
        s = st.sampled_from([1, 2, 3] if dict(c)["gas"] == "hydro" else [1]).flatmap(lambda nd, c=c: evo_case(c, nd, steps=(1, 5)))
        out.append(Sub("closed-%s" % label(c), s, (lambda case, exe, c=c: closed(case, c, exe)), b, 14))
        if dict(c)["gas"] == "hydro":
            for nd in (1, 2, 3):
                s = evo_case(c, nd, steps=(1, 3), maxn=2, kinds=("mode", "box"), axis=st.integers(0, 5), side=st.integers(0, 1),
                             bc=bc_strategy(nd, [[1, 1], [2, 2], [4, 4], [1, 2], [2, 1]]), amp=r(0.02, 0.3, 2), sd=st.integers(0, 10 ** 6))
                out.append(Sub("mirror-%s-%dd" % (label(c), nd), s, (lambda case, exe, c=c: mirrored(case, c, exe)), b, 8))
    return out
