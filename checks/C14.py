"""Static mesh refinement: invariants between the levels of generated hierarchies, ghost zones against the parent level,
mirrored/permuted hierarchies, and rejection of illegal layouts."""
import itertools
from .common import *
from . import smrgen, feats
from .C02 import check_rec
from .C05 import permute, mirror, vecs, sane
import os

RULE = ("A case is a generated hierarchy of up to three levels (one or two Domains on level 1, touching or spanning root edges where allowed), a state restricted "
        "consistently onto it (or a linear or uniform one), boundary flags, and a number of steps; or an illegal layout. Non-trivial: at least one refined Domain "
        "with part of the root not covered and (for evolved cases) a state that changed, or an illegal layout.")
ASSUMPTIONS = ["total energy in fine ghost zones is prolongated through the pressure; momentum, density and scalars conservatively",
               "ghost zones are compared where parent and stencil lie inside the root Domain"]


def pressure(U, c, gamma):
    p = U[..., 4] - 0.5 * (U[..., 1:4] ** 2).sum(-1) / U[..., 0]
    if dict(c)["gas"] == "mhd":
        p = p - 0.5 * (U[..., 5:8] ** 2).sum(-1)
    return p


def coarsen(a, nd):
    for d in range(nd):
        ax = 2 - d
        n = a.shape[ax]
        a = 0.5 * (np.take(a, range(0, n, 2), axis=ax) + np.take(a, range(1, n, 2), axis=ax))
    return a


def domains(recs):
    out = {}
    for x in recs:
        out.setdefault((x.level, x.dom), []).append(x)
    return {k: ath.assemble(v, *k) for k, v in out.items()}


def parent(lay, l, n):
    """(dom number, offset of the child inside the parent in parent cells) of Domain n of level l"""
    cnt, lst = {}, {}
    for lev, disp, nx in lay["doms"]:
        k = cnt.get(lev, 0)
        cnt[lev] = k + 1
        lst[(lev, k)] = (disp, nx)
    disp, nx = lst[(l, n)]
    for (pl, pn), (pd, px) in lst.items():
        if pl == l - 1 and all(pd[q] <= disp[q] // 2 and (disp[q] + nx[q] + 1) // 2 <= pd[q] + px[q] or nx[q] == 1 for q in range(3)):
            return pn, [disp[q] // 2 - pd[q] if nx[q] > 1 else 0 for q in range(3)]
    raise RuntimeError("no parent")


def restriction(D, lay, c, sc, what, tol=1e-12):
    nd = ndim(lay["N"])
    d = dict(c)
    ib = (5 if d["eos"] == "adiabatic" else 4) if d["gas"] == "mhd" else None
    for (l, n), f in D.items():
        if l == 0:
            continue
        pn, o = parent(lay, l, n)
        p = D[(l - 1, pn)]
        m = [f.N[q] // 2 if f.N[q] > 1 else 1 for q in range(3)]
        sl = tuple(slice(o[q], o[q] + m[q]) for q in (2, 1, 0))
        R = coarsen(f.U, nd)
        e = np.abs(R - p.U[sl]).reshape(-1, R.shape[3]).max(0)
        for i in range(R.shape[3]):
            if ib and ib <= i < ib + 3:
                continue
            need(e[i] <= tol * sc[i], "%s: level %d Domain %d: %s of the parent differs from the average of the fine cells by %.3e (scale %.3g)", what, l, n,
                 ath.names(c)[i], e[i], sc[i])
        if ib:
            _, RB = smrgen.restrict(f.U, f.B, nd)
            for q in range(3):
                s2 = list(sl)
                if q == 0 or f.N[q] > 1:
                    ax = 2 - q
                    s2[ax] = slice(sl[ax].start, sl[ax].stop + 1)
                e = np.abs(RB[q] - p.B[q][tuple(s2)]).max()
                need(e <= tol * sc[ib], "%s: level %d Domain %d: face B%d of the parent differs from the average of the fine faces by %.3e", what, l, n, q + 1, e)


def ghosts(D, lay, c, case, sc, what, lin=None):
    """fine ghost zones against the parent's active cells"""
    nd = ndim(lay["N"])
    d = dict(c)
    adi, mhd = d["eos"] == "adiabatic", d["gas"] == "mhd"
    ib = (5 if adi else 4)
    seen = 0
    for (l, n), f in D.items():
        if l == 0:
            continue
        pn, o = parent(lay, l, n)
        p = D[(l - 1, pn)]
        rec = f.recs[0]
        gi = [min(rec.g[q], 4) for q in range(3)]
        # range of parent cells covered by the padded fine Grid, limited to the root Domain minus one cell (slope stencil)
        dl = [x for x in lay["doms"] if x[0] == l][n]
        rn = [lay["N"][q] * 2 ** (l - 1) for q in range(3)]
        lo, hi = [], []
        for q in range(3):
            if q >= nd:
                lo.append(0)
                hi.append(1)
                continue
            a, b = dl[1][q] // 2 - gi[q] // 2, (dl[1][q] + dl[2][q]) // 2 + gi[q] // 2
            pd = [x for x in lay["doms"] if x[0] == l - 1][pn]
            m = 1 if lin is None else 2 ** (l - 1)
            a, b = max(a, m, pd[1][q]), min(b, rn[q] - m, pd[1][q] + pd[2][q])
            lo.append(a)
            hi.append(b)
        pd = [x for x in lay["doms"] if x[0] == l - 1][pn]
        fs = tuple(slice(2 * lo[q] - dl[1][q] + rec.g[q], 2 * hi[q] - dl[1][q] + rec.g[q]) if q < nd else slice(rec.g[q], rec.g[q] + 1) for q in (2, 1, 0))
        ps = tuple(slice(lo[q] - pd[1][q], hi[q] - pd[1][q]) if q < nd else slice(0, 1) for q in (2, 1, 0))
        F = rec.U[fs]
        R = coarsen(F, nd)
        P = p.U[ps]
        # ghost groups only
        act = np.zeros(R.shape[:3], bool)
        ix = tuple(slice(max(0, dl[1][q] // 2 - lo[q]), max(0, (dl[1][q] + dl[2][q]) // 2 - lo[q])) if q < nd else slice(0, 1) for q in (2, 1, 0))
        act[ix] = True
        g = ~act
        # edge/corner ghost groups are not all filled by prolongation: only those displaced along one axis are needed in 1D sweeps,
        # but the code fills every zone of the padded Grid
        if not g.any():
            continue
        seen += int(g.sum())
        cols = [0, 1, 2, 3] + list(range(ib + 3 * mhd, R.shape[3]))
        for i in cols:
            e = np.abs(R[..., i] - P[..., i])[g].max()
            need(e <= 1e-12 * sc[i], "%s: level %d Domain %d ghost zones: average of %s differs from the parent cell by %.3e (scale %.3g)", what, l, n, ath.names(c)[i], e, sc[i])
        if adi:
            e = np.abs(coarsen(pressure(F, c, 0), nd) - pressure(P, c, 0))[g].max()
            if not mhd:
                need(e <= 1e-11 * sc[4], "%s: level %d Domain %d ghost zones: average pressure differs from the parent cell by %.3e", what, l, n, e)
        if mhd:
            div = 0.0
            for q in range(nd):
                s2 = list(fs)
                ax = 2 - q
                s2[ax] = slice(fs[ax].start + 1, fs[ax].stop + 1)
                if s2[ax].stop > rec.B[q].shape[ax]:
                    div = None
                    break
                div = div + (rec.B[q][tuple(s2)] - rec.B[q][fs]) / rec.dx[q]
            if div is not None and nd > 1:
                e = (coarsen(np.abs(div), nd))[g].max() * min(rec.dx[:nd])
                need(e <= 1e-11 * sc[ib], "%s: level %d Domain %d ghost zones: div B * dx = %.3e", what, l, n, e)
        if lin is not None:
            x = [(np.arange(fs[2 - q].start, fs[2 - q].stop) - rec.g[q] + dl[1][q] + 0.5) * rec.dx[q] if q < nd else np.zeros(1) for q in range(3)]
            X = np.broadcast_arrays(x[0][None, None, :], x[1][None, :, None], x[2][:, None, None])
            gf = np.kron(g, np.ones([2 if q < nd else 1 for q in (2, 1, 0)], bool)).astype(bool)
            for i, (a, s) in lin.items():
                ref = a + sum(s[q] * X[q] for q in range(nd))
                val = F[..., i] if i != "P" else pressure(F, c, 0)
                e = np.abs(val - ref)[gf].max()
                need(e <= 1e-11 * max(sc), "%s: level %d Domain %d ghost zones: linear profile of %s reproduced with error %.3e", what, l, n, i, e)
    return seen


def evolve(case, c, exe):
    lay = case["lay"]
    cs = dict(case, N=lay["N"])
    wall = [1 in case["bc"][2 * i:2 * i + 2] for i in range(3)]
    ics = smrgen.hierarchy(cs, c, lay, wall=wall)
    b = smrgen.mesh_blocks(blk(cs, bc=case["bc"]), lay)
    every_step(b)
    U0 = ics[(0, 0)][0]
    sc = scales(U0, c, case["gamma"], case["cs"])
    per = all(x == 4 for x in case["bc"][:2 * ndim(lay["N"])])
    tot0 = None
    last = None
    with ath.Scratch() as d:
        ath.run(exe["x"], b, ics, d)
        k = -1
        for k, rs in outs(d):
            if any(not np.isfinite(x.U).all() or (x.U[..., 0] <= 0).any() for x in rs):
                return False, "blown up"
            D = domains(rs)
            need(set(D) == set(ics), "Domains %s recorded, expected %s", sorted(D), sorted(ics))
            s2 = np.maximum(sc, scales(D[(0, 0)].U, c, case["gamma"], case["cs"]))
            restriction(D, lay, c, s2, "output %d" % k)
            if k <= case["nlim"]:
                ghosts(D, lay, c, case, s2, "output %d" % k)
            if dict(c)["gas"] == "mhd":
                for x in rs:
                    bs = max(s2[5 if dict(c)["eos"] == "adiabatic" else 4], *[float(np.abs(q).max()) for q in x.B])
                    check_rec(x, c, bs, "output %d level %d" % (k, x.level), bc=case["bc"])
            t = D[(0, 0)].U.reshape(-1, U0.shape[3]).mean(0)
            if tot0 is None:
                tot0 = t
            if per:
                for i in range(len(t)):
                    need(abs(t[i] - tot0[i]) <= 1e-11 * s2[i], "output %d: composite total of %s changed by %.3e (scale %.3g)", k, ath.names(c)[i], t[i] - tot0[i], s2[i])
            last = D
        need(k >= 1, "no outputs")
    ch = np.abs(last[(0, 0)].U - U0).max()
    return bool(ch > 1e-6), "%s %d levels" % ("periodic" if per else "mixed bc", 1 + max(x[0] for x in lay["doms"]))


def linear(case, c, exe):
    """exactness of the prolongation for linear data at start"""
    lay = case["lay"]
    d = dict(c)
    nd = ndim(lay["N"])
    rs = np.random.RandomState(case["sd"])
    adi, mhd = d["eos"] == "adiabatic", d["gas"] == "mhd"
    L = case["L"]
    ns = int(d["nscal"])
    # conserved density/momentum/scalar and pressure linear
    coef = {}
    for i in [0, 1, 2, 3, "P"] + ["s%d" % k for k in range(ns)]:
        s = [rs.uniform(-0.2, 0.2) / L[q] if q < nd else 0.0 for q in range(3)]
        coef[i] = (2.0 if i in (0, "P") else rs.uniform(-0.5, 0.5), s)
        if i in (1, 2, 3) and adi and not mhd and case["sd"] % 2:
            coef[i] = (0.0, [0.0] * 3)      # gas at rest: the restricted energy, and so the pressure, is linear too
    G = rs.uniform(-0.3, 0.3, (3, 3))
    for q in range(nd, 3):
        G[:, q] = 0.0
    if nd >= 1:
        tr = sum(G[q, q] for q in range(nd))
        G[nd - 1, nd - 1] -= tr
    B0 = rs.uniform(-0.5, 0.5, 3)
    ics, cnt = {}, {}
    for l, disp, nx in lay["doms"]:
        n = cnt.get(l, 0)
        cnt[l] = n + 1
        dx = [L[q] / lay["N"][q] / (2 ** l if q < nd else 1) for q in range(3)]
        x = [dx[q] * (disp[q] + np.arange(nx[q]) + 0.5) if q < nd else np.zeros(1) for q in range(3)]
        X = np.broadcast_arrays(x[0][None, None, :], x[1][None, :, None], x[2][:, None, None])
        ev = lambda i: coef[i][0] + sum(coef[i][1][q] * X[q] for q in range(nd))
        cols = [ev(0), ev(1), ev(2), ev(3)]
        Bf = None
        if mhd:
            Bf = []
            for q in range(3):
                xf = [x[e] if not (e == q and (q == 0 or nx[q] > 1)) else dx[q] * (disp[q] + np.arange(nx[q] + 1)) for e in range(3)]
                XF = np.broadcast_arrays(xf[0][None, None, :], xf[1][None, :, None], xf[2][:, None, None])
                Bf.append(B0[q] + sum(G[q, e] * XF[e] for e in range(nd)))
            bc = gen.cellB(Bf, nx)
        if adi:
            E = ev("P") + 0.5 * (cols[1] ** 2 + cols[2] ** 2 + cols[3] ** 2) / cols[0]
            if mhd:
                E = E + 0.5 * sum(b * b for b in bc)
            cols.append(E)
        if mhd:
            cols += list(bc)
        cols += [ev("s%d" % k) for k in range(ns)]
        ics[(l, n)] = (np.stack(cols, -1), Bf)
    b = smrgen.mesh_blocks(blk(dict(case, N=lay["N"], nlim=0), bc=(2,) * 6), lay)
    every_step(b)
    with ath.Scratch() as dd:
        ath.run(exe["x"], b, ics, dd)
        for k, rs_ in outs(dd):
            D = domains(rs_)
            break
        ib = 5 if adi else 4
        lin = {i: coef[i] for i in (0, 1, 2, 3)}
        if adi and not mhd and case["sd"] % 2:
            lin["P"] = coef["P"]
        if mhd:
            for q in range(3):
                lin[ib + q] = (B0[q], [G[q, e] for e in range(3)])
        for k in range(ns):
            lin[ib + 3 * mhd + k] = coef["s%d" % k]
        sc = np.ones(ics[(0, 0)][0].shape[3])
        # start data of parents under children are only consistent to the pressure; ghost averages are exact for linear data
        n = 0
        n = ghosts(D, lay, c, case, sc, "start", lin if d["order"] != "1" else None)
    return n > 0, "linear"


def uniform(case, c, exe):
    lay = case["lay"]
    cs = dict(case, N=lay["N"])
    ics = smrgen.hierarchy(cs, c, lay, 0, 0, 0)
    ns = int(dict(c)["nscal"])
    for k, (U, Bf) in ics.items():
        for i in range(ns):
            U[..., U.shape[3] - ns + i] = 0.25 * (i + 1) * U[..., 0]
    b = smrgen.mesh_blocks(blk(cs, bc=case["bc"]), lay)
    sc = scales(ics[(0, 0)][0], c, case["gamma"], case["cs"])
    with ath.Scratch() as d:
        ath.run(exe["x"], b, ics, d)
        D = domains(ath.states(d))
    for k, f in D.items():
        e = np.abs(f.U - ics[k][0]).reshape(-1, f.U.shape[3]).max(0)
        need((e <= 1e-12 * sc).all(), "uniform state changed on level %d by %s", k[0], e)
        if f.B is not None:
            for q in range(3):
                need(np.abs(f.B[q] - ics[k][1][q]).max() <= 1e-12 * sc[5 if dict(c)["eos"] == "adiabatic" else 4], "uniform face field B%d changed on level %d", q + 1, k[0])
    return True, "uniform"


def image(case, c, exe):
    """mirrored or permuted hierarchy"""
    lay = case["lay"]
    nd = ndim(lay["N"])
    case = dict(case)
    case["st"] = gen.generic(case["st"], case["amp"], case["sd"])
    cs = dict(case, N=lay["N"])
    ics = smrgen.hierarchy(cs, c, lay)
    sc = scales(ics[(0, 0)][0], c, case["gamma"], case["cs"])

    def go(lay, ics, cs):
        b = smrgen.mesh_blocks(blk(dict(cs, N=lay["N"]), bc=cs["bc"]), lay)
        with ath.Scratch() as d:
            ath.run(exe["x"], b, ics, d)
            return domains(ath.states(d))
    D = go(lay, ics, cs)
    if any(not sane(f) for f in D.values()):
        return False, "blown up"
    ps = [p for p in itertools.permutations(range(3)) if all(p[q] == q for q in range(nd, 3)) and p != (0, 1, 2)]
    if case["kind"] == "perm" and ps:
        p = ps[case["pi"] % len(ps)]
        lay2 = dict(N=[lay["N"][q] for q in p], doms=[[l, [a[q] for q in p], [x[q] for q in p]] for l, a, x in lay["doms"]])
        bc2 = sum([case["bc"][2 * q:2 * q + 2] for q in p], [])
        E = go(lay2, {k: permute(*v, p, c) for k, v in ics.items()}, dict(cs, L=[case["L"][q] for q in p], bc=bc2))
        im = lambda f: permute(f.U, f.B, p, c)
        w = "axes %s" % (p,)
    else:
        a = case["pi"] % nd
        if dict(c)["gas"] == "mhd" and case["bc"][2 * a] != 4:
            return False, "outflow treats the outermost face of the normal field differently on the two sides"
        lay2 = dict(N=lay["N"], doms=[[l, [lay["N"][a] * 2 ** l - o[q] - x[q] if q == a else o[q] for q in range(3)], x] for l, o, x in lay["doms"]])
        bc2 = list(case["bc"])
        bc2[2 * a], bc2[2 * a + 1] = bc2[2 * a + 1], bc2[2 * a]
        E = go(lay2, {k: mirror(*v, a, c) for k, v in ics.items()}, dict(cs, bc=bc2))
        im = lambda f: mirror(f.U, f.B, a, c)
        w = "mirror %d" % a
    for k, f in D.items():
        V, VB = im(f)
        g = E[k]
        if not sane(g):
            return False, "blown up"
        e = np.abs(g.U - V).reshape(-1, V.shape[3]).max(0)
        for i in range(len(sc)):
            need(e[i] <= 1e-9 * sc[i], "%s: level %d Domain %d: %s differs by %.3e (scale %.3g)", w, k[0], k[1], ath.names(c)[i], e[i], sc[i])
        if VB is not None:
            for q in range(3):
                need(np.abs(g.B[q] - VB[q]).max() <= 1e-9 * sc[5 if dict(c)["eos"] == "adiabatic" else 4], "%s: level %d face B%d differs by %.3e", w, k[0], q + 1,
                     np.abs(g.B[q] - VB[q]).max())
    return True, "image " + w.split()[0]


def illegal(case, c, exe):
    lay = case["lay"]
    nd = ndim(lay["N"])
    doms = [[l, list(a), list(x)] for l, a, x in lay["doms"]]
    q = case["pi"] % nd
    k = case["kind"]
    ch = doms[1]
    N = lay["N"]
    if k == "odd_disp":
        if ch[2][q] == 2 * N[q]:
            return False, "spans"
        ch[1][q] += 1
    elif k == "odd_size":
        ch[2][q] += 1 if ch[1][q] + ch[2][q] < 2 * N[q] else -1
    elif k == "outside":
        ch[1][q] = 2 * N[q] - ch[2][q] + 2 * (1 + case["sd"] % 3)
    elif k == "negative":
        ch[1][q] = -2 * (1 + case["sd"] % 3)
    elif k == "no_root":
        doms = [[l + 1, a, x] for l, a, x in doms]
    elif k == "gap":
        doms = doms[:2]
        doms[1] = [2, [2 * v for v in ch[1]], [2 * v if v > 1 else 1 for v in ch[2]]]
    elif k == "overlap":
        doms = doms[:2] + [[1, list(ch[1]), list(ch[2])]]
    elif k == "edge":
        # a level-2 Domain that reaches the edge of its level-1 parent inside the root Domain
        doms = doms[:2]
        if ch[2][q] == 2 * N[q] or ch[1][q] == 0:
            return False, "spans"
        a = [2 * v for v in ch[1]]
        doms.append([2, a, [2 * v if v > 1 else 1 for v in ch[2]]])
    elif k == "small":
        ch[2][q] = 2
    elif k == "dims":
        if nd == 3:
            ch[2][2], ch[1][2] = 1, 0
        else:
            ch[2][nd] = 8
    ics = {}
    cnt = {}
    for l, a, x in doms:
        n = cnt.get(l, 0)
        cnt[l] = n + 1
        U = np.ones((max(x[2], 1), max(x[1], 1), max(x[0], 1), 5 + int(dict(c)["nscal"])))
        ics[(l, n)] = (U, None)
    b = smrgen.mesh_blocks(blk(dict(case, N=N, nlim=1), bc=(2,) * 6), dict(N=N, doms=doms))
    if k == "no_root":
        b["domain1"]["level"] = 1
    with ath.Scratch() as d:
        p = ath.run(exe["x"], b, ics, d, expect_ok=False, timeout=20)
        need(not p.timeout, "%s layout: program hangs", k)
        need(p.rc > 0 and p.rc < 128, "%s layout %s: status %d, not rejected: %s", k, doms, p.rc, p.out[-200:])
        need("error" in p.out.lower(), "%s layout: no message", k)
        need(not os.path.exists(os.path.join(d, "raw.final.0")), "%s layout: rejected only after the main loop", k)
    return True, "illegal " + k


def subs(tier):
    out = []
    cs = [B.cfg("hydro", "adiabatic", "2", "hllc", "ctu", 1, smr=1), B.cfg("hydro", "isothermal", "3", "roe", "ctu", 1, smr=1), B.cfg("hydro", "adiabatic", "2p", "roe", "vl", 1, smr=1),
          B.cfg("mhd", "isothermal", "2", "hlld", "ctu", 1, smr=1), B.cfg("mhd", "adiabatic", "2p", "hlld", "vl", 1, smr=1), B.cfg("mhd", "adiabatic", "3", "roe", "ctu", 0, smr=1)]
    if tier == "thorough":
        cs += [B.cfg("hydro", "adiabatic", "1", "hlle", "ctu", 1, smr=1), B.cfg("mhd", "adiabatic", "1", "hlle", "vl", 1, smr=1), B.cfg("hydro", "isothermal", "3pck", "hllc", "vl", 2, smr=1)]
    for c in cs:
        x = {"x": spec(c)}
        for nd in (1, 2, 3):
            def strat(flags, second=True, c=c, nd=nd, **kw):
                bl = st.tuples(*[st.sampled_from(flags) if i < nd else st.just([4, 4]) for i in range(3)]).map(lambda t: t[0] + t[1] + t[2])
                return bl.flatmap(lambda bc: evo_case(c, nd, N=st.just([0, 0, 0]), bc=st.just(bc), lay=smrgen.layout(nd, bc=bc, second=second), steps=(2, 4),
                                                      cour=st.sampled_from([0.2, 0.3, 0.4]), **kw))
            P, M = [[4, 4]], [[4, 4], [2, 2], [1, 1], [1, 2]]
            sd = st.integers(0, 10 ** 6)
            lb = "%s-%dd" % (label(c), nd)
            out.append(Sub("levels-per-" + lb, strat(P), (lambda case, exe, c=c: evolve(case, c, exe)), x, {1: 10, 2: 12, 3: 8}[nd]))
            out.append(Sub("levels-mix-" + lb, strat(M), (lambda case, exe, c=c: evolve(case, c, exe)), x, 8))
            out.append(Sub("linear-" + lb, strat([[2, 2]], sd=sd), (lambda case, exe, c=c: linear(case, c, exe)), x, 12))
            out.append(Sub("uniform-" + lb, strat([[4, 4], [2, 2]]), (lambda case, exe, c=c: uniform(case, c, exe)), x, 6))
            out.append(Sub("image-" + lb, strat([[4, 4], [2, 2]], sd=sd, amp=r(0.02, 0.2, 2), pi=st.integers(0, 10), kind=st.sampled_from(["perm", "mirror"])),
                           (lambda case, exe, c=c: image(case, c, exe)), x, {1: 6, 2: 12, 3: 10}[nd]))
    c = cs[0]
    for nd in (1, 2, 3):
        e = evo_case(c, nd, N=st.just([0, 0, 0]), lay=smrgen.layout(nd, bc=(2,) * 6, second=False), sd=st.integers(0, 100), pi=st.integers(0, 5),
                     kind=st.sampled_from(["odd_disp", "odd_size", "outside", "negative", "no_root", "gap", "overlap", "edge", "dims"]))
        out.append(Sub("illegal-%dd" % nd, e, (lambda case, exe, c=c: illegal(case, c, exe)), {"x": spec(c)}, 40))
    return out
