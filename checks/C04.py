"""Decomposition independence. Each generated problem (every physics feature of the feature table) is run by the serial
build and by the MPI build under mpirun with a generated division of each Domain into Grids (uneven divisions, 2-8
processes, or automatic decomposition). Oracle: the (cycle, time, dt) sequence and the assembled final state, including
potential and the particle set, agree to round-off; every process' ghost zones agree with the serial values at the same
global position; all processes take the same steps."""
from .common import *
from . import feats
import itertools

RULE = ("A case is a generated problem, a process grid (or automatic decomposition) and, for refined meshes, one process grid per "
        "Domain. Non-trivial: more than one process is used and the state is not uniform.")
ASSUMPTIONS = ["each Grid has at least nghost cells in every active direction (the code's own requirement)",
               "on refined meshes Grid boundaries fall on even cells of the fine level"]

MIN = 4


def splits(N, np_max, even=False, MIN=MIN):
    out = []
    for g in itertools.product(*[range(1, (n // MIN if n > 1 else 1) + 1) for n in N]):
        p = g[0] * g[1] * g[2]
        if p < 1 or p > np_max:
            continue
        if even and any(g[d] > 1 and (N[d] % (2 * g[d])) for d in range(3)):
            continue
        out.append(list(g))
    return out


def edge_on_split(doms, combo):
    """does an edge of a refined Domain lie on a boundary between two Grids of its parent level?"""
    for lev, disp, n in doms:
        for (plev, pdisp, pn), g in zip(doms, combo):
            if plev != lev - 1:
                continue
            for d in range(3):
                cut, q, rem = pdisp[d], *divmod(pn[d], g[d])
                for m in range(g[d] - 1):
                    cut += q + (1 if m < rem else 0)
                    if n[d] > 1 and cut in (disp[d] // 2, (disp[d] + n[d]) // 2):
                        return True
    return False


def widen(p, nd, f):
    """make sure at least one direction can be divided"""
    if "lay" in p:
        return p
    N = list(p["N"])
    for d in range(nd):
        if N[d] > 1:
            N[d] = max(N[d], 2 * (5 if "par" in dict(f.c) else MIN))
    return dict(p, N=N)


def decide(case, f, exe):
    p = widen(case["p"], 3, f)
    b, ics, par = f.make(p)
    if case.get("t0"):
        b["problem"]["time0"] = case["t0"]
    rnd = case["pick"]
    if "lay" in p:
        doms = [d for d in b if d.startswith("domain")]
        doms.sort(key=lambda s: int(s[6:]))
        Ns = [[b[d]["Nx%d" % (i + 1)] for i in range(3)] for d in doms]
        opts = []
        for combo in itertools.product(*[splits(N, 8, True) for N in Ns]):
            if dict(f.c)["gas"] == "mhd" and edge_on_split(p["lay"]["doms"], combo):
                continue        # known finding (see known_findings.json)
            c = [g[0] * g[1] * g[2] for g in combo]
            tot, m = sum(c), max(c)
            for np_ in range(max(2, m), 9):
                if tot % np_ == 0:
                    opts.append((np_, combo))
            if len(opts) > 400:
                break
        if not opts:
            return False, "indivisible"
        np_, combo = opts[rnd % len(opts)]
        dec = {d: g for d, g in zip(doms, combo)}
    else:
        N = [b["domain1"]["Nx%d" % (i + 1)] for i in range(3)]
        o = [g for g in splits(N, 8, MIN=5 if "par" in dict(f.c) else MIN) if g[0] * g[1] * g[2] > 1 and f.split_ok(g, N)]
        if not o:
            return False, "indivisible"
        g = o[rnd % len(o)]
        np_ = g[0] * g[1] * g[2]
        dec = {"domain1": g}
    with ath.Scratch() as d1, ath.Scratch() as d2:
        # warm-up of the particle arrays etc. is identical; ghost zones are recorded too
        b["problem"]["rawghost"] = 1
        ath.run(exe["s"], b, ics, d1, par=par, timeout=40)
        b2 = {k: dict(v) for k, v in b.items()}
        for k, g in dec.items():
            if case["auto"] and "lay" not in p and f.auto_ok:
                b2[k]["AutoWithNProc"] = np_
            else:
                for i in range(3):
                    b2[k]["NGrid_x%d" % (i + 1)] = g[i]
        q = ath.run(exe["m"], b2, ics, d2, par=par, np_=np_, timeout=40, expect_ok=False)
        if q.rc != 0 and case["auto"] and ("utomatic" in q.out or "less than" in q.out):
            return False, "auto refused"
        ath.check_ok(q)
        s1 = ath.steps(d1)
        tol = f.tol or 1e-12
        steps_e = []
        for rk in range(np_):
            s2 = ath.steps(d2, rk)
            need(s1.shape == s2.shape, "process %d takes %d steps, the serial run %d", rk, len(s2), len(s1))
            need(np.array_equal(s1[:, 0], s2[:, 0]), "cycle numbers differ")
            e = np.abs(s1 - s2) / (np.abs(s1) + 1e-300) if len(s1) else np.zeros((1, 1))
            e = e[s1 != 0] if len(s1) else e
            if e.size:
                steps_e.append((e.max(), "process grid %s: times or steps differ: serial %s, process %d %s" % (dec, s1[-2:].tolist(), rk, s2[-2:].tolist())))
        r1, r2 = ath.states(d1), ath.states(d2)
        errs = steps_e + compare(r1, r2, dec, f, b)
        bad = [(e, m) for e, m in errs if not e <= tol]
        if bad:
            e, m = max(bad, key=lambda t: t[0] if t[0] == t[0] else np.inf)
            sens = sensitivity(f, b, ics, par, r1, dec)
            need(e <= max(tol, 100 * sens), "%s (relative %.2e; the serial result itself moves by %.1e under round-off)", m, e, sens)
            return False, "ill-conditioned"
    return True, "np%d" % np_


def sensitivity(f, b, ics, par, r1, dec):
    """how far the serial result moves when round-off differs: fused arithmetic, fast-math, and initial data jittered in the last digit"""
    out = 0.0
    runs = []
    if "fma" in open("/proc/cpuinfo").read():
        runs.append((B.build(f.c, "-O1", ("-mfma", "-ffp-contract=fast")), ics))
    runs.append((B.build(f.c, "-O1", ("-ffast-math", "-fno-finite-math-only")), ics))
    for seed in (1, 2):
        rs = np.random.RandomState(seed)
        j = {k: (v[0] * (1 + 4e-16 * rs.choice([-1, 0, 1], v[0].shape)),) + tuple(v[1:]) for k, v in ics.items()}
        runs.append((B.build(f.c, "-O0"), j))
    for exe, ic in runs:
        with ath.Scratch() as d:
            ath.run(exe, b, ic, d, par=par, timeout=40)
            for e, m in compare(r1, ath.states(d), dec, f, b, False):
                out = max(out, e if e == e else 0.0)
    return out


def compare(r1, r2, dec, f, b, strict=True):
    """-> [(relative difference, message)]; structural disagreements are violations"""
    out = []
    doms = sorted({(r.level, r.dom) for r in r1})
    need(doms == sorted({(r.level, r.dom) for r in r2}), "Domains missing in the parallel run")
    for dm in doms:
        a, c = ath.assemble(r1, *dm), ath.assemble(r2, *dm)
        if strict:
            tot = sum(r.Nx[0] * r.Nx[1] * r.Nx[2] for r in c.recs)
            need(tot == a.N[0] * a.N[1] * a.N[2], "Grids of level %d domain %d hold %d cells instead of %d", dm[0], dm[1], tot, a.N[0] * a.N[1] * a.N[2])
        top = np.abs(a.U).max()
        out += same(a.U, c.U, top, "state", dec)
        if a.B is not None:
            for n in range(3):
                out += same(a.B[n][..., None], c.B[n][..., None], np.sqrt(top), "face field %d" % (n + 1), dec)
        if a.Phi is not None:
            out += [(e / 10, m) for e, m in same((a.Phi - a.Phi.mean())[..., None], (c.Phi - c.Phi.mean())[..., None], 0, "potential", dec)]
        if f.ghosts and strict:
            out += ghosts(a, c, dec, top)
        if a.par is not None:
            out += parts(a.par, c.par, dec, b)
    return out


def same(x, y, top, what, dec):
    need(not np.isnan(y).any() or np.isnan(x).any(), "%s: undefined values with %s", what, dec)
    out = []
    for n in range(x.shape[-1]):
        sc = np.abs(x[..., n]).max() + 1e-3 * top + 1e-30
        e = np.abs(x[..., n] - y[..., n])
        out.append((e.max() / sc, "%s %d differs by %.3e (scale %.3e) at (k,j,i)=%s between 1 process and %s" % (
            what, n, e.max(), sc, tuple(int(v) for v in np.unravel_index(e.argmax(), e.shape)), dec)))
    return out


def ghosts(a, c, dec, top):
    """ghost zones of every process Grid against the single Grid's array at the same global place"""
    big = a.recs[0]
    out = []
    for r in c.recs:
        g, n, D = r.g, r.Nx, r.Disp
        sl = tuple(slice(D[i], D[i] + n[i] + 2 * g[i]) for i in (2, 1, 0))
        x, y = big.U[sl], r.U
        need(x.shape == y.shape, "ghost array shape")
        # compare cells that are inside the Domain: those come from neighbouring Grids
        lim = [(g[i], g[i] + a.N[i]) for i in (2, 1, 0)]
        idx = [np.arange(s.start, s.stop) for s in sl]
        ok = [(ix >= lo) & (ix < hi) for ix, (lo, hi) in zip(idx, lim)]
        for n_ in range(x.shape[-1]):
            xs, ys = x[np.ix_(*ok)][..., n_], y[np.ix_(*ok)][..., n_]
            sc = np.abs(big.U[..., n_]).max() + 1e-3 * top + 1e-30
            e = np.abs(xs - ys)
            need(not np.isnan(ys).any(), "ghost zone variable %d of Grid at %s undefined (%s)", n_, D, dec)
            out.append((e.max() / sc, "ghost zone variable %d of Grid at %s differs by %.3e from its neighbour (%s)" % (n_, D, e.max(), dec)))
    return out


def parts(p, q, dec, b):
    need(p.shape == q.shape, "particle number differs: serial %d, parallel %d with %s", len(p), len(q), dec)
    # identities are numbered per process: match by type and nearest state
    P, Q = p[:, :7], q[:, :7].copy()
    used = set()
    out = []
    L = [b["domain1"]["x%dmax" % (i + 1)] - b["domain1"]["x%dmin" % (i + 1)] for i in range(3)]
    for row in P:
        dx = np.abs(Q - row)
        for i in range(3):
            dx[:, i] = np.minimum(dx[:, i], np.abs(dx[:, i] - L[i]))
        s = dx.sum(1)
        for u in used:
            s[u] = np.inf
        j = int(s.argmin())
        out.append((s[j] / (100 * (1 + np.abs(row).sum())), "particle %s of the serial run has no counterpart with %s (nearest %s)" % (row.tolist(), dec, Q[j].tolist())))
        used.add(j)
    return out


def subs(tier):
    out = []
    for f in feats.table():
        d = dict(f.c)
        f.ghosts = not any(k in d for k in ("sb", "smr", "grav", "cyl"))
        f.auto_ok = "grav" not in d
        f.split_ok = lambda g, N: True
        if "sb" in d:           # uneven azimuthal Grids are refused
            f.split_ok = lambda g, N: N[1] % g[1] == 0
            f.auto_ok = False
        if "grav" in d or "par" in d or "sb" in d or "fargo" in d:
            f.tol = 1e-9
        if not f.mpi:
            continue
        for nd in f.nds:
            if nd == 1 and "grav" in d:
                continue        # the 1D solver is serial (refused on several Grids)
            n = 3
            late = {}
            if "sb" in d and "par" not in d:    # a late start gives the radial boundaries any offset
                late = dict(t0=st.one_of(st.just(0.0), r(0.1, 9, 2)))
                n = 12
            s = st.fixed_dictionaries(dict(late, p=f.strategy(nd), pick=st.integers(0, 10000), auto=st.integers(0, 3).map(lambda x: x == 0)))
            m = dict(f.c); m["mpi"] = "1"
            out.append(Sub("%s-%dd" % (f.name, nd), s, (lambda case, exe, f=f: decide(case, f, exe)),
                           {"s": spec(f.c, "-O0"), "m": spec(tuple(sorted(m.items())), "-O0")}, n, 40))
    return out
