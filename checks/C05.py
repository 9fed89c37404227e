"""Symmetries: pairs of runs on a generated state and its image under shift, axis permutation, mirroring, field reversal,
change of units, or extension into an ignorable dimension; the final states have to be images of each other.  All states
carry noise in every variable so that upwind switches are not decided by round-off."""
import itertools
from .common import *
from vp import cfgs
from . import feats

RULE = ("A case is a random state with noise in every variable, a grid, Courant number, step count and one transformation. "
        "Non-trivial: the state changed by more than 1e-5 of its scale and the transformation is not the identity.")
ASSUMPTIONS = ["round-off amplified by limiters stays below 1e-9 of each variable's scale over the few steps run"]
TOL = 1e-9


def vecs(c):
    d = dict(c)
    v = [1]
    if d["gas"] == "mhd":
        v.append(5 if d["eos"] == "adiabatic" else 4)
    return v


def permute(U, B, perm, c):
    """new axis q is old axis perm[q]"""
    ax = [2 - perm[2 - a] for a in range(3)]
    V = U.transpose(ax + [3]).copy()
    for o in vecs(c):
        src = V[..., o:o + 3].copy()
        for q in range(3):
            V[..., o + q] = src[..., perm[q]]
    if B is None:
        return V, None
    return V, [B[perm[q]].transpose(ax) for q in range(3)]


def mirror(U, B, axis, c):
    a = 2 - axis
    V = np.flip(U, a).copy()
    for o in vecs(c):
        V[..., o + axis] *= -1
    if B is None:
        return V, None
    out = []
    for q in range(3):
        b = np.flip(B[q], a)
        out.append(-b if q == axis else b.copy())
    return V, out


def shift(U, B, sh, N):
    V = np.roll(U, tuple(sh), (2, 1, 0))
    if B is None:
        return V, None
    out = []
    for q in range(3):
        b = B[q]
        ax = 2 - q
        ext = b.shape[ax] == N[q] + 1
        if not sh[q] % N[q]:
            out.append(np.roll(b, tuple(s_ if i != q else 0 for i, s_ in enumerate(sh)), (2, 1, 0)))
            continue
        core = np.take(b, range(N[q]), axis=ax)
        core = np.roll(core, tuple(sh), (2, 1, 0))
        if ext:
            core = np.concatenate([core, np.take(core, [0], axis=ax)], axis=ax)
        out.append(core)
    return V, out


def compare(f, U, B, c, sc, what, tol=TOL):
    nm = ath.names(c)
    e = np.abs(f.U - U)
    need(np.isfinite(f.U).all(), "%s: non-finite result", what)
    for i in range(len(sc)):
        need(e[..., i].max() <= tol * sc[i], "%s: %s differs by %.3e (scale %.3g)", what, nm[i], e[..., i].max(), sc[i])
    if B is not None:
        ib = 5 if dict(c)["eos"] == "adiabatic" else 4
        for q in range(3):
            need(np.abs(f.B[q] - B[q]).max() <= tol * sc[ib], "%s: face B%d differs by %.3e", what, q + 1, np.abs(f.B[q] - B[q]).max())


def prep(case, c):
    case = dict(case)
    case["st"] = gen.generic(case["st"], case["amp"], case["sd"])
    if "sr" in dict(c):
        from .feats import sr_prims
        return (case,) + sr_prims(case, c)
    return (case,) + expand(case, c)


def run1(exe, case, U, B, N=None, L=None, **kw):
    cs = dict(case)
    if N is not None:
        cs["N"] = N
    if L is not None:
        cs["L"] = L
    return ath.final(exe["x"], blk(cs, **kw), {(0, 0): (U, B)})


def sane(f):
    """states driven out of the physical domain (possible for strong noise) carry no information"""
    return np.isfinite(f.U).all() and (f.U[..., 0] > 0).all()


def do(case, c, exe):
    case, N, L, dx, w, U = prep(case, c)
    B = w["B"]
    nd = ndim(N)
    sc = scales(U, c, case["gamma"], case["cs"]) * 1.0
    f = run1(exe, case, U, B)
    k = case["kind"]
    if not sane(f):
        return False, "blown up"
    if k == "shift":
        sh = [s if N[i] > 1 else 0 for i, s in enumerate(case["sh"])]
        U2, B2 = shift(U, B, sh, N)
        g = run1(exe, case, U2, B2)
        V, VB = shift(f.U, f.B, sh, N)
        triv = not any(sh)
    elif k == "perm":
        ps = [p for p in itertools.permutations(range(3)) if all(p[q] == q for q in range(nd, 3)) and p != (0, 1, 2)]
        if not ps:
            return False, "1D"
        p = ps[case["pi"] % len(ps)]
        if nd == 2:                              # x3-faces keep their layout
            U2, B2 = permute(U, B, p, c)
        else:
            U2, B2 = permute(U, B, p, c)
        g = run1(exe, case, U2, B2, [N[q] for q in p], [L[q] for q in p])
        V, VB = permute(f.U, f.B, p, c)
        triv = False
    elif k == "mirror":
        a = case["pi"] % nd
        U2, B2 = mirror(U, B, a, c)
        g = run1(exe, case, U2, B2)
        V, VB = mirror(f.U, f.B, a, c)
        triv = False
    elif k == "flip":                            # reverse the magnetic field, and transverse out-of-plane motion
        U2, V = U.copy(), f.U.copy()
        if B is not None:
            o = vecs(c)[1]
            U2[..., o:o + 3] *= -1
            V[..., o:o + 3] *= -1
            B2, VB = [-b for b in B], [-b for b in f.B]
        elif nd < 3:
            U2[..., 3] *= -1
            V[..., 3] *= -1
            B2 = VB = None
        else:
            return False, "3D hydro"
        g = run1(exe, case, U2, B2)
        triv = False
    elif k == "units":
        ld, lv, ll = [2.0 ** e for e in case["ue"]]
        m = [ld] + [ld * lv] * 3
        if dict(c)["eos"] == "adiabatic":
            m.append(ld * lv * lv)
        if B is not None:
            bu = 2.0 ** (case["ue"][0] // 2 + case["ue"][1])
            if case["ue"][0] % 2:
                ld *= 2
                m[0] *= 2
                m[1:4] = [x * 2 for x in m[1:4]]
                if len(m) > 4:
                    m[4] *= 2
                bu = 2.0 ** ((case["ue"][0] + 1) // 2 + case["ue"][1])
            m += [bu] * 3
        m += [ld] * int(dict(c)["nscal"])
        m = np.array(m)
        B2 = [b * bu for b in B] if B is not None else None
        VB = [b * bu for b in f.B] if B is not None else None
        g = run1(exe, case, U * m, B2, None, [x * ll for x in L], cs=case["cs"] * lv, tlim=1e3 * ll / lv)
        V = f.U * m
        sc = sc * m
        triv = not any(case["ue"])
        need(abs(g.time * lv / ll - f.time) <= 1e-9 * f.time, "units: time does not scale")
    compare(g, V, VB, c, sc, k, case.get("tol", TOL))
    need(abs(g.time - f.time) <= 1e-9 * f.time or k == "units", "%s: times differ: %.17g %.17g", k, g.time, f.time)
    ch = np.abs(f.U - U).reshape(-1, U.shape[-1]).max(0)[:len(sc)] / scales(U, c, case["gamma"], case["cs"])
    return bool(ch.max() > 1e-5 and not triv), k


def extend(case, c, exe):
    """an n-dimensional problem embedded in a higher-dimensional grid, along axes chosen by the case"""
    case, N, L, dx, w, U = prep(case, c)
    nd = ndim(N)
    hi = case["hi"]
    case["cour"] = min(case["cour"], 0.4)
    B = w["B"]
    sc = scales(U, c, case["gamma"], case["cs"])
    # order of axes in the big problem: `act` are the active ones
    act = [tuple(a) for a in itertools.permutations(range(hi), nd)]
    act = act[case["pi"] % len(act)]
    perm = [None] * 3                       # new axis q is old axis perm[q]
    for old, new in enumerate(act):
        perm[new] = old
    rest = [a for a in range(nd, 3)]
    for q in range(3):
        if perm[q] is None:
            perm[q] = rest.pop(0)
    Bx = None
    if B is not None:
        Bx = [b[..., :N[0]] if q == 0 and False else b for q, b in enumerate(B)]

    def big(U, B):
        V, VB = permute(U, B, perm, c)
        n2 = [V.shape[2], V.shape[1], V.shape[0]]
        for q in range(hi):
            if n2[q] == 1:
                V = np.repeat(V, case["m"], 2 - q)
                n2[q] = case["m"]
        if VB is not None:
            out = []
            for q in range(3):
                b = VB[q]
                for s in range(hi):
                    ax = 2 - s
                    if perm[s] >= nd:      # passive axis
                        b = np.repeat(np.take(b, [0], axis=ax), n2[s] + (1 if s == q else 0), ax)
                if q == 0 and b.shape[2] != n2[0] + 1:
                    b = np.concatenate([b, b[..., -1:]], 2)
                out.append(b)
            VB = out
        return V, VB, n2
    U2, B2, N2 = big(U, B)
    L2 = [0] * 3
    for q in range(3):
        L2[q] = L[perm[q]] if perm[q] < nd else 1e3 * max(L)
    # same (fixed) time step in both: the passive direction must not limit it
    f = run1(exe, case, U, B)
    if not sane(f):
        return False, "blown up"
    g = run1(exe, case, U2, B2, N2, L2)
    need(abs(g.time - f.time) <= 1e-9 * f.time, "embedding %dD->%dD: times differ: %.17g %.17g", nd, hi, f.time, g.time)
    V, VB, _ = big(f.U, f.B)
    compare(g, V, None, c, sc, "embedding %dD along axes %s of %dD" % (nd, act, hi), case.get("tol", TOL))
    ch = np.abs(f.U - U).reshape(-1, U.shape[-1]).max(0)[:len(sc)] / sc
    return bool(ch.max() > 1e-5), "%d->%d" % (nd, hi)


def uniform(case, c, exe):
    case = dict(case, st=dict(case["st"], **{k: [] for k in case["st"] if k.startswith("f")}))
    N, L, dx, w, U = expand(case, c)
    f = run1(exe, case, U, w["B"])
    sc = scales(U, c, case["gamma"], case["cs"])
    compare(f, U, w["B"], c, sc, "uniform state", 1e-12)
    return True, "uniform"


def fimage(case, f, exe):
    """runs with optional physics: image under a shift along the homogeneous axes or, without a preferred direction, under
    permutation and mirroring of the axes"""
    d = dict(f.c)
    p = dict(case["p"])
    p["st"] = gen.generic(p["st"], case["amp"], case["sd"])
    if "bc" in p and not any(k in d for k in ("cyl", "sb", "grav")):
        p["bc"] = [4] * 6
    b, ics, par = f.make(p)
    U, B = ics[(0, 0)]
    N, L, bc = list(p["N"]), list(p["L"]), list(p.get("bc", [4] * 6))
    nd = ndim(N)
    sc = scales(U, f.c, p["gamma"], p["cs"])
    g = ath.final(exe["x"], b, ics)
    if not sane(g):
        return False, "blown up"
    k = case["kind"]
    if k == "shift":
        free = [i for i in range(nd) if b["domain1"]["bc_ix%d" % (i + 1)] == 4 and (i > 0 or not ("sb" in d or "cyl" in d))]
        sh = [case["sh"][i] if i in free else 0 for i in range(3)]
        if not any(sh[i] % N[i] for i in range(3)):
            return False, "no homogeneous axis"
        im = lambda U, B: shift(U, B, sh, N)
    elif k == "perm":
        ps = [q for q in itertools.permutations(range(3)) if all(q[i] == i for i in range(nd, 3)) and q != (0, 1, 2)]
        q = ps[case["pi"] % len(ps)]
        im = lambda U, B: permute(U, B, q, f.c)
        p = dict(p, N=[N[i] for i in q], L=[L[i] for i in q], bc=sum([bc[2 * i:2 * i + 2] for i in q], []))
    else:
        a = case["pi"] % nd
        im = lambda U, B: mirror(U, B, a, f.c)
        if B is not None and bc[2 * a] != 4:
            return False, "outflow treats the outermost face of the normal field differently on the two sides"
        p = dict(p, bc=bc[:2 * a] + [bc[2 * a + 1], bc[2 * a]] + bc[2 * a + 2:])
    b2 = b if k == "shift" else f.make(p)[0]
    b2["problem"] = b["problem"]
    h = ath.final(exe["x"], b2, {(0, 0): im(U, B)})
    compare(h, *im(g.U, g.B), f.c, sc, k, 1e-8)
    need(abs(h.time - g.time) <= 1e-9 * g.time, "%s: times differ: %.17g %.17g", k, g.time, h.time)
    ch = np.abs(g.U - U).reshape(-1, U.shape[-1]).max(0)[:len(sc)] / sc
    return bool(ch.max() > 1e-5), "feature " + k


def feature_subs(keys=None, n=8):
    """subs for the optional physics named by keys (all by default); also used by the checks of those properties"""
    out = []
    for f in feats.table():
        d = dict(f.c)
        if keys and not any(k in d for k in keys):
            continue
        if any(k in d for k in ("smr", "par")) or "potential" in (f.name or ""):
            continue
        for nd in f.nds:
            kinds = ["shift"] if "grav" not in d or d["grav"] == "fft" else []
            if not any(k in d for k in ("sb", "cyl")) and "hall" not in f.name:
                kinds += ["mirror"] + (["perm"] if nd > 1 else [])
            s = st.fixed_dictionaries(dict(p=f.strategy(nd), kind=st.sampled_from(kinds), sh=st.tuples(*[st.integers(-5, 5)] * 3).map(list), pi=st.integers(0, 59), amp=r(0.02, 0.2, 2), sd=st.integers(0, 10 ** 6)))
            out.append(Sub("feature-%s-%dd" % (f.name, nd), s, (lambda case, exe, f=f: fimage(case, f, exe)), {"x": spec(f.c, "-O0")}, n))
    return out


def subs(tier):
    out = []
    out += feature_subs()
    ex = dict(amp=r(0.02, 0.3, 2), sd=st.integers(0, 10 ** 6))
    for c in cfgs.main(nscal=1) + cfgs.special(nscal=1):
        b = {"x": spec(c, "-O0")}
        for nd in (1, 2, 3):
            kinds = ["shift", "mirror", "flip"] + ([] if dict(c)["order"] == "3pcl" else ["units"]) + (["perm"] if nd > 1 else [])
            s = evo_case(c, nd, steps=(1, 3), maxn=2, kinds=("mode", "box"), kind=st.sampled_from(kinds),
                         sh=st.tuples(*[st.integers(-5, 5)] * 3).map(list), pi=st.integers(0, 59),
                         ue=st.tuples(*[st.integers(-8, 8)] * 3).map(list), **ex)
            out.append(Sub("sym-%s-%dd" % (label(c), nd), s, (lambda case, exe, c=c: do(case, c, exe)), b, {1: 10, 2: 16, 3: 18}[nd]))
        for nd in (1, 2):
            for hi in range(nd + 1, 4):
                if "hcorr" in dict(c):          # its dissipation looks at neighbours in every direction of the grid
                    continue
                s = evo_case(c, nd, steps=(1, 3), maxn=2, kinds=("mode", "box"), hi=st.just(hi), pi=st.integers(0, 59), m=st.integers(4, 6), **ex)
                out.append(Sub("embed-%s-%d-%d" % (label(c), nd, hi), s, (lambda case, exe, c=c: extend(case, c, exe)), b, 8))
        s = st.sampled_from([1, 2, 3]).flatmap(lambda nd, c=c: evo_case(c, nd, maxn=0))
        out.append(Sub("uniform-%s" % label(c), s, (lambda case, exe, c=c: uniform(case, c, exe)), b, 6))
    return out
