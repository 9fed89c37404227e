"""Generators of initial states: a small, shrinkable description expanded
deterministically into fields."""
import numpy as np
from hypothesis import strategies as st


def r(lo, hi, nd=3):
    """Float with few digits (shrinks towards the simplest value)."""
    k = 10 ** nd
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


def logr(lo, hi):
    a, b = np.log10(lo), np.log10(hi)
    return st.integers(int(round(a * 100)), int(round(b * 100))).map(lambda i: float("%.4g" % 10 ** (i / 100.0)))


def feats(ndim, maxn=4, kinds=("mode", "box", "noise", "spike"), kmax=3):
    kk = st.integers(-kmax, kmax)
    return st.lists(st.fixed_dictionaries(dict(
        kind=st.sampled_from(kinds), amp=r(-1, 1, 2),
        k=st.tuples(*[kk if d < ndim else st.just(0) for d in range(3)]).map(list),
        ph=r(0, 1, 2), seed=st.integers(0, 10 ** 6))), max_size=maxn)


def grid(N, off=(0.5, 0.5, 0.5)):
    """unit coordinates (x/L) of points at the given offsets, shape (n3,n2,n1)"""
    x = [(np.arange(N[d]) + off[d]) / N[d] for d in range(3)]
    return np.meshgrid(x[2], x[1], x[0], indexing="ij")[::-1]


def field(fs, N, off=(0.5, 0.5, 0.5)):
    """sum of features, O(1), periodic on the unit box"""
    X = grid(N, off)
    out = np.zeros((N[2], N[1], N[0]))
    for f in fs:
        k = f["k"]
        a = f["amp"]
        if f["kind"] == "mode":
            out += a * np.sin(2 * np.pi * (k[0] * X[0] + k[1] * X[1] + k[2] * X[2] + f["ph"]))
        elif f["kind"] == "box":
            m = np.ones_like(out, bool)
            for d in range(3):
                if N[d] > 1:
                    lo = (f["ph"] + 0.13 * k[d]) % 1.0
                    m &= (((X[d] - lo) % 1.0) < 0.3 + 0.1 * abs(k[d]))
            out += a * m
        elif f["kind"] == "noise":
            rs = np.random.RandomState(f["seed"] % (2 ** 31))
            out += a * (2 * rs.rand(*out.shape) - 1)
        else:
            idx = tuple((f["seed"] // (7 ** d)) % out.shape[d] for d in range(3))
            out[idx] += a
    return out


def state_strategy(ndim, gas, maxn=3, vmax=1.0, bmax=1.0, kinds=("mode", "box", "noise", "spike"), nscal=0):
    F = feats(ndim, maxn, kinds)
    d = dict(rho0=logr(0.2, 5), p0=logr(0.2, 5), v0=st.tuples(*[r(-vmax, vmax, 2)] * 3).map(list),
             frho=F, fv1=F, fv2=F, fv3=F, fp=F)
    if gas == "mhd":
        d.update(B0=st.tuples(*[r(-bmax, bmax, 2)] * 3).map(list), fA1=F, fA2=F, fA3=F)
    for i in range(nscal):
        d["fs%d" % i] = F
    return st.fixed_dictionaries(d)


def faceB(s, N, dx, camp=0.3, wall=(0, 0, 0)):
    """Divergence-free periodic face fields from a vector potential on edges; no flux through
    the boundaries of directions flagged in wall.
    Returns arrays with one extra face in every active direction (x1 always)."""
    if "fA1" in s:
        A = [camp * field(s["fA1"], N, (0.5, 0, 0)), camp * field(s["fA2"], N, (0, 0.5, 0)),
             camp * field(s["fA3"], N, (0, 0, 0.5))]
    else:
        A = [np.zeros((N[2], N[1], N[0]))] * 3
    for d in range(3):
        if wall[d]:
            for t in range(3):
                if t != d:
                    ix = [slice(None)] * 3
                    ix[2 - d] = 0
                    A[t] = A[t].copy()
                    A[t][tuple(ix)] = 0.0
    # scale so that differences give O(camp)
    h = min(dx[d] for d in range(3) if N[d] > 1)
    A = [a * h for a in A]

    def df(a, d):
        if N[d] == 1:
            return np.zeros_like(a)
        return (np.roll(a, -1, axis=2 - d) - a) / dx[d]
    B0 = [0.0 if wall[d] else b for d, b in enumerate(s.get("B0", [0, 0, 0]))]
    B = [B0[0] + df(A[2], 1) - df(A[1], 2), B0[1] + df(A[0], 2) - df(A[2], 0), B0[2] + df(A[1], 0) - df(A[0], 1)]
    out = []
    for d in range(3):
        b = B[d]
        if d == 0 or N[d] > 1:
            ax = 2 - d
            b = np.concatenate([b, np.take(b, [0], axis=ax)], axis=ax)
        out.append(b)
    return out


def cellB(B, N):
    """cell-centred fields from face arrays"""
    out = []
    for d in range(3):
        ax = 2 - d
        n = N[d]
        if d == 0 or n > 1:
            lo = np.take(B[d], range(n), axis=ax)
            hi = np.take(B[d], range(1, n + 1), axis=ax)
            out.append(0.5 * (lo + hi))
        else:
            out.append(B[d].copy())
    return out


GN = ("frho", "fp", "fv1", "fv2", "fv3", "fA1", "fA2", "fA3", "fs0", "fs1", "fs2")


def generic(s, amp, seed, box=False):
    """the same state with noise in every variable, so that no two quantities coincide by construction"""
    s = dict(s)
    for n, k in enumerate(GN):
        if k in s:
            s[k] = list(s[k]) + [dict(kind="noise", amp=amp, k=[0, 0, 0], ph=0, seed=seed * 31 + 7 * n + 1)]
    return s


def prims(s, N, dx, gas, eos, nscal=0, contrast=0.8, vamp=0.5, camp=0.3, wall=(0, 0, 0)):
    rho = s["rho0"] * np.exp(contrast * np.clip(field(s["frho"], N), -1.5, 1.5))
    p = s["p0"] * np.exp(contrast * np.clip(field(s["fp"], N), -1.5, 1.5))
    v = [s["v0"][d] + vamp * np.clip(field(s["fv%d" % (d + 1)], N), -1.5, 1.5) for d in range(3)]
    B = faceB(s, N, dx, camp, wall) if gas == "mhd" else None
    sc = [0.5 + 0.3 * np.clip(field(s["fs%d" % i], N), -1.5, 1.5) for i in range(nscal)]
    return dict(rho=rho, p=p, v=v, B=B, Bc=cellB(B, N) if B is not None else None, r=sc)


def cons(w, gas, eos, gamma, cyl=False):
    cols = [w["rho"]] + [w["rho"] * v for v in w["v"]]
    if eos == "adiabatic":
        E = w["p"] / (gamma - 1) + 0.5 * w["rho"] * sum(v * v for v in w["v"])
        if gas == "mhd":
            E = E + 0.5 * sum(b * b for b in w["Bc"])
        cols.append(E)
    if gas == "mhd":
        cols += w["Bc"]
    cols += [w["rho"] * r_ for r_ in w["r"]]
    if cyl:
        cols.append(np.zeros_like(w["rho"]))
    return np.stack(cols, axis=-1)


def divB(B, N, dx):
    """cell divergence from face arrays, shape (n3,n2,n1)"""
    out = 0.0
    for d in range(3):
        if N[d] > 1:
            ax = 2 - d
            n = N[d]
            out = out + (np.take(B[d], range(1, n + 1), axis=ax) - np.take(B[d], range(n), axis=ax)) / dx[d]
    return out


def dims(nd, lo=8, hi3=10, hi2=16, hi1=48, even=False):
    """grid sizes per dimensionality"""
    if nd == 1:
        t = st.tuples(st.integers(lo, hi1), st.just(1), st.just(1))
    elif nd == 2:
        t = st.tuples(st.integers(lo, hi2), st.integers(lo, hi2), st.just(1))
    else:
        t = st.tuples(*[st.integers(min(lo, hi3), hi3)] * 3)
    if even:
        t = t.map(lambda x: tuple(n if n == 1 else n + n % 2 for n in x))
    return t.map(list)
