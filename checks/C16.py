"""The FFT wrappers: generated complex arrays on generated grids and decompositions, against numpy's transforms."""
from .common import *
from .C04 import splits
import glob, os

RULE = ("A case is a 2D or 3D grid shape (primes, odd and even sizes), complex data (random, real, one mode, one point, wide dynamic range) and a division of the "
        "Domain among processes (uneven ones included); each runs forward, forward-backward, backward and backward-forward with plans that coexist. "
        "Non-trivial: the data are not constant.")
ASSUMPTIONS = ["single precision builds are not covered", "each Grid has at least 4 cells per active direction (the program's own limit)"]


def data(case):
    N = case["N"]
    rs = np.random.RandomState(case["sd"])
    a = rs.normal(size=N) + 1j * rs.normal(size=N)
    k = case["kind"]
    if k == "real":
        a = a.real + 0j
    elif k == "mode":
        q = [rs.randint(n) for n in N]
        g = np.indices(N)
        a = np.exp(2j * np.pi * sum(q[d] * g[d] / N[d] for d in range(3)))
    elif k == "point":
        a = np.zeros(N, complex)
        a[tuple(rs.randint(n) for n in N)] = 2 - 3j
    elif k == "range":
        a = a * 10.0 ** rs.uniform(-6, 6, size=N)
    elif k == "const":
        a = np.full(N, 1.5 - 0.5j)
    return a


def do(case, exe):
    N = case["N"]
    a = data(case)
    b = ath.blocks(N, [float(n) for n in N], nlim=0, fft=1)
    np_ = None
    name = "s"
    if case["par"]:
        sp = [g for g in splits(N, 8)]
        if not case["auto"]:
            g = sp[case["pick"] % len(sp)]
            for d in range(3):
                b["domain1"]["NGrid_x%d" % (d + 1)] = g[d]
            np_ = g[0] * g[1] * g[2]
        else:
            ns = sorted(set(g[0] * g[1] * g[2] for g in sp if all(N[d] % g[d] == 0 for d in range(3))))
            np_ = ns[case["pick"] % len(ns)]
            b["domain1"]["AutoWithNProc"] = np_
        name = "p"
    U = np.ones((N[2], N[1], N[0], 5))
    U[..., 1:4] = 0
    with ath.Scratch() as d:
        a.astype("<c16").tofile(os.path.join(d, "fft.in"))
        ath.write_ic(os.path.join(d, "ic.0.0"), U)
        open(os.path.join(d, "athinput"), "w").write(ath.athinput(b))
        p = ath.launch(exe[name], ["-i", "athinput"], d, np_=np_)
        if p.rc != 0 and case["auto"] and case["par"] and "rror" in p.out and ("decomp" in p.out.lower() or "less than" in p.out):
            return False, "no automatic decomposition"
        ath.check_ok(p)
        out = [np.full(N, np.nan + 0j) for _ in range(4)]
        fs = glob.glob(os.path.join(d, "fft.out.*"))
        need(len(fs) == (np_ or 1), "%d processes replied instead of %s", len(fs), np_)
        for f in fs:
            v = np.fromfile(f, "<f8")
            o, n = v[:3].astype(int), v[3:6].astype(int)
            m = n[0] * n[1] * n[2]
            z = v[6:6 + 8 * m].view("<c16")
            for q in range(4):
                out[q][o[0]:o[0] + n[0], o[1]:o[1] + n[1], o[2]:o[2] + n[2]] = z[q * m:(q + 1) * m].reshape(n)
            need(int(v[-2]) == m and int(v[-1]) == a.size, "plan counts %s for %d local and %d global points", v[-2:], m, a.size)
    ax = (0, 1, 2) if N[2] > 1 else (0, 1)
    F = np.fft.fftn(a, axes=ax)
    G = np.fft.ifftn(a, axes=ax) * a.size
    s = np.sqrt((np.abs(a) ** 2).sum())
    for got, ref, sc, what in ((out[0], F, s, "forward transform"), (out[1], a * a.size, s * np.sqrt(a.size), "forward then backward"),
                               (out[2], G, s, "backward transform"), (out[3], a * a.size, s * np.sqrt(a.size), "backward then forward")):
        e = np.abs(got - ref).max()
        need(e <= 1e-12 * sc * (1 + np.log2(a.size)), "%s of %s data on %s (processes %s) is off by %.3e of %.3e", what, case["kind"], N, np_, e, sc)
    return case["kind"] != "const", ("parallel " if np_ else "serial ") + "%dd" % len(ax)


def subs(tier):
    fc = B.cfg("hydro", "adiabatic", "2", "roe", "ctu", fft=1)
    pc = B.cfg("hydro", "adiabatic", "2", "roe", "ctu", fft=1, mpi=1)
    b = {"s": spec(fc), "p": spec(pc)}
    out = []
    for nd, mx in ((2, 30), (3, 14)):
        n = st.integers(4, mx)
        sh = st.tuples(n, n, n if nd == 3 else st.just(1)).map(list)
        base = dict(N=sh, sd=st.integers(0, 10 ** 6), kind=st.sampled_from(["random", "random", "real", "mode", "point", "range", "const"]), pick=st.integers(0, 100))
        out.append(Sub("serial-%dd" % nd, st.fixed_dictionaries(dict(base, par=st.just(False), auto=st.just(False))), do, {"s": b["s"]}, 40))
        for i in range(4):
            out.append(Sub("mpi-%dd-%d" % (nd, i), st.fixed_dictionaries(dict(base, par=st.just(True), auto=st.integers(0, 3).map(lambda x: x == 0))), do, {"p": b["p"]}, 14, 150))
    return out
