"""The vis/ tools that join per-process files (VTK, binary, particle lists) and sort particle lists."""
import os
import struct
import subprocess

from .common import *
from vp import build as B
from vp import files
from vp.build import cfg
from .C17 import procs, cells, nudge

RULE = ("a case counts when at least two files were joined into one holding more than one distinct value, or a list of at least two particles that was not yet "
        "in order was sorted")
ASSUMPTIONS = ["tools are built with address and undefined-behaviour checking on; per-process files come from real parallel runs, or are cut from a generated "
               "array in the documented format", "particle deposits and potentials of a parallel run may differ from the serial ones by round-off"]

SAN = ("-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
# tiny numbers whose leading (big-endian float) bytes are white space
BLANK = [struct.unpack(">f", bytes(x))[0] for x in
         ([0x20, 0x20, 0x20, 0x20], [0x0a, 0x20, 0x41, 0x0d], [0x0d, 0x0a, 0, 1], [0x09, 0x09, 0x53, 0x43], [0x20, 0x0a, 0x0a, 0x7f], [0x0c, 0x0b, 0x20, 0x0a])]


def tool(n):
    p = {"join_vtk": "vis/vtk/join_vtk.c", "join_bin": "vis/matlab/join_bin/join_bin.c", "join_lis": "vis/particle/join_lis.c", "sort_lis": "vis/particle/sort_lis.c"}[n]
    return B.build_tool([os.path.join(B.REPO, p)], n, SAN)


def do(args, d, ok=True):
    p = subprocess.run(args, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    o = p.stdout.decode("latin1")
    bad = "Sanitizer" in o or "runtime error" in o or p.returncode < 0
    need(not bad, "%s: memory error: %s", os.path.basename(args[0]), o[-1500:])
    if ok:
        need(p.returncode == 0, "%s exited with status %d: %s", os.path.basename(args[0]), p.returncode, o[-400:])
    return p.returncode, o


def order(xs, perm):
    xs = list(xs)
    o = []
    for q in perm + [0] * len(xs):
        if xs:
            o.append(xs.pop(q % len(xs)))
    return o


def pieces(d, base, num, id_, ext, n):
    f = []
    for r_ in range(n):
        f.append("id%d/%s%s.%04d.%s%s" % (r_, base, "-id%d" % r_ if r_ else "", num, id_ + "." if id_ else "", ext))
    return f


def same(a, b, what, loose=False):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    if loose:
        e = np.abs(a - b).max() if a.size else 0
        need(e <= 3e-6 * (1e-30 + np.abs(b).max()), "%s differs by %g", what, e)
    else:
        w = np.nonzero(~((a == b) | (np.isnan(a) & np.isnan(b))))
        if len(w[0]):
            need(False, "%s: %d values differ, first at %s: %r, expected %r", what, len(w[0]), [int(q[0]) for q in w], a[w][:3].tolist(), b[w][:3].tolist())


LOOSE = ("gravitational_potential", "particle_density", "particle_momentum")


def same_vtk(g, w, what, exact):
    need(g["title"] == w["title"], "%s: title %r, expected %r", what, g["title"], w["title"])
    for k in ("dims", "origin", "spacing", "n", "order"):
        need(g[k] == w[k], "%s: %s is %s, expected %s", what, k, g[k], w[k])
    for v in w["order"]:
        same(g["vars"][v], w["vars"][v], what + " " + v, (v in LOOSE) or not exact)


def same_bin(g, w, what):
    for k in ("coordsys", "n", "nvar", "nscal", "grav", "par", "gm1", "cs", "time", "dt"):
        need(g[k] == w[k], "%s: %s is %s, expected %s", what, k, g[k], w[k])
    for d in range(3):
        need(np.abs(g["x"][d] - w["x"][d]).max() <= 1e-12 * (1 + np.abs(w["x"][d]).max()), "%s: x%d coordinates differ", what, d + 1)
    need(len(g["arrays"]) == len(w["arrays"]), "%s: %d arrays, the single-process file has %d", what, len(g["arrays"]), len(w["arrays"]))
    for n in range(len(w["arrays"])):
        same(g["arrays"][n], w["arrays"][n], "%s array %d" % (what, n), n >= w["nvar"])


REC = 28 + 4 + 8 + 4


def read_lis(path):
    b = open(path, "rb").read()
    need(len(b) >= 52, "%s: too short", path)
    h = np.frombuffer(b, "<f4", 12)
    nt = struct.unpack_from("<i", b, 48)[0]
    need(0 <= nt < 100, "%s: %d types", path, nt)
    rad = np.frombuffer(b, "<f4", nt, 52)
    o = 52 + 4 * nt
    t = np.frombuffer(b, "<f4", 2, o)
    n = struct.unpack_from("<q", b, o + 8)[0]
    o += 16
    need(len(b) == o + REC * n, "%s: %d particles but %d bytes of data", path, n, len(b) - o)
    return dict(h=h.tolist(), rad=rad.tolist(), t=t.tolist(), n=n, head=b[:o], rec=[b[o + REC * i:o + REC * (i + 1)] for i in range(n)])


def fields(q):
    return list(struct.unpack("<7f", q[:28])) + list(struct.unpack("<iqi", q[28:]))


def check_sort(exe, d, sub, base, num, id_):
    f = os.path.join(d, sub, "%s.%04d.%s.lis" % (base, num, id_))
    a = read_lis(f)
    do([exe, "-d", sub, "-i", base, "-s", id_, "-f", "%d:%d" % (num, num)], d)
    b = read_lis(f)
    need(a["head"] == b["head"], "sorting changed the header")
    need(sorted(a["rec"]) == sorted(b["rec"]), "sorting did not keep the records")
    k = [(fields(q)[9], fields(q)[8]) for q in b["rec"]]
    need(k == sorted(k), "list is not sorted by (init_id, id): %s", k[:20])
    return [(fields(q)[9], fields(q)[8]) for q in a["rec"]] != k


# -- real runs -------------------------------------------------------------------------------------------------------
def runs(c, nd, tools):
    d_ = dict(c)

    def fn(case, exe):
        N, L, dx, w, U = expand(case, c)
        first = U[0, 0, 0]
        first[1] = case["tiny"][0]
        for n in range(int(d_["nscal"])):
            first[-1 - n] = case["tiny"][1]
        for q in case["spots"]:
            U[int(q[2] * N[2]), int(q[1] * N[1]), int(q[0] * N[0]), 1 + q[3]] = q[4]
        pr = [min(case["pr"][a], max(1, N[a] // 4)) for a in range(3)]
        np_ = int(np.prod(pr))
        if np_ < 2:
            return False, "one process"
        b = blk(dict(case, nlim=0), x0=case["x0"])
        b["job"]["maxout"] = 5
        b["output1"] = dict(out_fmt="vtk", dt=1.0, **({"out": case["out"]} if case["out"] else {}))
        b["output2"] = dict(out_fmt="bin", dt=1.0, **({"out": case["out"]} if case["out"] else {}))
        if d_.get("par"):
            for k in ("output1", "output2"):
                b[k]["pargrid"] = case["pargrid"]
        b["output3"] = dict(out_fmt="vtk", dt=1.0, out="d", id="den") if nd > 1 else dict(out_fmt="hst", dt=1.0)
        par = None
        if d_.get("grav"):
            b["problem"]["four_pi_G"] = 1.5
        if d_.get("par"):
            par_block(b, 2, case["interp"], 3, 2)
            case = dict(case, pp=nudge(case["pp"], N))
            par = par_file(case["pp"], [(1.0, 0.1, 1.0, 2), (2.0, 0.2, 2.0, 2)], N, L, case["x0"])
            b["output4"] = dict(out_fmt="lis", dt=1.0, id="ds")
        base = b["job"]["problem_id"]
        with ath.Scratch() as d:
            s, m = os.path.join(d, "s"), os.path.join(d, "m")
            os.mkdir(s)
            os.mkdir(m)
            ath.run(exe["s"], b, {(0, 0): (U, w["B"])}, s, None, par=par)
            for a in range(3):
                b["domain1"]["NGrid_x%d" % (a + 1)] = pr[a]
            ath.run(exe["m"], b, {(0, 0): (U, w["B"])}, m, np_, par=par)
            single = lambda i, e: os.path.join(s, "%s.0000.%s%s" % (base, i + "." if i else "", e))
            do([tools["join_vtk"], "-o", "j.vtk"] + order(pieces(m, base, 0, None, "vtk", np_), case["perm"]), m)
            same_vtk(files.read_vtk(os.path.join(m, "j.vtk")), files.read_vtk(single(None, "vtk")), "joined VTK (%s)" % pr, True)
            do([tools["join_bin"], "-o", "j.bin"] + order(pieces(m, base, 0, None, "bin", np_), case["perm"]), m)
            same_bin(files.read_bin(os.path.join(m, "j.bin")), files.read_bin(single(None, "bin")), "joined binary (%s)" % pr)
            if nd > 1:
                do([tools["join_vtk"], "-o", "k.vtk"] + order(pieces(m, base, 0, "den", "vtk", np_), case["perm"]), m)
                same_vtk(files.read_vtk(os.path.join(m, "k.vtk")), files.read_vtk(single("den", "vtk")), "joined single-variable VTK (%s)" % pr, True)
            if par is not None:
                sub = "x" * case["dirlen"]
                do([tools["join_lis"], "-p", str(np_), "-i", base, "-s", "ds", "-f", "0:0", "-d", sub], m)
                g, q = read_lis(os.path.join(m, sub, "%s.0000.ds.lis" % base)), read_lis(single("ds", "lis"))
                for k in ("h", "rad", "t", "n"):
                    need(g[k] == q[k], "joined particle list: %s is %s, expected %s", k, g[k], q[k])
                A, C = [sorted([fields(x) for x in y["rec"]], key=lambda z: z[8]) for y in (g, q)]
                for x, y in zip(A, C):
                    need(x[:6] == y[:6] and x[7:9] == y[7:9], "joined particle list: record %s, expected %s", x, y)
                    need(abs(x[6] - y[6]) <= 1e-5 * (1 + abs(y[6])), "joined particle list: particle %d at %s has local particle density %g, in the single-process list %g",
                         x[8], x[:3], x[6], y[6])
                den = np.zeros((N[2], N[1], N[0]))
                W = [cells([case["x0"][a] + q[a] * L[a] if N[a] > 1 else 0.0 for a in range(3)], case["x0"], dx, N, case["interp"]) for q in case["pp"]]
                for ws in W:
                    for ix, wt in ws:
                        den[ix] += wt
                for x, ws in zip(C, W):
                    v = sum(wt * den[ix] for ix, wt in ws)
                    need(abs(x[6] - v) <= 1e-4 * (1 + abs(v)), "particle list: particle %d at %s has local particle density %g, expected %g (interpolation %d)",
                         x[8], x[:3], x[6], v, case["interp"])
                check_sort(tools["sort_lis"], m, sub, base, 0, "ds")
        return True, "%s %s" % (label(c), pr)
    kw = {}
    if d_.get("par"):
        from .C17 import parts
        kw = dict(pp=parts(2, 1.0, 12), interp=st.integers(1, 3), dirlen=st.sampled_from([1, 5, 90, 150]), pargrid=st.integers(0, 1))
    tiny = st.one_of(st.just(0.3), st.sampled_from(BLANK))
    s = evo_case(c, nd, lo=8, kinds=("mode", "noise"), steps=(0, 0), x0=st.tuples(*[r(-1, 1, 1)] * 3).map(list), pr=procs(4, nd), perm=st.lists(st.integers(0, 7), max_size=8),
                 out=st.sampled_from([None, "cons", "prim"]), tiny=st.tuples(tiny, tiny).map(list),
                 spots=st.lists(st.tuples(XF, XF, XF, st.integers(0, 2), st.sampled_from(BLANK)).map(list), max_size=6), **kw)
    return s, fn


XF = r(0, 0.999, 3)


# -- cut from a generated array ------------------------------------------------------------------------------------------
def cuts(n):
    return st.lists(st.integers(1, 5), min_size=1, max_size=n)


def write_vtk(path, title, o, dx, n, vs, tot):
    with open(path, "wb") as f:
        p = [n[a] + (tot[a] > 1) for a in range(3)]
        f.write(("# vtk DataFile Version 3.0\n%s\nBINARY\nDATASET STRUCTURED_POINTS\nDIMENSIONS %d %d %d\nORIGIN %e %e %e \nSPACING %e %e %e \nCELL_DATA %d \n" % (
            (title,) + tuple(p) + tuple(o) + tuple(dx) + (n[0] * n[1] * n[2],))).encode())
        for k, (name, a) in enumerate(vs):
            if a.ndim == 3:
                f.write(("%sSCALARS %s float\nLOOKUP_TABLE default\n" % ("\n" if k else "", name)).encode())
            else:
                f.write(("%sVECTORS %s float\n" % ("\n" if k else "", name)).encode())
            f.write(np.ascontiguousarray(a).tobytes())


def blocks_of(case):
    e = [[0] + list(np.cumsum(case["cut"][a])) for a in range(3)]
    N = [int(e[a][-1]) for a in range(3)]
    bl = [(i, j, k) for k in range(len(case["cut"][2])) for j in range(len(case["cut"][1])) for i in range(len(case["cut"][0]))]
    return e, N, bl


def synth_vtk(tools):
    def fn(case, exe):
        e, N, bl = blocks_of(case)
        if len(bl) < 2:
            return False, "one"
        rs = np.random.RandomState(case["seed"])
        pal = np.array([0x20, 0x0a, 0x0d, 0x09, 0x0b, 0x0c, 0, 0x53, 0x41], np.uint8)
        vs = []
        for q, kind in enumerate(case["vars"]):
            sh = (N[2], N[1], N[0]) + ((3,) if kind else ())
            raw = rs.choice(pal, sh + (4,)) if case["blank"] else rs.randint(0, 256, sh + (4,)).astype(np.uint8)
            vs.append((case["names"][q], np.ascontiguousarray(raw).view(">f4")[..., 0]))
        t = "PRIMITIVE vars at time= %e, level= 0, domain= 0" % case["time"]
        with ath.Scratch() as d:
            fs = []
            for i, j, k in bl:
                lo = [e[0][i], e[1][j], e[2][k]]
                hi = [e[0][i + 1], e[1][j + 1], e[2][k + 1]]
                f = "p-%d-%d-%d.vtk" % (i, j, k)
                write_vtk(os.path.join(d, f), t, [case["o"][a] + lo[a] * case["dx"][a] for a in range(3)], case["dx"], [hi[a] - lo[a] for a in range(3)],
                          [(n, v[lo[2]:hi[2], lo[1]:hi[1], lo[0]:hi[0]]) for n, v in vs], N)
                fs.append(f)
            write_vtk(os.path.join(d, "want.vtk"), t, case["o"], case["dx"], N, vs, N)
            do([tools["join_vtk"], "-o", "j.vtk"] + order(fs, case["perm"]), d)
            g, w = files.read_vtk(os.path.join(d, "j.vtk")), files.read_vtk(os.path.join(d, "want.vtk"))
            same_vtk(g, w, "joined VTK", True)
        return True, "%s vars%s" % ([len(x) for x in case["cut"]], case["vars"])
    s = st.fixed_dictionaries(dict(cut=st.tuples(cuts(4), cuts(3), cuts(3)).map(list), seed=st.integers(0, 2 ** 31 - 1), vars=st.lists(st.integers(0, 1), min_size=1, max_size=4),
                                   names=st.permutations(["density", "velocity", "pressure", "cell_centered_B"]), blank=st.booleans(), time=logr(1e-3, 1e3),
                                   o=st.tuples(*[r(-2, 2, 1)] * 3).map(list), dx=st.tuples(*[logr(0.01, 1)] * 3).map(list), perm=st.lists(st.integers(0, 40), max_size=40)))
    return s, fn


def write_bin(path, h, xs, arrs):
    with open(path, "wb") as f:
        f.write(struct.pack("<8i", h["coordsys"], len(xs[0]), len(xs[1]), len(xs[2]), h["nvar"], h["nscal"], h["grav"], h["par"]))
        f.write(struct.pack("<4d", h["gm1"], h["cs"], h["time"], h["dt"]))
        for x in xs:
            f.write(np.asarray(x, "<f8").tobytes())
        for a in arrs:
            f.write(np.ascontiguousarray(a, "<f8").tobytes())


def synth_bin(tools):
    def fn(case, exe):
        e, N, bl = blocks_of(case)
        if len(bl) < 2:
            return False, "one"
        rs = np.random.RandomState(case["seed"])
        h = case["h"]
        na = h["nvar"] + h["grav"] + 4 * h["par"]
        A = [rs.uniform(-1, 1, (N[2], N[1], N[0])) * 10.0 ** rs.randint(-30, 30) for _ in range(na)]
        X = [case["o"][a] + (np.arange(N[a]) + 0.5) * case["dx"][a] for a in range(3)]
        with ath.Scratch() as d:
            fs = []
            for q, (i, j, k) in enumerate(bl):
                lo = [e[0][i], e[1][j], e[2][k]]
                hi = [e[0][i + 1], e[1][j + 1], e[2][k + 1]]
                g, arr = dict(h), [v[lo[2]:hi[2], lo[1]:hi[1], lo[0]:hi[0]] for v in A]
                if case["odd"] and q == case["odd"][0] % len(bl):
                    g[case["odd"][1]] = case["odd"][2] if case["odd"][2] != g[case["odd"][1]] else 3
                    arr = arr + [arr[0]] * 8
                f = "p-%d-%d-%d.bin" % (i, j, k)
                write_bin(os.path.join(d, f), g, [X[a][lo[a]:hi[a]] for a in range(3)], arr)
                fs.append(f)
            rc, o = do([tools["join_bin"], "-o", "j.bin"] + order(fs, case["perm"]), d, ok=not case["odd"])
            if case["odd"]:
                need(rc != 0, "pieces that differ in %s were joined without complaint", case["odd"][1])
            else:
                write_bin(os.path.join(d, "want.bin"), h, X, A)
                g, w = open(os.path.join(d, "j.bin"), "rb").read(), open(os.path.join(d, "want.bin"), "rb").read()
                same_bin(files.read_bin(os.path.join(d, "j.bin")), files.read_bin(os.path.join(d, "want.bin")), "joined binary")
                need(g == w, "joined binary file differs from the undivided one (%d and %d bytes)", len(g), len(w))
        return True, "%s na%d odd%s" % ([len(x) for x in case["cut"]], na, bool(case["odd"]))
    h = st.fixed_dictionaries(dict(coordsys=st.sampled_from([-1, -2]), nvar=st.integers(4, 9), nscal=st.integers(0, 1), grav=st.integers(0, 1), par=st.integers(0, 1),
                                   gm1=r(0.1, 1, 1), cs=r(0, 1, 1), time=r(0, 9, 2), dt=logr(1e-3, 1)))
    odd = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 30), st.sampled_from(["nvar", "nscal", "grav", "par", "time", "gm1", "cs", "dt"]), st.integers(0, 1)).map(list))
    s = st.fixed_dictionaries(dict(cut=st.tuples(cuts(4), cuts(3), cuts(3)).map(list), seed=st.integers(0, 2 ** 31 - 1), h=h, odd=odd, o=st.tuples(*[r(-2, 2, 1)] * 3).map(list),
                                   dx=st.tuples(*[logr(0.01, 1)] * 3).map(list), perm=st.lists(st.integers(0, 40), max_size=40)))
    return s, fn


def synth_lis(tools):
    def fn(case, exe):
        rs = np.random.RandomState(case["seed"])
        dom = [0.0, 1.0, -1.0, 2.0, -0.5, 0.5]
        nums = list(range(case["f"][0], case["f"][0] + case["f"][1] * case["f"][2], case["f"][2]))
        ids = [(int(i), int(c)) for i, c in zip(rs.permutation(sum(case["n"])) % case["mod"] + 1, rs.randint(0, len(case["n"]) + 1, sum(case["n"])))]
        with ath.Scratch() as d:
            want = {}
            for num in nums:
                want[num] = []
                q = 0
                for p, n in enumerate(case["n"]):
                    os.makedirs(os.path.join(d, "id%d" % p), exist_ok=True)
                    with open(os.path.join(d, "id%d" % p, "%s%s.%04d.%s.lis" % (case["base"], "-id%d" % p if p else "", num, case["post"])), "wb") as f:
                        f.write(struct.pack("<12f", *([p * 0.1, p * 0.1 + 0.1, -1, 2, -0.5, 0.5] + dom)))
                        f.write(struct.pack("<i", len(case["rad"])) + struct.pack("<%df" % len(case["rad"]), *case["rad"]) + struct.pack("<2f", 0.1 * num, 0.01))
                        f.write(struct.pack("<q", n))
                        for _ in range(n):
                            rec = np.asarray(rs.normal(size=7), "<f4").tobytes() + struct.pack("<iqi", rs.randint(0, len(case["rad"])), ids[q][0], ids[q][1])
                            q += 1
                            want[num].append(rec)
                            f.write(rec)
            o = "o" * case["dirlen"]
            do([tools["join_lis"], "-p", str(len(case["n"])), "-i", case["base"], "-s", case["post"], "-f", "%d:%d:%d" % (nums[0], nums[-1], case["f"][2]), "-d", o] +
               (["-o", case["out"]] if case["out"] else []), d)
            got = sorted(os.listdir(os.path.join(d, o)))
            ob = case["out"] or case["base"]
            need(got == sorted("%s.%04d.%s.lis" % (ob, n, case["post"]) for n in nums), "joined files are %s", got)
            moved = False
            for num in nums:
                g = read_lis(os.path.join(d, o, "%s.%04d.%s.lis" % (ob, num, case["post"])))
                need(g["h"] == dom + dom, "header bounds %s", g["h"])
                need(np.allclose(g["rad"], case["rad"], rtol=1e-6) and np.allclose(g["t"], [0.1 * num, 0.01], rtol=1e-6), "header types %s time %s", g["rad"], g["t"])
                need(g["n"] == len(want[num]) and sorted(g["rec"]) == sorted(want[num]), "joined list has %d records, the pieces %d (or they differ)", g["n"], len(want[num]))
                moved |= check_sort(tools["sort_lis"], d, o, ob, num, case["post"])
            if case["range"] and len(nums) > 1:      # one call over the whole range must leave sorted files alone
                before = [open(os.path.join(d, o, f), "rb").read() for f in got]
                do([tools["sort_lis"], "-d", o, "-i", ob, "-s", case["post"], "-f", "%d:%d:%d" % (nums[0], nums[-1], case["f"][2])], d)
                for f, x in zip(got, before):
                    a, b = read_lis(os.path.join(d, o, f)), x
                    need(sorted(a["rec"]) == sorted(want[int(f.split(".")[1])]) and b[:len(a["head"])] == a["head"], "sorting a range of files changed their contents")
        return moved, "np%d n%d files%d" % (len(case["n"]), sum(case["n"]), len(nums))
    s = st.fixed_dictionaries(dict(n=st.lists(st.one_of(st.integers(0, 6), st.just(0), st.integers(0, 40)), min_size=1, max_size=12), seed=st.integers(0, 2 ** 31 - 1),
                                   mod=st.sampled_from([3, 10, 10 ** 6]), rad=st.lists(logr(1e-3, 1), min_size=1, max_size=4), f=st.tuples(st.integers(0, 20), st.integers(1, 3), st.integers(1, 4)).map(list),
                                   base=st.sampled_from(["streaming2d", "a", "x-y", "b" * 40]), post=st.sampled_from(["ds", "p", "q" * 12]), dirlen=st.sampled_from([1, 8, 80, 150]),
                                   out=st.sampled_from([None, None, "comb", "z" * 60]), range=st.booleans()))
    return s, fn


def subs(tier):
    tools = {n: tool(n) for n in ("join_vtk", "join_bin", "join_lis", "sort_lis")}
    out = []
    H = cfg("mhd", "adiabatic", "2", "roe", "ctu", 1)
    I = cfg("hydro", "isothermal", "2", "hllc", "ctu", 0)
    P = cfg("hydro", "adiabatic", "2", "hllc", "ctu", 0, par=1)
    G = cfg("hydro", "adiabatic", "2", "hllc", "ctu", 0, grav="fft", fft=1)
    for nd in (1, 2, 3):
        for c in (H, I, P, G):
            if dict(c).get("grav") and nd == 1:
                continue
            if tier == "quick" and c is I and nd == 2:
                continue
            s, fn = runs(c, nd, tools)
            out.append(Sub("run-%s-%dd" % (label(c), nd), s, fn, {"s": spec(c, "-O0"), "m": spec(cfg(**dict(dict(c), mpi=1)), "-O0")}, quick=10, thorough=200))
    for n, f in (("vtk", synth_vtk), ("bin", synth_bin), ("lis", synth_lis)):
        s, fn = f(tools)
        out.append(Sub("cut-" + n, s, fn, {}, quick=120, thorough=3000))
    return out
