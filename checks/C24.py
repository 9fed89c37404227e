"""Memory safety and clean refusal: sanitized builds fed with legal, mutated and illegal inputs, command lines and restart files."""
import glob
import itertools
import os
import re
import shutil

from .common import *
from vp import build as B
from vp.build import cfg
from vp.prop import Discard
from . import feats, C11
from .C04 import splits, edge_on_split, MIN

RULE = ("a legal case counts when at least one step was taken and at least one output written; a mutated case when the mutation changed the bytes given to the program; an "
        "illegal one always")
ASSUMPTIONS = ["memory errors and undefined behaviour are what AddressSanitizer, UndefinedBehaviorSanitizer and (serial builds without FFTW) MemorySanitizer report",
               "absurdly large grids, which no machine could hold, are not tried", "a run has 40 s; inputs are small enough to finish in well under one"]

ASAN = ("-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer")
MSAN = ("-g1", "-fsanitize=memory", "-fno-omit-frame-pointer", "-fno-sanitize-memory-param-retval", "-fsanitize-memory-track-origins=2", "-Wno-implicit-function-declaration", "-Wno-error=implicit-function-declaration")
ENV = dict(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0",
           MSAN_OPTIONS="allocator_may_return_null=1")
BAD = re.compile(r"(ERROR: AddressSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|[^\n]*runtime error: [^\n]*|[^\n]*AddressSanitizer:DEADLYSIGNAL[^\n]*)")


def clean(p, what):
    m = BAD.search(p.out)
    if m:
        fr = re.findall(r"#\d+ \S+ in (\w+) \S*?([\w.]+:\d+)", p.out)
        raise Violation("%s: %s at %s" % (what, m.group(1).strip()[:200], fr[:4]))
    need(not p.timeout, "%s: did not end: %s", what, p.out[-300:])
    need(p.rc >= 0 and p.rc not in (134, 136, 139), "%s: killed by a signal (status %d): %s", what, p.rc, p.out[-300:])


def decomposed(f, p, b, pick):
    """a process grid: returns the number of processes"""
    if "lay" in p:
        doms = sorted([d for d in b if d.startswith("domain")], key=lambda s: int(s[6:]))
        Ns = [[b[d]["Nx%d" % (i + 1)] for i in range(3)] for d in doms]
        opts = []
        for combo in itertools.product(*[splits(N, 4, True) for N in Ns]):
            c = [g[0] * g[1] * g[2] for g in combo]
            for np_ in range(max(2, max(c)), 5):
                if sum(c) % np_ == 0:
                    opts.append((np_, combo))
            if len(opts) > 200:
                break
        if not opts:
            return 0
        np_, combo = opts[pick % len(opts)]
        dec = dict(zip(doms, combo))
    else:
        N = [b["domain1"]["Nx%d" % (i + 1)] for i in range(3)]
        o = [g for g in splits(N, 4, MIN=5 if "par" in dict(f.c) else MIN) if g[0] * g[1] * g[2] > 1 and ("sb" not in dict(f.c) or N[1] % g[1] == 0)]
        if not o:
            return 0
        g = o[pick % len(o)]
        np_, dec = g[0] * g[1] * g[2], {"domain1": g}
    for k, g in dec.items():
        for i in range(3):
            b[k]["NGrid_x%d" % (i + 1)] = g[i]
    return np_


def legal(f, nd, mpi):
    def fn(case, exe):
        p = case["p"]
        b, ics, par = f.make(p)
        np_ = None
        if mpi:
            np_ = decomposed(f, p, b, case["pick"])
            if not np_:
                return False, "indivisible"
        C11.prepare(dict(case, outs=case["outs"]), f.c, b, nd)
        n = b["job"]["maxout"]
        for q in range(case["more"]):       # more outputs than anyone has
            b["output%d" % (n + q + 1)] = dict(out_fmt=["tab", "vtk", "bin", "hst"][q % 4], dt=0.1, id="m%d" % q, **({"out": "prim"} if q % 3 == 1 else {}))
        n += case["more"]
        b["output%d" % (n + 1)] = dict(out_fmt="rst", dt=1e-30)
        b["job"]["maxout"] = n + 1
        with ath.Scratch() as d:
            q = ath.run(exe["x"], b, ics, d, par=par, np_=np_, timeout=90, expect_ok=False, env=ENV)
            clean(q, "legal run")
            if q.rc:
                raise Discard("run ended with an error: " + q.out[-200:])
            done = len(ath.steps(d, 0) if mpi else ath.steps(d))
            rst = sorted(glob.glob(os.path.join(d, "id0" if mpi else ".", "*.rst")))
            need(rst, "no restart file was written")
            if "par" in dict(f.c) or True:
                r_ = rst[case["pick"] % len(rst)]
                e = os.path.join(d, "again")
                os.mkdir(e)
                for x in glob.glob(os.path.join(d, "ic*")):
                    shutil.copy(x, e)
                num = os.path.basename(r_).split(".")[-2]
                for x in glob.glob(os.path.join(d, "**", "*%s.rst" % num), recursive=True):
                    if "/again/" not in x:
                        shutil.copy(x, e)
                q = ath.launch(exe["x"], ["-r", os.path.basename(r_)], e, np_=np_, timeout=90, env=ENV)
                clean(q, "restarted run")
                need(q.rc == 0, "restarted run exited with status %d: %s", q.rc, q.out[-300:])
        return done > 0, "outs%d" % (n + 1)
    smr = "smr" in dict(f.c)
    s = st.fixed_dictionaries(dict(p=f.strategy(nd), outs=C11.out_strategy(f.c, nd, smr), more=st.sampled_from([0, 0, 0, 2, 12]), pick=st.integers(0, 1000)))
    return s, fn


# -- damaged parameter files ------------------------------------------------------
VALUES = ["", "0", "-1", "1", "2", "3", "7", "1e300", "-1e-300", "nan", "inf", "abc", "cons", "prim", "d", "ppm", "=", "=3", "#", "1:0", "9:", ":", "0.5:0.4", "L" * 90, "m" * 300]
JUNK = ["garbage", "=", "= 3", "x =", "<", "<>", "<  >", "<job", "<job>", "<domain1>", "#", "\t \t", "<par_end>", "x = y # z # w", "a" * 400 + " = 1", "b = " + "1" * 400,
        "<" + "n" * 300 + ">", "<output2>", "name = usr", "out_fmt = ppm", "dt = 0", "id = " + "q" * 90, "\x01\x02\xff = 3"]
mut1 = st.tuples(st.sampled_from(["drop", "dup", "swap", "value", "value", "value", "value", "insert", "insert", "cut", "name", "dropblock"]), st.integers(0, 10 ** 6), st.integers(0, 10 ** 6))


def mutate(text, muts, values=True):
    L = text.splitlines()
    for kind, a, q in muts:
        if not L:
            break
        i = a % len(L)
        if kind == "drop":
            del L[i]
        elif kind == "dup":
            L.insert(q % (len(L) + 1), L[i])
        elif kind == "swap":
            j = q % len(L)
            L[i], L[j] = L[j], L[i]
        elif kind == "value" and "=" in L[i] and values:
            L[i] = L[i].split("=")[0] + "= " + VALUES[q % len(VALUES)]
        elif kind == "insert":
            L.insert(i, JUNK[q % len(JUNK)])
        elif kind == "cut":
            L[i] = L[i][:q % (len(L[i]) + 1)]
        elif kind == "name" and "=" in L[i]:
            L[i] = L[i][::-1]
        elif kind == "dropblock" and L[i].startswith("<"):
            j = i + 1
            while j < len(L) and not L[j].startswith("<"):
                j += 1
            del L[i:j]
    out = [x for x in L if not re.match(r"\s*(dat_fmt|nlim)\b", x)]
    return "\n".join(out) + "\n<time>\nnlim = 2\n"


def setup(f, case, d, nd, b=None):
    b0, ics, par = f.make(case["p"])
    C11.prepare(dict(case, outs=case["outs"]), f.c, b0, nd)
    n = b0["job"]["maxout"] + 1
    b0["output%d" % n] = dict(out_fmt="rst", dt=1e-30)
    b0["job"]["maxout"] = n
    for (l, m), ic in ics.items():
        ath.write_ic(os.path.join(d, "ic.%d.%d" % (l, m)), *ic)
    if par is not None:
        np.asarray(par, "<f8").tofile(os.path.join(d, "ic.par"))
    return b0


def ended(p, what):
    clean(p, what)
    if p.rc:
        need(p.out.strip(), "%s: ended with status %d and no message", what, p.rc)


def refused(p, what):
    clean(p, what)
    need(p.rc != 0, "%s was accepted (status 0): %s", what, p.out[-200:])
    need(p.out.strip(), "%s: ended with status %d and no message", what, p.rc)
    need("cycle=1 " not in p.out, "%s was noticed only after the first step", what)


def base(f, nd):
    return dict(p=f.strategy(nd), outs=C11.out_strategy(f.c, nd, "smr" in dict(f.c)))


def damaged(f, nd):
    def fn(case, exe):
        with ath.Scratch() as d:
            b = setup(f, case, d, nd)
            b["time"]["nlim"] = 2
            t0 = ath.athinput(b)
            t = mutate(t0, case["muts"], "par" not in dict(f.c))
            with open(os.path.join(d, "athinput"), "wb") as h:
                h.write(t.encode("latin1"))
            p = ath.launch(exe["x"], ["-i", "athinput"], d, timeout=40, env=ENV)
            ended(p, "damaged parameter file")
            return t != t0, "rc%d" % (p.rc != 0)
    return st.fixed_dictionaries(dict(base(f, nd), muts=st.lists(mut1, min_size=1, max_size=3))), fn


# -- definitely illegal input -----------------------------------------------------
def smr_bad(nd):
    """a legal refined mesh made illegal"""
    ds = ["Nx%d" % (i + 1) for i in range(nd)]
    disp = ["iDisp", "jDisp", "kDisp"][:nd]
    out = []
    for i in range(nd):
        out += [("domain2", ds[i], lambda v, b: v - 1), ("domain2", disp[i], lambda v, b: v + 1), ("domain2", disp[i], lambda v, b: -4), ("domain2", disp[i], lambda v, b: 4000),
                ("domain2", ds[i], lambda v, b: 0), ("domain2", disp[i], None), ("domain2", ds[i], None)]
    out += [("domain2", "level", lambda v, b: 0), ("domain2", "level", lambda v, b: 5), ("domain2", "level", lambda v, b: -1), ("domain2", "level", None),
            ("job", "num_domains", lambda v, b: v + 1)]
    return out


def bad_list(f, nd):
    d = dict(f.c)
    req = [("job", "problem_id"), ("time", "cour_no"), ("time", "tlim"), ("job", "num_domains"), ("domain1", "level"), ("problem", "iso_csound" if d["eos"] == "isothermal" else "gamma")]
    req += [("domain1", "%s%d%s" % q) for q in [("Nx", i, "") for i in (1, 2, 3)] + [("x", i, e) for i in (1, 2, 3) for e in ("min", "max")]] + [("output2", "dt")]
    out = [(a, k, None) for a, k in req]
    for i in range(3):
        out += [("domain1", "Nx%d" % (i + 1), lambda v, b: 0), ("domain1", "Nx%d" % (i + 1), lambda v, b: -v)]
        out += [("domain1", "x%dmax" % (i + 1), lambda v, b, i=i: b["domain1"]["x%dmin" % (i + 1)] - 1)]
        if i < nd:
            out += [("domain1", "x%dmax" % (i + 1), lambda v, b, i=i: b["domain1"]["x%dmin" % (i + 1)])]
            for e in ("i", "o"):
                out += [("domain1", "bc_%sx%d" % (e, i + 1), lambda v, b: 17), ("domain1", "bc_%sx%d" % (e, i + 1), lambda v, b: -3)]
    out += [("time", "cour_no", lambda v, b: 1.7)] * (d["integ"] == "vl" or nd == 3)
    out += [("job", "num_domains", lambda v, b: 0), ("job", "num_domains", lambda v, b: 40), ("domain1", "level", lambda v, b: 3),
            ("output2", "out_fmt", lambda v, b: "png"), ("output2", "name", lambda v, b: "no_such_output"), ("outputS", "x1", lambda v, b: "0.7:0.2"), ("outputS", "palette", lambda v, b: "mauve")]
    if nd > 1:
        out += [("domain1", "Nx1", lambda v, b: 1)]
    if nd == 3:
        out += [("domain1", "Nx2", lambda v, b: 1)]
    if "smr" in d:
        out += smr_bad(nd)
    return out


LINES = ["just words", "= 3", "<unterminated", "<>", "orphan = 1"]


def bad_mpi(f, nd):
    out = []
    for i in range(3):
        out += [("domain1", "NGrid_x%d" % (i + 1), lambda v, b, q=q: q) for q in (0, -1, -2, 3, 4096)]
    return out + [("domain1", "AutoWithNProc", lambda v, b, q=q: q) for q in (-1, 3, 5000)]


def illegal(f, nd, mpi=0):
    bad = bad_mpi(f, nd) if mpi else bad_list(f, nd)
    n = len(bad)

    def fn(case, exe):
        k = case["k"]
        with ath.Scratch() as d:
            b = setup(f, case, d, nd)
            if "domain2" not in b and k < n and bad[k][0] == "domain2":
                return False, "no child"
            m = b["job"]["maxout"] + 1
            b["output%d" % m] = dict(out_fmt="ppm", out="d", dt=1e-30)
            b["job"]["maxout"] = m
            for i in range(nd):
                if i > 1:
                    b["output%d" % m]["x%d" % (i + 1)] = ":"
            if mpi:
                b["domain1"]["NGrid_x1"] = 2
            if k < n:
                blk_, name, fn_ = bad[k]
                key = "output%d" % m if blk_ == "outputS" else blk_
                if key == "output2" and name == "out_fmt":
                    b[key].pop("name", None)
                if fn_ is None:
                    b[key].pop(name, None)
                    what = "%s/%s missing" % (key, name)
                else:
                    v = fn_(b[key].get(name), b)
                    b[key][name] = v
                    what = "%s/%s = %s" % (key, name, v)
                t = ath.athinput(b)
            else:
                t = ath.athinput(b)
                x = LINES[k - n]
                what = "line %r" % x
                L = t.splitlines()
                L.insert(0 if x.startswith("orphan") else case["at"] % len(L), x)
                t = "\n".join(L) + "\n"
            with open(os.path.join(d, "athinput"), "w") as h:
                h.write(t)
            p = ath.launch(exe["x"], ["-i", "athinput"], d, timeout=60, env=ENV, np_=2 if mpi else None)
            refused(p, what)
            return True, what.split("=")[0]
    return st.fixed_dictionaries(dict(base(f, nd), k=st.integers(0, n + len(LINES) - 1), at=st.integers(0, 1000))), fn


# -- command line and restart files -----------------------------------------------
ARGS = [(["-i"], 1), (["-r"], 1), (["-d"], 1), (["-i", "nosuchfile"], 1), (["-r", "nosuchfile"], 1), (["-i", "athinput", "-r", "nosuch.0000.rst"], 1), (["-i", "athinput", "nosuch/par=3"], 1),
        (["-i", "athinput", "time/nosuch=3"], 1), (["-r", "athinput"], 1), (["-r", "."], 1), (["-i", "."], 1), (["-i", "empty"], 1), (["-r", "empty"], 1), (["-z"], 0), (["-h"], 0), (["-c"], 0), (["-n"], 0),
        (["-i", "athinput", "-n"], 0), (["-"], 0), ([""], 0), (["/"], 0), (["/="], 1), (["=", "/"], 0), (["-i", "athinput", "job/problem_id="], 0), (["-i", "athinput", "time/tlim"], 0),
        (["-i", "athinput", "-d", "sub/dir"], 1), (["-i", "athinput", "-d", "sub"], 0), (["-i", "athinput", "-r", "athinput"], 1)]


def cmdline(f, nd):
    def fn(case, exe):
        with ath.Scratch() as d:
            b = setup(f, case, d, nd)
            with open(os.path.join(d, "athinput"), "w") as h:
                h.write(ath.athinput(b))
            open(os.path.join(d, "empty"), "w").close()
            args, must = ARGS[case["k"]]
            p = ath.launch(exe["x"], list(args), d, timeout=40, env=ENV)
            (refused if must else ended)(p, "command line %r" % (args,))
            return True, " ".join(args)
    return st.fixed_dictionaries(dict(base(f, nd), k=st.integers(0, len(ARGS) - 1))), fn


def restart(f, nd, others):
    def fn(case, exe):
        with ath.Scratch() as d:
            b = setup(f, case, d, nd)
            with open(os.path.join(d, "athinput"), "w") as h:
                h.write(ath.athinput(b))
            q = ath.launch(exe["x"], ["-i", "athinput"], d, timeout=60, env=ENV)
            clean(q, "legal run")
            if q.rc:
                raise Discard("run ended with an error")
            rst = sorted(glob.glob(os.path.join(d, "*.rst")))
            src = open(rst[case["pick"] % len(rst)], "rb").read()
            end = src.index(b"<par_end>")
            kind = case["kind"]
            data, must = src, 1
            labels = [m.span() for m in re.finditer(rb"\n(N_STEP|TIME_STEP|TIME|DENSITY|[123]-MOMENTUM|ENERGY|[123]-FIELD|SCALAR \d|PARTICLE [A-Z0-9_]+|USER_DATA)", src)]
            if kind == "cut-data":      # anywhere before the last label
                data = src[:end + case["at"] % (labels[-1][1] - 3 - end)]
            elif kind == "cut-text":
                data = src[:case["at"] % end]
            elif kind == "label":
                s0, e0 = labels[case["at"] % len(labels)]
                data = src[:s0 + 1] + b"?" * (e0 - s0 - 1) + src[e0:]
            elif kind == "drop":
                s0, e0 = labels[case["at"] % (len(labels) - 1)]
                data = src[:s0 + 1] + src[labels[case["at"] % (len(labels) - 1) + 1][0] + 1:]
            elif kind == "flip":
                i = end + 10 + case["at"] % (len(src) - end - 10)
                data, must = src[:i] + bytes([src[i] ^ (1 << case["pick"] % 8)]) + src[i + 1:], 0
            elif kind == "grid":
                i = case["at"] % nd
            with open(os.path.join(d, "bad.rst"), "wb") as h:
                h.write(data)
            args = ["-r", "bad.rst"]
            x = exe["x"]
            if kind == "grid":
                args.append("domain1/Nx%d=%d" % (i + 1, b["domain1"]["Nx%d" % (i + 1)] + 1 + case["pick"] % 5))
            elif kind == "foreign":
                x = exe["other"]
            p = ath.launch(x, args, d, timeout=40, env=ENV)
            (refused if must else ended)(p, "restart file with %s" % kind)
            return data != src or kind in ("grid", "foreign"), kind
    kinds = ["cut-data", "cut-data", "cut-text", "label", "drop", "foreign"] + ["grid"] * ("smr" not in dict(f.c)) + ["flip"] * ("par" not in dict(f.c))
    return st.fixed_dictionaries(dict(base(f, nd), kind=st.sampled_from(kinds), at=st.integers(0, 10 ** 7), pick=st.integers(0, 1000))), fn


def subs(tier):
    T = {f.name: f for f in feats.table()}
    out = []
    X = lambda f: {"x": spec(f.c, "-O0", ASAN)}
    few = [("hydro-adi-ctu-o2-roe", 1), ("mhd-iso-vl-o2p-hlld", 2), ("mhd-adi-ctu-o3-hlld", 3), ("hydro-adi-ctu-o2-hllc-smr", 2), ("mhd-adi-vl-o2p-hlld-smr", 3), ("hydro-iso-ctu-o2-hllc-par", 2)]
    gas = spec(cfg("hydro", "isothermal", "2", "hllc", "ctu", 0), "-O0", ASAN)
    other = spec(cfg("mhd", "adiabatic", "2", "hlld", "ctu", 2), "-O0", ASAN)
    for i, (name, nd) in enumerate(few):
        f = T[name]
        s, fn = damaged(f, nd)
        out.append(Sub("damaged-%s-%dd" % (name, nd), s, fn, X(f), quick=25, thorough=1500))
        s, fn = illegal(f, nd)
        out.append(Sub("illegal-%s-%dd" % (name, nd), s, fn, X(f), quick=40, thorough=400))
        s, fn = restart(f, nd, None)
        out.append(Sub("restart-%s-%dd" % (name, nd), s, fn, dict(X(f), other=gas if "mhd-adi" in name else other), quick=12, thorough=400))
    f = T[few[0][0]]
    s, fn = cmdline(f, 1)
    s, fn = illegal(f, 2, 1)
    out.append(Sub("illegal-mpi", s, fn, {"x": spec(cfg(**dict(f.c, mpi=1)), "-O0", ASAN)}, quick=12, thorough=150))
    s, fn = cmdline(f, 1)
    out.append(Sub("cmdline", s, fn, X(f), quick=40, thorough=300))
    for i, f in enumerate(T.values()):
        d = dict(f.c)
        for nd in f.nds:
            if tier == "quick" and nd != f.nds[i % len(f.nds)]:
                continue
            s, fn = legal(f, nd, 0)
            out.append(Sub("legal-%s-%dd" % (f.name, nd), s, fn, {"x": spec(f.c, "-O0", ASAN)}, quick=4, thorough=60))
            if "fft" not in d and (tier != "quick" or i % 3 == 0 or "smr" in d):
                out.append(Sub("undef-%s-%dd" % (f.name, nd), s, fn, {"x": spec(f.c, "-O0", MSAN)}, quick=3, thorough=60))
            if f.mpi and (tier != "quick" or i % 4 == 1) and not (nd == 1 and "grav" in d):
                s, fn = legal(f, nd, 1)
                out.append(Sub("legal-mpi-%s-%dd" % (f.name, nd), s, fn, {"x": spec(cfg(**dict(d, mpi=1)), "-O0", ASAN)}, quick=2, thorough=30))
    return out
