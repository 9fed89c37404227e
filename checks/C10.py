"""Parameter files: generated texts and operation histories against a model of the database."""
import ctypes, glob, os
from .common import *
import subprocess

RULE = ("A case is a parameter file built from generated items (blocks, assignments, comments, odd spacing, CRLF, long lines, text after the end mark), "
        "command-line overrides and a history of get/set/default/dump operations, executed by the compiled parameter package (serial, or distributed over 2-3 MPI "
        "processes) or by the program's own -n mode, or a malformed file. Non-trivial: at least one parameter is assigned more than once, overridden, defaulted or "
        "set, or the file is malformed.")
ASSUMPTIONS = ["values given on the command line or by the program contain no '#', newline or outer white space (the file syntax cannot express them)",
               "integers are within int range"]
H = os.path.join(B.HERE, "src", "h_par.c")
HC = B.cfg("hydro", "adiabatic", "2", "roe", "ctu")
libc = ctypes.CDLL("libc.so.6")
libc.atof.restype = ctypes.c_double
libc.atof.argtypes = libc.atoi.argtypes = [ctypes.c_char_p]
NAMES = ["a", "ab", "abc", "A", "Nx1", "Nx11", "x1min", "num", "time", "t.d", "a_b", "a-b", "n<m", "two words", "par_end", "dt>"]
BLOCKS = ["job", "job1", "jo", "time", "domain1", "domain10", "problem", "x y", "par_end2", "out.1"]
ws = st.sampled_from(["", " ", "  ", "\t", " \t "])
word = st.text("abcxyzABC0129_.-+/:,;<>()[]%$\"'\\*!?@~&|", min_size=1, max_size=8)
value = st.one_of(st.integers(-2 ** 31, 2 ** 31 - 1).map(str), st.integers(-9, 9).map(lambda i: "%+d" % i),
                  st.floats(allow_nan=False, allow_infinity=False).map(repr), st.floats(-1e3, 1e3).map(lambda x: "%.3e" % x),
                  st.sampled_from(["1e3", "1.5E-2", ".5", "5.", "-0", "0x10", "1d3", "12abc", "abc", "007", "1e400", "nan", "inf", "- 3", "1 2 3"]),
                  word, st.lists(word, min_size=2, max_size=3).map(" ".join), st.tuples(word, word).map("=".join), st.tuples(word, word).map(" = ".join),
                  st.sampled_from(["", "", "%d %s %n", "v" * 70, "w " * 40 + "z", "L" * 300]))
comment = st.one_of(st.none(), st.text("abc =#<>/12\t.%", max_size=12), st.sampled_from(["a # b", "x = 3", "= 4", "c" * 260, "k = 9 " * 50, "#"]))
ctext = st.one_of(st.text("abc =#<>/12\t.", max_size=12), st.sampled_from(["<job>", "a = 7", "", "z" * 255 + "a = 77", "y" * 300]))
item = st.one_of(
    st.tuples(st.just("block"), st.sampled_from(BLOCKS), ws, ws, ws, st.sampled_from(["", "  ", " # a = 1", " a = 5", ">"])),
    *[st.tuples(st.just("par"), st.sampled_from(NAMES), value, ws, ws, ws, ws, comment)] * 6,
    st.tuples(st.just("comment"), ws, ctext), st.tuples(st.just("blank"), st.sampled_from(["", " ", "\t  ", " " * 260])))
bn = st.tuples(st.sampled_from(BLOCKS), st.sampled_from(NAMES))
dbl = st.floats(allow_nan=False, allow_infinity=False).map(repr)
cm = st.sampled_from([None, "a comment", "c # d = e"])
op = st.one_of(
    st.tuples(st.sampled_from(["exist", "gets", "geti", "getd"]), bn), st.tuples(st.just("gets_def"), bn, value), st.tuples(st.just("geti_def"), bn, st.integers(-2 ** 31, 2 ** 31 - 1).map(str)),
    st.tuples(st.just("getd_def"), bn, dbl), st.tuples(st.just("sets"), bn, value, cm), st.tuples(st.just("seti"), bn, st.integers(-10 ** 9, 10 ** 9).map(str), cm),
    st.tuples(st.just("setd"), bn, dbl, cm), st.tuples(st.just("dump"), st.sampled_from(["0", "1", "2"])), st.tuples(st.just("reload")))
cmd = st.one_of(st.tuples(st.just("set"), st.integers(0, 50), value), st.tuples(st.just("set"), st.integers(0, 50), value), st.tuples(st.just("arg"), st.sampled_from(["-n", "x=3", "job/x", "foo", "a/b/c", "=", "/"])))


def listy(x):
    return [listy(y) for y in x] if isinstance(x, (list, tuple)) else x


FILE = st.fixed_dictionaries(dict(first=st.sampled_from(BLOCKS), items=st.lists(item, max_size=25).map(listy), nl=st.sampled_from(["\n", "\n", "\r\n"]), last=st.booleans(),
                                  end=st.sampled_from([None, None, "", "a = 3\n<job>\nb\n", "\x01\x02 no equals\n"]), cmd=st.lists(cmd, max_size=5).map(listy)))


def text(f):
    """file text and the model it must produce"""
    m, lines, b, multi = {f["first"]: {}}, ["# generated", "<%s>" % f["first"]], f["first"], False
    for it in f["items"]:
        if it[0] == "block":
            b = it[1]
            m.setdefault(b, {})
            lines.append(it[2] + "<" + it[3] + b + it[4] + ">" + it[5])
        elif it[0] == "par":
            _, n, v, w1, w2, w3, w4, c = it
            v = v.strip()
            multi |= n in m[b]
            m[b][n] = v
            lines.append(w1 + n + w2 + "=" + w3 + v + w4 + ("" if c is None else "#" + c))
        elif it[0] == "comment":
            lines.append(it[1] + "#" + it[2])
        else:
            lines.append(it[1])
    t = f["nl"].join(lines)
    if f["end"] is not None:
        t += f["nl"] + "<par_end>" + f["nl"] + f["end"]
    elif f["last"]:
        t += f["nl"]
    return t, m, multi


def cmdline(f, m):
    args = []
    for c in f["cmd"]:
        if c[0] == "arg":
            args.append(c[1])
            continue
        ks = [(b, n) for b in m for n in m[b] if "=" not in n]
        if ks:
            b, n = ks[c[1] % len(ks)]
            v = c[2].strip()
            m[b][n] = v
            args.append("%s/%s=%s" % (b, n, v))
    return args


def parse(t):
    """independent reader of dumps"""
    m, b = {}, None
    for l in t.split("\n"):
        l = l.strip()
        if not l or l[0] == "#":
            continue
        if l == "<par_end>":
            break
        if l[0] == "<":
            b = l[1:l.index(">")]
            m.setdefault(b, {})
            continue
        l = l.split("#")[0]
        n, v = l.split("=", 1)
        need(b is not None and n.strip() not in m[b], "dump assigns %s twice or outside a block", n)
        m[b][n.strip()] = v.strip()
    return m


def same(got, m, what):
    got = {b: v for b, v in got.items()}
    need(got == m, "%s differs from the model: %s", what,
         [(b, n, got.get(b, {}).get(n), m.get(b, {}).get(n)) for b in sorted(set(got) | set(m)) for n in sorted(set(got.get(b, {})) | set(m.get(b, {})))
          if got.get(b, {}).get(n) != m.get(b, {}).get(n)][:3] or [sorted(got), sorted(m)])


def hx(s):
    return "-" if s is None else s.encode("latin-1").hex() or "00"


def history(case, exe):
    t, m, touched = text(case)
    argv = cmdline(case, m)
    touched |= bool(argv)
    np_ = case.get("np")
    script, expect, dumps = ["open " + hx("par.in")], [("s", "ok")], []
    script.append(" ".join(["cmdline"] + [hx(a) for a in argv]))
    expect.append(("s", "ok"))
    expect += [("s", a) for a in argv]
    if np_:
        script.append("dist")
        expect.append(("s", "ok"))
    fatal = False
    nd = 0
    for o in case["ops"]:
        k = o[0]
        if k == "dump":
            dumps.append(("d%d" % nd, o[1], {b: dict(v) for b, v in m.items()}))
            script.append("dump %s %s" % (hx(o[1]), hx("d%d" % nd)))
            expect.append(("s", "ok"))
            nd += 1
            continue
        if k == "reload":
            if np_:
                continue
            script += ["dump %s %s" % (hx("2"), hx("d%d" % nd)), "close", "open " + hx("d%d.0" % nd)]
            expect += [("s", "ok")] * 3
            dumps.append(("d%d" % nd, "2", {b: dict(v) for b, v in m.items()}))
            nd += 1
            continue
        b, n = o[1]
        v = m.get(b, {}).get(n)
        if k in ("gets", "geti", "getd") and v is None:
            if o is not case["ops"][-1]:
                continue
            fatal = True
        if len(o) > 2 and k in ("gets_def", "sets"):
            o = [k, o[1], o[2].strip()] + list(o[3:])
        a = [b, n] + list(o[2:])
        script.append(" ".join([k] + [hx(x) for x in a]))
        if fatal:
            break
        if k == "exist":
            expect.append(("i", int(v is not None)))
        elif k in ("sets", "seti", "setd"):
            touched = True
            m.setdefault(b, {})[n] = o[2] if k != "setd" else "%.16e" % float(o[2])
            if k == "seti":
                m[b][n] = "%d" % int(o[2])
            expect.append(("s", "ok"))
        else:
            if k.endswith("_def") and v is None:
                touched = True
                v = o[2] if k != "getd_def" else "%.16e" % float(o[2])
                m.setdefault(b, {})[n] = v
            if k[3] == "s":
                expect.append(("s", v))
            elif k[3] == "i":
                expect.append(("i", libc.atoi(v.encode("latin-1")) if -2 ** 31 <= num(v) < 2 ** 31 else None))
            else:
                expect.append(("d", float(o[2]) if k == "getd_def" and v == "%.16e" % float(o[2]) else libc.atof(v.encode("latin-1"))))
    with ath.Scratch() as d:
        open(os.path.join(d, "par.in"), "wb").write(t.encode("latin-1"))
        open(os.path.join(d, "ops"), "w").write("\n".join(script) + "\n")
        p = ath.launch(exe["x"], ["ops"], d, np_=np_, timeout=60)
        need(not p.timeout, "operations did not finish")
        if fatal:
            need(p.rc != 0 and p.rc != 99 and p.rc > 0, "reading an absent parameter: status %d, %s", p.rc, p.out[-200:])
            need("not found" in p.out.lower() or "error" in p.out.lower(), "reading an absent parameter gives no message: %s", p.out[-200:])
            return True, "absent"
        need(p.rc == 0, "status %d on a legal history: %s", p.rc, p.out[-300:])
        for rk in range(np_ or 1):
            rep = open(os.path.join(d, "reply.%d" % rk)).read().split("\n")[:-1]
            need(len(rep) == len(expect) + 1, "rank %d: %d replies for %d operations", rk, len(rep), len(expect))
            for r_, (ty, v), i in zip(rep, expect, range(len(expect))):
                if ty == "s":
                    g = bytes.fromhex(r_[1:]).decode("latin-1")
                    need(g == v, "rank %d reply %d is %r, model says %r", rk, i, g, v)
                elif ty == "i":
                    need(v is None or int(r_) == v, "rank %d reply %d is %s, model says %s", rk, i, r_, v)
                else:
                    g = float(r_)
                    need(g == v or (g != g and v != v), "rank %d reply %d is %s, model says %r", rk, i, r_, v)
            for nm, mode, md in dumps:
                tt = open(os.path.join(d, "%s.%d" % (nm, rk)), "rb").read().decode("latin-1")
                if mode == "1":
                    ls = [l.strip() for l in tt.split("\n") if l.startswith(" ")]
                    ex = sorted(("%s/%s = %s" % (b, n, v)).strip() for b in md for n, v in md[b].items())
                    need(sorted(ls) == ex, "listing differs from the model: %s", sorted(set(ls) ^ set(ex))[:3])
                else:
                    need(mode == "0" or tt.rstrip().endswith("<par_end>"), "dump has no end mark")
                    same(parse(tt), md, "dump")
    return touched, "mpi history" if np_ else "history"


def num(v):
    import re
    x = re.match(r"\s*([-+]?\d+)", v)
    return int(x.group(1)) if x else 0


def program(case, exe):
    """the program's own option handling: -i, overrides, -n"""
    t, m, touched = text(case)
    argv = cmdline(case, m)
    argv = [a for a in argv if not a.startswith("-")]
    with ath.Scratch() as d:
        open(os.path.join(d, "par.in"), "wb").write(t.encode("latin-1"))
        k = case["where"] % (len(argv) + 1)
        a = argv[:k] + ["-i", "par.in"] + argv[k:]
        a = (["-n"] + a) if case["nfirst"] else (a + ["-n"])
        p = ath.launch(exe["v"], a, d, timeout=30)
        need(p.rc == 0, "status %d for a legal file: %s", p.rc, p.out[-300:])
        g = parse(p.out)
        g.pop("configure", None)
        same(g, m, "parameters of the program")
    return touched or bool(argv), "program"


def malformed(case, exe):
    t, m, _ = text(case)
    k = case["kind"]
    argv = []
    if k == "noeq":
        t = t.split("<par_end>")[0] if case["end"] is not None else t
        t = t.rstrip("\r\n") + "\n" + case["junk"] + "\n" + "<job>\na = 1\n"
    elif k == "noblock":
        t = "\n# c\n a = 3\n" + t
    elif k == "unterminated":
        t = t.split("<par_end>")[0] if case["end"] is not None else t
        t = t.rstrip("\r\n") + "\n" + "< " + case["junk"].strip("#>") + "\na = 1\n"
    elif k == "noname":
        t = t.split("<par_end>")[0] if case["end"] is not None else t
        t = t.rstrip("\r\n") + "\n" + case["sp"] + "= 3\n"
    elif k == "emptyblock":
        t = t.split("<par_end>")[0] if case["end"] is not None else t
        t = t.rstrip("\r\n") + "\n<" + case["sp"] + ">\na = 3\n"
    elif k == "override_par":
        b = sorted(m)[0]
        argv = ["%s/%s=3" % (b, case["junk"])]
        if case["junk"] in m[b]:
            return False, "name exists"
    elif k == "override_block":
        argv = ["%s/a=3" % case["junk"]]
    with ath.Scratch() as d:
        if k != "nofile":
            open(os.path.join(d, "par.in"), "wb").write(t.encode("latin-1"))
        p = ath.launch(exe["v"], ["-i", "par.in", "-n"] + argv, d, timeout=30)
        need(not p.timeout, "%s: program hangs", k)
        need(p.rc > 0, "%s: status %d, not rejected (%s)", k, p.rc, p.out[-200:])
        need("error" in p.out.lower(), "%s: no error message: %s", k, p.out[-200:])
    return True, k


def shipped():
    try:
        out = subprocess.run(["git", "-C", B.REPO, "ls-files", "tst"], capture_output=True, text=True).stdout.split()
    except OSError:
        out = []
    return sorted(x for x in out if os.path.basename(x).startswith("athinput")) or ["none"]


def ship(case, exe):
    f = os.path.join(B.REPO, case["file"])
    if not os.path.exists(f):
        return False, "missing"
    m, b = {}, None
    for l in open(f, encoding="latin-1"):
        l = l.strip()
        if not l or l[0] == "#":
            continue
        if l[0] == "<":
            b = l[1:l.index(">")].strip()
            if b == "par_end":
                break
            m.setdefault(b, {})
            continue
        l = l.split("#")[0]
        if "=" not in l or b is None:
            return False, "not a complete input file"
        n, v = l.split("=", 1)
        m[b][n.strip()] = v.strip()
    p = ath.launch(exe["v"], ["-i", f, "-n"], "/tmp", timeout=30)
    need(p.rc == 0, "%s is not accepted: %s", case["file"], p.out[-300:])
    g = parse(p.out)
    g.pop("configure", None)
    same(g, m, case["file"])
    return True, "shipped"


def subs(tier):
    h, v, hm = spec(HC, "-O1", (), H), spec(HC, "-O1"), spec(B.cfg("hydro", "adiabatic", "2", "roe", "ctu", mpi=1), "-O1", (), H)
    ops = st.lists(op, min_size=1, max_size=20).map(listy)
    j = st.lists(st.text("abcdef_12", min_size=1, max_size=6), min_size=1, max_size=3).map(" ".join)

    def fd(**k):
        return st.tuples(FILE, st.fixed_dictionaries(k)).map(lambda t: dict(t[0], **t[1]))
    return [Sub("history-%d" % i, fd(ops=ops), history, {"x": h}, 260) for i in range(4)] + [
        Sub("mpi-%d" % i, fd(ops=ops, np=st.integers(2, 3)), history, {"x": hm}, 8) for i in range(2)] + [
        Sub("program-%d" % i, fd(where=st.integers(0, 5), nfirst=st.booleans()), program, {"v": v}, 150) for i in range(2)] + [
        Sub("malformed", fd(kind=st.sampled_from(["noeq", "noblock", "unterminated", "noname", "emptyblock", "override_par", "override_block", "nofile"]), junk=j, sp=ws), malformed, {"v": v}, 120),
        Sub("shipped", st.fixed_dictionaries(dict(file=st.sampled_from(shipped()))), ship, {"v": v}, 60, 200)]
