"""Schedule, numbering and stopping. A generated history of run segments (each ended by the time limit, the cycle limit, a
signal during a step, a signal from outside, or the wall-clock limit; each later one restarted from the last restart file) is
replayed by a model that knows only the times of the steps, and every file in the run directory must be the one the model says."""
import glob, os, shutil, signal, subprocess, time as clock
from .common import *
from . import feats
from vp import files
from vp.build import cfg

RULE = ("A case is a generated problem, a set of output blocks with intervals between a fifth of a step and many steps (first time and first "
        "number also generated, some beyond the allowed number of blocks), and one to three run segments with their stopping conditions. "
        "Non-trivial: at least one step was taken and at least one file was due strictly between start and end, or a signal ended a segment.")
ASSUMPTIONS = ["at most one file per block and step; a block whose interval is shorter than the step is due again at the next step"]
KINDS = ["vtk", "bin", "tab", "hst", "stab", "ppm", "pgm", "pdf", "svtk"]
EXT = dict(stab="tab", svtk="vtk", pdf="prb")


def out_case(nd):
    ks = [k for k in KINDS if nd > 1 or k not in ("ppm", "pgm", "svtk")]
    return st.fixed_dictionaries(dict(kind=st.sampled_from(ks), dt=st.sampled_from([0.2, 0.5, 0.9, 1.0, 1.1, 1.7, 2.0, 2.5, 3.3, 7.0, 1e3]),
                                      t0=st.one_of(st.none(), r(-2, 4, 1)), num=st.sampled_from([None, None, 0, 1, 8, 97, 9998])))


def seg(mpi):
    ks = ["tlim", "nlim", "both", "sig", "sig"] + (["wall"] if mpi else ["kill"])
    return st.fixed_dictionaries(dict(how=st.sampled_from(ks), n=st.integers(0, 6), f=r(0.01, 0.99, 2), rank=st.integers(0, 3)))


def label(d, kind, path):
    """time recorded in a file, and its relative precision"""
    p = os.path.join(d, path)
    if kind in ("vtk", "svtk"):
        return files.read_vtk(p)["time"], 2e-6
    if kind == "bin":
        return files.read_bin(p)["time"], 0.0
    if kind == "tab":
        h = [x for x in open(p, errors="replace").read().split("\n") if x.startswith("#") and "time" in x.lower()]
        import re
        m = re.search(r"time *= *([-+0-9.eE]+)", " ".join(h), re.I)
        return (float(m.group(1)), 6e-6) if m else None
    if kind == "pdf":
        import re
        m = re.search(r"Time *= *([-+0-9.eE]+)", open(p, errors="replace").read())
        return (float(m.group(1)), 1e-13) if m else None
    return None


class Out:
    pass


def verify(case, f, exe, nd, np_=None, grid=None):
    c = f.c
    b, ics, par = f.make(case["p"])
    mpi = np_ is not None
    if grid:
        for q in range(3):
            b["domain1"]["NGrid_x%d" % (q + 1)] = grid[q]
    b["problem"].update(raise_at=-1, raise_sig=int(signal.SIGTERM), raise_rank=0)
    with ath.Scratch() as d0:
        b["time"].update(nlim=2, tlim=1e30)
        ath.run(exe["x"], b, ics, d0, par=par, np_=np_, timeout=120)
        s = ath.steps(d0)
        if len(s) < 2 or not np.isfinite(s).all() or s[:, 2].min() <= 0:
            return False, "no time step"
        dt0 = float(s[0, 2])
    # blocks
    outs, ids, n = [], set(), 0
    for k, o in enumerate(case["outs"]):
        n += 1 + case["gaps"][k % len(case["gaps"])]
        q = Out()
        q.kind, q.n, q.id, q.times = o["kind"], n, None, []
        q.dt = o["dt"] * dt0
        blk_ = dict(dt=q.dt)
        if o["kind"] in ("vtk", "bin", "tab", "hst"):
            if o["kind"] in ids:       # two dumps of one kind would share their file names
                continue
            ids.add(o["kind"])
            blk_["out_fmt"] = o["kind"]
            if o["kind"] != "hst":
                blk_["out"] = "cons"
        else:
            q.id = "out%d" % n
            blk_.update(out="d", out_fmt=dict(stab="tab", svtk="vtk").get(o["kind"], o["kind"]))
            if o["kind"] in ("ppm", "pgm") and nd == 3:
                blk_["x3"] = 0.37 * (b["domain1"]["x3min"] + b["domain1"]["x3max"])
            if o["kind"] == "ppm":
                blk_["palette"] = "rainbow"
        q.t = b["time"].get("time", 0.0) * 0.0
        if o["t0"] is not None:
            q.t = blk_["time"] = o["t0"] * dt0
        q.num = 0
        if o["num"] is not None:
            q.num = blk_["num"] = o["num"]
        q.first = q.num
        b["output%d" % n] = blk_
        outs.append(q)
    # restart and exact-record blocks
    for kind in ("rst", "vpraw"):
        n += 1
        q = Out()
        q.kind, q.n, q.id, q.times, q.t, q.num, q.first = kind, n, None, [], 0.0, 0, 0
        q.dt = case["dtr"] * dt0
        b["output%d" % n] = dict(dt=q.dt, **({"out_fmt": "rst"} if kind == "rst" else {"name": "vpraw"}))
        outs.append(q)
    maxout = n
    for k in range(case["beyond"]):
        b["output%d" % (n + 1 + k)] = dict(out="d", out_fmt="tab", id="never%d" % k, dt=0.5 * dt0)
    b["job"]["maxout"] = maxout
    rst = outs[-2]
    with ath.Scratch() as d:
        tm, nst, seen, kinds = 0.0, 0, 0, []
        nsig = 0
        for k, sg in enumerate(case["segs"]):
            how, args, kill = sg["how"], [], None
            tlim, nlim, raise_at = 1e30, nst + 60, -1
            if how == "kill":
                nlim = nst + 200000
                kill = sg["n"]
            if how in ("tlim", "both"):
                tlim = tm + (sg["n"] + sg["f"]) * dt0
                if sg["n"] == 6:
                    nlim = -1
            if how in ("nlim", "both"):
                nlim = nst + sg["n"]
            if how == "sig":
                raise_at = nst + sg["n"]
            if how == "wall":
                args = ["-t", "0:0:0"]
            lim = dict(tlim=tlim, nlim=nlim)
            if k == 0:
                b["time"].update(lim)
                b["problem"].update(raise_at=raise_at, raise_rank=sg["rank"] % (np_ or 1))
                for (l, nn), ic in ics.items():
                    ath.write_ic(os.path.join(d, "ic.%d.%d" % (l, nn)), *ic)
                if par is not None:
                    np.asarray(par, "<f8").tofile(os.path.join(d, "ic.par"))
                open(os.path.join(d, "athinput"), "w").write(ath.athinput(b))
                args = ["-i", "athinput"] + args
            else:
                src = ("id0/" if mpi else "") + "vp.%04d.rst" % (rst.num - 1)
                need(os.path.exists(os.path.join(d, src)), "the final restart file %s does not exist", src)
                if mpi:         # every process reads its file from the directory named
                    os.makedirs(os.path.join(d, "res"), exist_ok=True)
                    for x in glob.glob(os.path.join(d, "id*", "*.%04d.rst" % (rst.num - 1))):
                        shutil.copy(x, os.path.join(d, "res"))
                    src = "res/" + os.path.basename(src)
                args = ["-r", src] + args + ["time/tlim=%.17g" % tlim, "time/nlim=%d" % nlim, "problem/raise_at=%d" % raise_at,
                                             "problem/raise_rank=%d" % (sg["rank"] % (np_ or 1))]
            if kill is None:
                p = ath.launch(exe["x"], args, d, np_=np_, timeout=120)
            else:
                q = subprocess.Popen([exe["x"]] + args, cwd=d, stdout=open(os.path.join(d, "log"), "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                t_end = clock.time() + 60
                while q.poll() is None and clock.time() < t_end and len(ath.steps(d)) - seen <= kill:
                    clock.sleep(0.001)
                if q.poll() is None:
                    q.send_signal(signal.SIGTERM)
                try:
                    q.wait(60)
                    p = ath.Proc(q.returncode, open(os.path.join(d, "log"), errors="replace").read())
                except subprocess.TimeoutExpired:
                    q.kill()
                    q.wait()
                    raise Violation("the run goes on after SIGTERM")
            need(not p.timeout, "segment %d (%s) does not end", k, how)
            need(p.rc == 0, "segment %d (%s) ends with status %d: %s", k, how, p.rc, p.out[-300:])
            S = [ath.steps(d, i)[seen:] for i in range(np_ or 1)]
            for x in S[1:]:
                need(np.array_equal(x, S[0]), "segment %d (%s): the processes took different steps (%d and %d)", k, how, len(S[0]), len(x))
            st_ = S[0]
            fin = ath.states(d)
            t1 = fin[0].time
            if not all(np.isfinite(x.U).all() for x in fin):
                return False, "blown up"
            # --- stopping
            for j, x in enumerate(st_):
                need(int(x[0]) == nst + j, "segment %d: step %d is numbered %d", k, nst + j, int(x[0]))
                need(x[1] < tlim and (nlim < 0 or x[0] < nlim), "segment %d (%s): step %d at time %.17g taken beyond the limits nlim=%d tlim=%.17g", k, how, int(x[0]), x[1], nlim, tlim)
            nend = nst + len(st_)
            at_t = t1 >= tlim
            if at_t and len(st_):
                need(t1 <= tlim * (1 + 4e-16), "segment %d: the run ends at %.17g, beyond the limit %.17g", k, t1, tlim)
            at_n = nlim >= 0 and nend >= nlim
            at_s = raise_at >= 0 and len(st_) > 0 and nend == raise_at + 1
            at_w = how == "wall" and len(st_) == 1
            if kill is not None:
                at_s = True
            need(at_t or at_n or at_s or at_w, "segment %d (%s): the run stops at time %.17g, step %d; limits nlim=%d tlim=%.17g, signal in step %d", k, how, t1, nend, nlim, tlim, raise_at)
            need(raise_at < 0 or nend <= raise_at + 1, "segment %d: the run goes on for %d steps after the signal in step %d", k, nend - raise_at - 1, raise_at)
            need(how != "wall" or nend <= nst + 1, "segment %d: %d steps after the wall-clock limit", k, nend - nst)
            nsig += how in ("sig", "kill", "wall") and len(st_) > 0
            # --- schedule
            ev = ([(tm, True)] if k == 0 else []) + [(x[1], False) for x in st_] + [(t1, True)]
            for t, force in ev:
                for q in outs:
                    w = force
                    if t >= q.t:
                        q.t += q.dt
                        w = True
                    if w:
                        q.times.append(t)
                        q.num += 1
            tm, nst, seen = t1, nend, seen + len(st_)
            kinds.append(how)
        # --- files
        have = set(os.path.relpath(x, d) for x in glob.glob(os.path.join(d, "**", "*"), recursive=True) if os.path.isfile(x) and "/res/" not in x)
        want = set()
        mid = False
        for q in outs:
            if q.kind == "hst":
                nm = ("id0/" if mpi else "") + "vp.hst"
                need(nm in have, "%s is missing", nm)
                want.add(nm)
                h, t = files.read_tab(os.path.join(d, nm))
                need(len(t) == len(q.times), "%s: %d rows, %d outputs were due", nm, len(t), len(q.times))
                need(np.allclose(t[:, 0], q.times, rtol=2e-6, atol=0), "%s: times %s, due at %s", nm, t[:, 0].tolist(), q.times)
                continue
            for i, t in enumerate(q.times):
                num = q.first + i
                if q.kind == "vpraw":
                    nms = ["raw.out%d.%d.%d" % (q.n, num, z) for z in range(np_ or 1)]
                else:
                    nms = []
                    for z in range(1 if q.kind == "pdf" else (np_ or 1)):
                        base = ("id%d/" % z if mpi else "") + "vp" + ("-id%d" % z if z else "") + ".%04d" % num
                        nms.append(base + ("." + q.id if q.id else "") + "." + EXT.get(q.kind, q.kind))
                for nm in nms:
                    want.add(nm)
                    if q.kind == "vpraw":
                        nm = [x for x in have if os.path.basename(x) == os.path.basename(nm)]
                        need(nm, "record %d is missing", num)
                        want.add(nm[0])
                        for rec in ath.parse_raw(os.path.join(d, nm[0])):
                            need(rec.time == t, "record %d holds the state at %.17g, due at %.17g", num, rec.time, t)
                        continue
                    need(nm in have, "file %s (due at time %.9g) is missing; present: %s", nm, t, sorted(x for x in have if x.endswith(nm.rsplit(".", 1)[1]))[-6:])
                    need(os.path.getsize(os.path.join(d, nm)) > 0, "file %s is empty", nm)
                    tl = label(d, q.kind, nm)
                    if tl:
                        need(abs(tl[0] - t) <= tl[1] * abs(t) + 1e-300, "file %s is labelled with time %.12g, due at %.12g", nm, tl[0], t)
                    if q.kind == "bin" and i == len(q.times) - 1:
                        fb = files.read_bin(os.path.join(d, nm))
                        z = int(nm.split("/")[0][2:]) if mpi else 0
                        rec = ath.states(d, "final")[0] if not mpi else [ath.parse_raw(x) for x in glob.glob(os.path.join(d, "**", "raw.final.%d" % z), recursive=True)][0][0]
                        g = rec.g
                        U0 = rec.U[..., 0]
                        sl = tuple(slice(g[2 - a], U0.shape[a] - g[2 - a]) for a in range(3))
                        need(np.allclose(fb["arrays"][0].ravel(), U0[sl].ravel(), rtol=1e-6), "the last binary dump %s is not the final state", nm)
            mid = mid or len(q.times) > 1 + len(case["segs"])
        extra = [x for x in have - want if x.split("/")[-1].startswith("vp") and not x.endswith((".prb_stat", ".log")) and "prb_stat" not in x]
        need(not extra, "files no output was due for: %s", sorted(extra)[:5])
    return bool(nst > 0 and (mid or nsig)), "+".join(kinds)


def strat(f, nd, mpi):
    return st.fixed_dictionaries(dict(
        p=f.strategy(nd), outs=st.lists(out_case(nd), min_size=1, max_size=4), gaps=st.lists(st.sampled_from([0, 0, 1, 3]), min_size=1, max_size=4),
        beyond=st.integers(0, 2), dtr=st.sampled_from([0.3, 1.0, 1.5, 2.2, 4.7, 1e3]), segs=st.lists(seg(mpi), min_size=1, max_size=3),
        g=st.sampled_from([[2, 1, 1], [1, 2, 1], [2, 2, 1], [3, 1, 1], [4, 1, 1]])))


def subs(tier):
    out = []
    H = cfg
    for c, nds in ((H("hydro", "adiabatic", "2", "roe", "ctu", 1), (1, 2, 3)), (H("mhd", "isothermal", "2p", "hlld", "vl", 0), (2,)),
                   (H("hydro", "adiabatic", "2", "hllc", "ctu", 0, visc=1, sts=1), (2,)) if False else (H("mhd", "adiabatic", "3", "roe", "ctu", 0), (1, 3))):
        f = feats.plain(c)
        for nd in nds:
            out.append(Sub("%s-%dd" % (f.name, nd), strat(f, nd, False), (lambda case, exe, f=f, nd=nd: verify(case, f, exe, nd)), {"x": spec(c, "-O0")}, 40))
    c = H("hydro", "adiabatic", "2", "roe", "ctu", 0, mpi=1)
    f = feats.plain(c)
    for nd in (1, 2):
        def mv(case, exe, nd=nd):
            g = [case["g"][q] if q < nd else 1 for q in range(3)]
            case = dict(case, p=dict(case["p"], N=[n if n == 1 else max(n, 6 * g[q]) for q, n in enumerate(case["p"]["N"])]))
            return verify(case, f, exe, nd, np_=g[0] * g[1] * g[2], grid=g)
        out.append(Sub("%s-%dd" % (f.name, nd), strat(f, nd, True), mv, {"x": spec(c, "-O0")}, 10))
    return out
