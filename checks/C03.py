"""Restart equals continuation. A run A is made with a restart dump output of a generated interval, a VTK, a binary, a user
(exact) and a history output; one of its restart files is chosen and run B is started from it in an empty directory
(optionally with the run's own limits repeated on the command line). Oracle: the sequence of (cycle, time, dt) of B is A's
tail bit for bit, B's final record (every variable, ghost zones, particles, potential, user data) equals A's bitwise, every
file numbered after the restart point exists in both with identical bytes, and A's history rows after that point equal B's."""
import glob
from .common import *
from . import feats

RULE = ("A case is a generated problem for one physics feature (34 feature configurations, 1-3D, mixed boundaries, refined meshes, "
        "particles, shear), output intervals, and the index of the restart file to start from. Non-trivial: at least one step is taken "
        "after the restart point and the state is not uniform.")
ASSUMPTIONS = ["the problem generator stores its own extra data through the documented user restart hooks",
               "output intervals are longer than a time step (several dumps falling due in the same step are covered by C12)"]


def add_outputs(b, case, hasB, cyl):
    o = []
    b["job"]["maxout"] = 6
    dt = case["dtout"]
    b["output1"] = dict(out_fmt="rst", dt=case["dtr"])
    b["output2"] = dict(out_fmt="vtk", dt=dt)
    b["output3"] = dict(out_fmt="bin", dt=1.7 * dt)
    b["output4"] = dict(out_fmt="hst", dt=1.1 * dt)
    b["output5"] = dict(name="vpraw", dt=1.3 * dt)
    b["output6"] = dict(out_fmt="tab", out="d", dt=2.1 * dt)


def files(d):
    out = {}
    for p in glob.glob(os.path.join(d, "**", "*"), recursive=True):
        if os.path.isfile(p):
            out[os.path.relpath(p, d)] = p
    return out


import os


def restart(case, f, exe, np_=None):
    p = case["p"]
    if dict(f.c)["gas"] == "mhd" and "bc" in p:      # see known_findings.json: reflecting walls with a magnetic field
        p = dict(p, bc=[2 if x == 1 else x for x in p["bc"]])
    if dict(f.c)["gas"] == "mhd" and "bcr" in p:
        p = dict(p, bcr=[2 if x == 1 else x for x in p["bcr"]])
    b, ics, par = f.make(p)
    with ath.Scratch() as d:
        da, db = os.path.join(d, "a"), os.path.join(d, "b")
        os.mkdir(da); os.mkdir(db)
        n = p["nlim"] + 2
        # probe run, so that intervals can be stated in units of the longest step
        with ath.Scratch() as dp:
            bb = {k: dict(v) for k, v in b.items()}
            bb["time"]["nlim"] = n
            ath.run(exe["x"], bb, ics, dp, par=par, np_=np_, timeout=120)
            s0 = ath.steps(dp)
        dt0 = s0[:, 2].max() if len(s0) else 1.0
        b["time"]["nlim"] = n
        c2 = dict(dtr=dt0 * case["dtr"], dtout=dt0 * case["dtout"])
        add_outputs(b, c2, 0, 0)
        b["problem"]["rawghost"] = 1
        ath.run(exe["x"], b, ics, da, par=par, np_=np_, timeout=120)
        rst = sorted(g for g in files(da) if g.endswith(".rst") and "-id" not in g)
        need(len(rst) >= 2, "no restart file written")
        # the last one is the forced dump at the end of the run: starting from it needs a later limit
        k = case["k"] % (len(rst) - 1)
        name = os.path.basename(rst[k])
        args = ["-r", os.path.join(da, rst[k])]
        if case["cmd"]:
            args += ["time/nlim=%d" % n]
        q = ath.launch(exe["x"], args, db, timeout=120, np_=np_)
        ath.check_ok(q)
        for rank in range(np_ or 1):
            sa, sb = ath.steps(da, rank), ath.steps(db, rank)
            m = len(sb)
            need(m <= len(sa) and (m == 0 or np.array_equal(sa[len(sa) - m:], sb)),
                 "steps after restart from %s differ: original %s, restarted %s", name, sa[max(0, len(sa) - m):][:3].tolist(), sb[:3].tolist())
            need(m > 0, "restarted run takes no step")
            for nm in ("raw.final.%d" % rank, "userctr.%d" % rank):
                x, y = open(os.path.join(da, nm), "rb").read(), open(os.path.join(db, nm), "rb").read()
                if x != y:
                    raise Violation("%s differs after restart from %s (cycle %d of %d): %s" % (nm, name, len(sa) - m, len(sa), diff(da, db)))
        fa, fb = files(da), files(db)
        for g in sorted(fb):
            if g.endswith(".hst"):
                ha, hb = [[l for l in open(z[g]) if not l.startswith("#")] for z in (fa, fb)]
                need(len(hb) <= len(ha) and ha[len(ha) - len(hb):] == hb, "history rows after restart differ: %s vs %s", ha[-3:], hb[-3:])
                continue
            if g.startswith(("steps", "raw.final", "userctr", "ic", "athinput")) or "/steps" in g:
                continue
            need(g in fa, "restarted run writes %s, which the original run does not", g)
            if not g.endswith(".rst"):
                x, y = open(fa[g], "rb").read(), open(fb[g], "rb").read()
                need(x == y, "file %s differs between original and restarted run", g)
        # numbered files of A written after the restart must be present in B
        t0 = sa[len(sa) - m:][:1]
        if len(t0):
            for g in fa:
                if g.startswith("raw.out5") or "/raw.out5" in g:
                    rec = ath.parse_raw(fa[g])
                    if rec and rec[0].nstep > t0[0, 0]:
                        need(g in fb, "output %s (cycle %d) missing after restart at cycle %d", g, rec[0].nstep, t0[0, 0])
            if k < len(rst) - 1:
                for g in rst[k + 1:]:
                    need(g in fb, "restart file %s missing after restart from %s", g, name)
    return bool(len(t0)), "restart"


def diff(da, db):
    try:
        ra, rb = ath.states(da), ath.states(db)
        for x, y in zip(ra, rb):
            if x.U.shape != y.U.shape:
                return "shape"
            for n in range(x.U.shape[3]):
                e = np.abs(x.U[..., n] - y.U[..., n])
                if not np.array_equal(x.U[..., n], y.U[..., n], equal_nan=True):
                    return "level %d variable %d, %d cells, max %.3e at (k,j,i)=%s" % (
                        x.level, n, (e != 0).sum(), np.nanmax(e), np.unravel_index(np.nanargmax(e), e.shape))
            if x.B is not None:
                for n in range(3):
                    if not np.array_equal(x.B[n], y.B[n]):
                        return "face field %d" % (n + 1)
            if x.par is not None and (x.par.shape != y.par.shape or not np.array_equal(x.par, y.par)):
                return "particles %s %s" % (x.par.tolist()[:2], y.par.tolist()[:2])
        return "other"
    except Exception as e:
        return repr(e)


def subs(tier):
    out = []
    for f in feats.table():
        for nd in f.nds:
            s = st.fixed_dictionaries(dict(p=f.strategy(nd), k=st.integers(0, 5), dtr=r(1.1, 3, 1), dtout=r(1.3, 3, 1), cmd=st.booleans()))
            out.append(Sub("%s-%dd" % (f.name, nd), s, (lambda case, exe, f=f: restart(case, f, exe)), {"x": spec(f.c, "-O0")}, 8))
    return out
