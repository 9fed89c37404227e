"""Running the simulation program on generated initial states, and reading back
exact state records."""
import glob, os, shutil, signal, subprocess, tempfile
import numpy as np
from .prop import Violation, Discard

TMP = os.environ.get("VP_TMP", "/tmp")


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp-", dir=TMP)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def names(c):
    """Order of the conserved variables in a cell for configuration c."""
    c = dict(c)
    v = ["d", "M1", "M2", "M3"]
    if c["eos"] == "adiabatic":
        v.append("E")
    if c["gas"] == "mhd":
        v += ["B1c", "B2c", "B3c"]
    v += ["s%d" % i for i in range(int(c["nscal"]))]
    if "cyl" in c:
        v.append("Pflux")
    return v


def write_ic(path, U, B=None, g=(0, 0, 0)):
    """U: (n3,n2,n1,nv) conserved; B: (B1,B2,B3) face arrays."""
    n3, n2, n1, nv = U.shape
    parts = [np.array([nv, n1, n2, n3, g[0], g[1], g[2], 0], float), U.ravel()]
    if B is not None:
        parts += [b.ravel() for b in B]
    np.concatenate(parts).astype("<f8").tofile(path)


def fmt(v):
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, float) or isinstance(v, np.floating):
        return repr(float(v))
    return str(v)


def athinput(blocks):
    out = []
    for b, kv in blocks.items():
        out.append("<%s>" % b)
        for k, v in kv.items():
            out.append("%s = %s" % (k, fmt(v)))
        out.append("")
    return "\n".join(out) + "\n"


def blocks(N, L, bc=(4, 4, 4, 4, 4, 4), tlim=1.0, nlim=5, cour=0.4, gamma=5.0 / 3.0, cs=1.0, x0=(0.0, 0.0, 0.0), **prob):
    b = {"job": {"problem_id": "vp", "maxout": 0, "num_domains": 1},
         "time": {"cour_no": cour, "nlim": nlim, "tlim": tlim},
         "domain1": {"level": 0}}
    for d in range(3):
        b["domain1"]["Nx%d" % (d + 1)] = N[d]
        b["domain1"]["x%dmin" % (d + 1)] = float(x0[d])
        b["domain1"]["x%dmax" % (d + 1)] = float(x0[d] + L[d])
        b["domain1"]["bc_ix%d" % (d + 1)] = bc[2 * d]
        b["domain1"]["bc_ox%d" % (d + 1)] = bc[2 * d + 1]
    b["problem"] = {"gamma": gamma, "iso_csound": cs, "ic": "ic"}
    b["problem"].update(prob)
    return b


class Proc:
    def __init__(self, rc, out, timeout=False):
        self.rc, self.out, self.timeout = rc, out, timeout


ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_mpi_yield_when_idle="1", LC_ALL="C")
ENV.pop("VERIF_SEED", None)


def launch(exe, args, cwd, np_=None, timeout=60, env=None):
    cmd = [exe] + list(args)
    if np_:
        cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-np", str(np_)] + cmd
    e = dict(ENV)
    e["TMPDIR"] = cwd
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return Proc(p.returncode, out.decode(errors="replace"))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return Proc(-9, out.decode(errors="replace"), True)


HDR = 33


class Rec:
    """One Grid's state."""
    pass


def parse_raw(path):
    a = np.fromfile(path, "<f8")
    o, recs = 0, []
    while o < len(a):
        h = a[o:o + HDR]
        if h[0] != 424242.0:
            raise Violation("corrupt state record in %s" % path)
        r = Rec()
        r.time, r.dt, r.nstep = h[1], h[2], int(h[3])
        r.level, r.dom = int(h[4]), int(h[5])
        r.Nx = [int(x) for x in h[6:9]]
        r.Disp = [int(x) for x in h[9:12]]
        r.DNx = [int(x) for x in h[12:15]]
        r.g = [int(x) for x in h[15:18]]
        m1, m2, m3 = [int(x) for x in h[18:21]]
        nv, hasB, hasPhi, npar = int(h[21]), int(h[22]), int(h[23]), int(h[24])
        r.dx = h[25:28]
        r.MinX, r.MaxX = h[28:31], a[o + 31:o + 34]
        r.gtime, r.gdt = a[o + 34], a[o + 35]
        o += 36
        n = m1 * m2 * m3
        r.U = a[o:o + n * nv].reshape(m3, m2, m1, nv)
        o += n * nv
        r.B = None
        if hasB:
            e = [0, 0, 0]
            if r.g[0] == 0:
                e = [1, int(r.Nx[1] > 1), int(r.Nx[2] > 1)]
            B = []
            for d in range(3):
                sh = [m3, m2, m1]
                sh[2 - d] += e[d]
                k = sh[0] * sh[1] * sh[2]
                B.append(a[o:o + k].reshape(sh))
                o += k
            r.B = B
        r.Phi = None
        if hasPhi:
            r.Phi = a[o:o + n].reshape(m3, m2, m1)
            o += n
        r.par = None
        if npar >= 0:
            r.par = a[o:o + 10 * npar].reshape(npar, 10)
            o += 10 * npar
        recs.append(r)
    return recs


class State:
    """Assembled active-zone state of one Domain."""
    pass


def assemble(recs, level=0, dom=0):
    rs = [r for r in recs if r.level == level and r.dom == dom]
    if not rs:
        raise Violation("no state record for level %d domain %d" % (level, dom))
    s = State()
    r0 = rs[0]
    N = r0.DNx
    s.N, s.time, s.dt, s.nstep, s.dx, s.recs = N, r0.time, r0.dt, r0.nstep, r0.dx, rs
    nv = r0.U.shape[3]
    s.U = np.full((N[2], N[1], N[0], nv), np.nan)
    s.B = None
    if r0.B is not None:
        s.B = [np.full((N[2], N[1], N[0] + 1), np.nan),
               np.full((N[2], N[1] + int(N[1] > 1), N[0]), np.nan),
               np.full((N[2] + int(N[2] > 1), N[1], N[0]), np.nan)]
    s.Phi = np.full((N[2], N[1], N[0]), np.nan) if r0.Phi is not None else None
    par = []
    for r in rs:
        gi, gj, gk = r.g
        a, b, c = r.Disp
        n = r.Nx
        sl = (slice(gk, gk + n[2]), slice(gj, gj + n[1]), slice(gi, gi + n[0]))
        dst = (slice(c, c + n[2]), slice(b, b + n[1]), slice(a, a + n[0]))
        s.U[dst] = r.U[sl]
        if s.B is not None:
            for d in range(3):
                e = 1 if (d == 0 or n[d] > 1) else 0
                q = [sl[0], sl[1], sl[2]]
                t = [dst[0], dst[1], dst[2]]
                ax = 2 - d
                q[ax] = slice(q[ax].start, q[ax].stop + e)
                t[ax] = slice(t[ax].start, t[ax].stop + e)
                s.B[d][tuple(t)] = r.B[d][tuple(q)]
        if s.Phi is not None:
            s.Phi[dst] = r.Phi[sl]
        if r.par is not None:
            par.append(r.par)
    s.par = np.concatenate(par) if par else None
    return s


def states(d, tag="final"):
    recs = []
    fs = sorted(glob.glob(os.path.join(d, "**", "raw.%s.*" % tag), recursive=True))
    for f in fs:
        recs += parse_raw(f)
    return recs


def steps(d, rank=0):
    p = os.path.join(d, "steps.%d" % rank)
    if not os.path.exists(p):
        p = os.path.join(d, "id%d" % rank, "steps.%d" % rank)
    if not os.path.exists(p):
        return np.zeros((0, 3))
    return np.fromfile(p, "<f8").reshape(-1, 3)


def run(exe, blk, ics, d, np_=None, args=(), timeout=60, par=None, expect_ok=True, env=None):
    """ics: {(level,dom): (U,B[,g])} ; writes files in d and runs."""
    for (l, n), ic in ics.items():
        write_ic(os.path.join(d, "ic.%d.%d" % (l, n)), *ic)
    if par is not None:
        np.asarray(par, "<f8").tofile(os.path.join(d, "ic.par"))
    with open(os.path.join(d, "athinput"), "w") as f:
        f.write(athinput(blk))
    p = launch(exe, ["-i", "athinput"] + list(args), d, np_=np_, timeout=timeout, env=env)
    if expect_ok:
        check_ok(p)
    return p


def check_ok(p):
    if p.timeout:
        raise Violation("run did not finish: %s" % p.out[-400:])
    if p.rc != 0 and ("Fatal error: [exact" in p.out or "Fatal error: [two-shock" in p.out):
        raise Discard("Riemann solver gave up")
    if p.rc != 0:
        raise Violation("run exited with status %d: %s" % (p.rc, p.out[:300] + " ... " + p.out[-300:]))


def final(exe, blk, ics, np_=None, args=(), timeout=60, par=None):
    with Scratch() as d:
        run(exe, blk, ics, d, np_, args, timeout, par)
        return assemble(states(d))
