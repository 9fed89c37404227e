"""Builds Athena configurations from /repo's current working tree.

Every configuration gets its own directory under BUILD (git-ignored) that mirrors
/repo/src by symlinks plus a generated defs.h/config.h, exactly what
configure would generate.  Objects are cached by a hash of the preprocessed
translation unit and the compiler flags, so a change in /repo is always seen."""
import uuid, hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, "build"))
SRC = os.path.join(REPO, "src")

DEFAULT = dict(
    A_CONFIGURE_DATE="verif", PROBLEM="vp", GAS="MHD", EOS="ADIABATIC", COORD="CARTESIAN",
    NSCALARS="0", SELF_GRAVITY_DEFINE="NO_SELF_GRAVITY",
    SELF_GRAVITY_ALGORITHM="SELF_GRAVITY_NONE", PARTICLES_ALGORITHM="NO_PARTICLES",
    FEEDBACK_DEFINE="NO_FEEDBACK", COOLING_MODE="NO_COOLING",
    RESISTIVITY_MODE="NO_RESISTIVITY", VISCOSITY_MODE="NO_VISCOSITY",
    CONDUCTION_MODE="NO_THERMAL_CONDUCTION", TIMESTEPPING_MODE="NO_STS",
    SPECIAL_RELATIVITY_MODE="NEWTONIAN", ACCURACY="SECOND_ORDER_CHAR",
    FLUX_DEF="ROE_FLUX", INTEGRATOR_DEF="CTU_INTEGRATOR", PRECISION="DOUBLE_PREC",
    DEBUG_MODE="OPTIMIZE", WRITE_GHOST_MODE="NO_WRITE_GHOST_CELLS", MPI_MODE="NO_MPI_PARALLEL",
    H_CORRECTION_MODE="NO_H_CORRECTION", FFT_MODE="NO_FFT", SHEARING_BOX_MODE="NO_SHEARING_BOX",
    FARGO_MODE="NO_FARGO", ROTATING_FRAME_MODE="NO_ROTATING_FRAME", L1_INFLOW_MODE="NO_L1_INFLOW",
    MESH_REFINEMENT="NO_MESH_REFINEMENT", FOFC_MODE="NO_FIRST_ORDER_FLUX_CORRECTION", WARNING1="", WARNING2="")

ORDER = {"1": "FIRST_ORDER", "2": "SECOND_ORDER_CHAR", "2p": "SECOND_ORDER_PRIM",
         "3": "THIRD_ORDER_CHAR", "3p": "THIRD_ORDER_PRIM",
         "3pck": "THIRD_ORDER_COMPACT_PRIM_KOREN", "3pcl": "THIRD_ORDER_COMPACT_PRIM_LIMO3"}
FLUX = {"roe": "ROE_FLUX", "hlle": "HLLE_FLUX", "hllc": "HLLC_FLUX", "hlld": "HLLD_FLUX",
        "force": "FORCE_FLUX", "exact": "EXACT_FLUX", "two-shock": "TWO_SHOCK_FLUX"}


def cfg(gas="hydro", eos="adiabatic", order="2", flux="roe", integ="ctu", nscal=0, prob=None, **kw):
    """Readable constructor -> frozen tuple usable as key."""
    d = dict(gas=gas, eos=eos, order=order, flux=flux, integ=integ, nscal=nscal)
    if prob:
        d["prob"] = prob
    d.update({k: v for k, v in kw.items() if v})
    return tuple(sorted((k, str(v)) for k, v in d.items()))


def cdict(c):
    return dict(c)


def subst(c):
    c = dict(c)
    s = dict(DEFAULT)
    s["GAS"] = {"hydro": "HYDRO", "mhd": "MHD"}[c["gas"]]
    s["EOS"] = {"adiabatic": "ADIABATIC", "isothermal": "ISOTHERMAL"}[c["eos"]]
    s["NSCALARS"] = c["nscal"]
    s["ACCURACY"] = ORDER[c["order"]]
    s["FLUX_DEF"] = FLUX[c["flux"]]
    s["INTEGRATOR_DEF"] = {"ctu": "CTU_INTEGRATOR", "vl": "VL_INTEGRATOR"}[c["integ"]]
    s["PROBLEM"] = c.get("prob", "vp")
    if "mpi" in c: s["MPI_MODE"] = "MPI_PARALLEL"
    if "hcorr" in c: s["H_CORRECTION_MODE"] = "H_CORRECTION"
    if "fofc" in c: s["FOFC_MODE"] = "FIRST_ORDER_FLUX_CORRECTION"
    if "smr" in c: s["MESH_REFINEMENT"] = "STATIC_MESH_REFINEMENT"
    if "sr" in c: s["SPECIAL_RELATIVITY_MODE"] = "SPECIAL_RELATIVITY"
    if "cyl" in c: s["COORD"] = "CYLINDRICAL"
    if "fft" in c: s["FFT_MODE"] = "FFT_ENABLED"
    if "grav" in c:
        s["SELF_GRAVITY_DEFINE"] = "SELF_GRAVITY"
        s["SELF_GRAVITY_ALGORITHM"] = {"multigrid": "SELF_GRAVITY_USING_MULTIGRID",
            "fft": "SELF_GRAVITY_USING_FFT", "fft_obc": "SELF_GRAVITY_USING_FFT_OBC",
            "fft_disk": "SELF_GRAVITY_USING_FFT_DISK"}[c["grav"]]
    if "par" in c: s["PARTICLES_ALGORITHM"] = "PARTICLES"
    if "feedback" in c: s["FEEDBACK_DEFINE"] = "FEEDBACK"
    if "cooling" in c: s["COOLING_MODE"] = "OPERATOR_SPLIT_COOLING"
    if "res" in c: s["RESISTIVITY_MODE"] = "RESISTIVITY"
    if "visc" in c: s["VISCOSITY_MODE"] = "VISCOSITY"
    if "cond" in c: s["CONDUCTION_MODE"] = "THERMAL_CONDUCTION"
    if "sts" in c: s["TIMESTEPPING_MODE"] = "STS"
    if "sb" in c: s["SHEARING_BOX_MODE"] = "SHEARING_BOX"
    if "fargo" in c: s["FARGO_MODE"] = "FARGO"
    if "rot" in c: s["ROTATING_FRAME_MODE"] = "ROTATING_FRAME"
    if "ghost" in c: s["WRITE_GHOST_MODE"] = "WRITE_GHOST_CELLS"
    if "single" in c: s["PRECISION"] = "SINGLE_PREC"
    return s


def mk_objects(c):
    """Object list from src/Makefile.in for this configuration."""
    c = dict(c)
    t = open(os.path.join(SRC, "Makefile.in")).read().replace("\\\n", " ")
    out = []
    for name in re.search(r"^ALL_OBJ\s*=(.*)$", t, re.M).group(1).split():
        var = name.strip("${}")
        if var == "FFT_OBJ":
            if "fft" not in c:
                continue
            ms = re.findall(r"^\s*FFT_OBJ\s*=(.*)$", t, re.M)
            ms = [m.split() for m in ms if m.split()]
            out += (max if "mpi" in c else min)(ms, key=len)
        else:
            out += re.search(r"^%s\s*=(.*)$" % var, t, re.M).group(1).split()
    return [o[:-2] for o in out]


def key(c, opt, extra, harness):
    h = hashlib.sha1(repr((c, opt, extra, harness)).encode()).hexdigest()[:12]
    d = dict(c)
    nm = "-".join([d["gas"], d["eos"][:3], d["integ"], "o" + d["order"], d["flux"]] +
                  sorted(k + ("" if v in ("1", "True") else "_" + v.replace("/", "_")) for k, v in d.items()
                         if k not in ("gas", "eos", "integ", "order", "flux")))
    return nm[:120] + "-" + h


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], p.stderr.decode(errors="replace")[-3000:]))
    return p.stdout


def build(c, opt="-O1", extra=(), harness=None, pool=None):
    """Returns the path of the executable for configuration c.

    harness: None -> the simulation program with problem generator `prob`
             (/verif/src/vp.c unless the configuration names a shipped one).
             path -> a C file that replaces problem.c and defines the entry
             point itself (main.c is compiled with main renamed)."""
    k = key(c, opt, extra, harness)
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, k)
    os.makedirs(os.path.join(BUILD, "objs"), exist_ok=True)
    lockf = open(os.path.join(BUILD, k + ".lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        return _build(c, opt, extra, harness, d, pool)
    finally:
        lockf.close()


def _write(path, text):
    if os.path.exists(path) and not os.path.islink(path) and open(path).read() == text:
        return
    if os.path.islink(path):
        os.unlink(path)
    with open(path, "w") as f:
        f.write(text)


def _build(c, opt, extra, harness, d, pool):
    cd = dict(c)
    objs = mk_objects(c)
    os.makedirs(d, exist_ok=True)
    for root, dirs, files in os.walk(SRC):
        rel = os.path.relpath(root, SRC)
        if rel.startswith("prob"):
            continue
        os.makedirs(os.path.join(d, rel), exist_ok=True)
        for f in files:
            if not f.endswith((".c", ".h")) or f in ("defs.h", "config.h", "problem.c"):
                continue
            l = os.path.join(d, rel, f)
            if os.path.islink(l) and os.readlink(l) != os.path.join(root, f):
                os.unlink(l)
            if not os.path.islink(l):
                os.symlink(os.path.join(root, f), l)
    s = subst(c)
    t = open(os.path.join(SRC, "defs.h.in")).read()
    t = re.sub(r"@(\w+)@", lambda m: s[m.group(1)], t)
    _write(os.path.join(d, "defs.h"), t)
    ch = open(os.path.join(SRC, "config.h.in")).read()
    _write(os.path.join(d, "config.h"), re.sub(r"@(\w+)@", lambda m: {
        "COMPILER": "gcc", "COMPILER_OPTS": opt}.get(m.group(1), "verif"), ch))
    pl = os.path.join(d, "problem.c")
    if harness:
        psrc = harness
    elif cd.get("prob", "vp") == "vp":
        psrc = os.path.join(HERE, "src", "vp.c")
    else:
        psrc = os.path.join(SRC, "prob", cd["prob"] + ".c")
    if os.path.islink(pl) and os.readlink(pl) != psrc:
        os.unlink(pl)
    if not os.path.islink(pl):
        os.symlink(psrc, pl)
    cc = "mpicc" if "mpi" in cd else "clang" if "-fsanitize=memory" in extra else "gcc"
    flags = [opt, "-fcommon", "-w", "-I" + d] + list(extra)
    if "fft" in cd:
        flags += ["-I" + os.path.join(d, "fftsrc")]
    if harness:
        flags += ["-DVP_HARNESS"]
    inc = "-I" + d

    def one(o):
        fl = list(flags)
        if harness and o == "main":
            fl += ["-Dmain=athena_main_unused"]
        try:
            pp = _run([cc] + fl + ["-E", "-P", o + ".c"], cwd=d)
        except BuildError as e:
            return e
        fkey = [f for f in fl if f != inc and not f.endswith("fftsrc")]
        h = hashlib.sha1(repr((cc, fkey)).encode() + b"\0" + pp).hexdigest()
        op = os.path.join(BUILD, "objs", h + ".o")
        if not os.path.exists(op):
            tmp = op + ".%s.tmp" % uuid.uuid4().hex
            try:
                _run([cc] + fl + ["-c", o + ".c", "-o", tmp], cwd=d)
            except BuildError as e:
                return e
            os.rename(tmp, op)
        return op

    own = pool is None
    ex = pool or ThreadPoolExecutor(8)
    try:
        ops = list(ex.map(one, objs))
    finally:
        if own:
            ex.shutdown()
    for o in ops:
        if isinstance(o, BuildError):
            raise o
    lh = hashlib.sha1("\n".join(ops).encode()).hexdigest()[:16]
    exe = os.path.join(d, "athena." + lh)
    if not os.path.exists(exe):
        libs = (["-lfftw3"] if "fft" in cd else []) + ["-ldl", "-lm"]
        for f in os.listdir(d):
            if f.startswith("athena."):
                try: os.unlink(os.path.join(d, f))
                except OSError: pass
        tmp = exe + ".%s.tmp" % uuid.uuid4().hex
        _run([cc] + [f for f in flags if f.startswith(("-O", "-f", "-g"))] + ops + ["-o", tmp] + libs)
        os.rename(tmp, exe)
    return exe


def build_many(specs, jobs=8):
    """specs: list of (cfg, opt, extra, harness). Returns dict spec->path or BuildError."""
    res = {}
    files = ThreadPoolExecutor(jobs)
    outer = ThreadPoolExecutor(max(1, len(specs)) if len(specs) < 12 else 12)

    def go(s):
        try:
            return build(s[0], s[1], s[2], s[3], pool=files)
        except BuildError as e:
            return e
    for s, r in zip(specs, outer.map(go, specs)):
        res[s] = r
    outer.shutdown()
    files.shutdown()
    return res


def build_tool(srcs, name, flags=()):
    """A vis/ tool, from /repo sources."""
    h = hashlib.sha1(repr((name, flags)).encode())
    for s in srcs:
        h.update(open(s, "rb").read())
    os.makedirs(os.path.join(BUILD, "tools"), exist_ok=True)
    exe = os.path.join(BUILD, "tools", name + "-" + h.hexdigest()[:12])
    if not os.path.exists(exe):
        tmp = exe + ".%s" % uuid.uuid4().hex
        _run(["gcc", "-O1", "-fcommon", "-w"] + list(flags) + list(srcs) + ["-o", tmp, "-lm"])
        os.rename(tmp, exe)
    return exe
