"""Output files hold the state. Each generated problem is run with a generated list of output blocks, every one due at every
step, plus the harness' exact state record on the same schedule. Every file is then read back by independent readers and
compared, value by value, with what the record says the requested variable, slice, average, image, histogram or sum is."""
import glob, json, os, re
from .common import *
from . import feats, smrgen
from vp import files
from vp.build import cfg

RULE = ("A case is a generated problem (gas, relativistic, cylindrical, self-gravitating, particle, refined or parallel run), one to "
        "fourteen output blocks (dump or single variable; format, expression, slices, scaling, palette, number format, id, level and domain "
        "selectors), and a step count. Non-trivial: the state is not uniform and at least one file was compared.")
ASSUMPTIONS = ["slice limits do not coincide with cell faces", "one dump of all variables per file extension (they share one name)",
               "images may differ by one level where the exact value lies on a rounding boundary"]

PAL = json.load(open(os.path.join(os.path.dirname(__file__), "palettes.json")))
FMT = {None: 8, "%20.14e": 14, "%.4e": 4, "%15.10e": 10}
NG = 4


def sr_invert(U, gas, gamma):
    """primitive (d, V1, V2, V3, P) of relativistic conserved variables, by bisection"""
    D, M, E = U[..., 0], U[..., 1:4], U[..., 4]
    B = U[..., 5:8] if gas == "mhd" else np.zeros_like(M)
    M2, B2, MB = (M * M).sum(-1), (B * B).sum(-1), (M * B).sum(-1)

    def f(W):
        v2 = (M2 * W * W + MB ** 2 * (2 * W + B2)) / (W * W * (W + B2) ** 2)
        v2 = np.minimum(v2, 1 - 1e-15)
        g = 1 / np.sqrt(1 - v2)
        p = (gamma - 1) / gamma * (W / g ** 2 - D / g)
        return W - p + 0.5 * B2 * (1 + v2) - 0.5 * MB ** 2 / W ** 2 - E, g, p
    lo = np.full_like(D, 1e-12)
    hi = 4 * (np.abs(E) + np.sqrt(M2) + B2) * 10
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        v2 = (M2 * mid * mid + MB ** 2 * (2 * mid + B2)) / (mid * mid * (mid + B2) ** 2)
        bad = (v2 >= 1) | (f(mid)[0] < 0)
        lo, hi = np.where(bad, mid, lo), np.where(bad, hi, mid)
    W = 0.5 * (lo + hi)
    _, g, p = f(W)
    V = (M + (MB / W)[..., None] * B) / (W + B2)[..., None]
    return np.concatenate([(D / g)[..., None], V, p[..., None]], -1), g


class Values:
    """named fields of one Grid record, ghost zones included, with a scale for each"""
    def __init__(s, r, c, gamma, cs):
        d = dict(c)
        U = r.U
        v, sc = {}, {}
        adi, mhd = d["eos"] == "adiabatic", d["gas"] == "mhd"
        v["d"], v["M1"], v["M2"], v["M3"] = [U[..., i] for i in range(4)]
        ib = 5 if adi else 4
        if adi:
            v["E"] = U[..., 4]
        b2 = 0.0
        if mhd:
            for i in range(3):
                v["B%dc" % (i + 1)] = U[..., ib + i]
            b2 = (U[..., ib:ib + 3] ** 2).sum(-1)
            v["ME"] = 0.5 * b2
            ib += 3
        with np.errstate(all="ignore"):
            if "sr" in d:
                W, g = sr_invert(U, d["gas"], gamma)
                v["rho"], v["V1"], v["V2"], v["V3"], v["P"] = [W[..., i] for i in range(5)]
                v["G"] = g
                v["cs2"] = gamma * v["P"] / (v["rho"] + gamma / (gamma - 1) * v["P"])
                v["S"] = v["P"] / v["rho"] ** gamma
                s.ptol = 1e-7
            else:
                v["rho"] = v["d"]
                for i in range(3):
                    v["V%d" % (i + 1)] = U[..., 1 + i] / U[..., 0]
                if adi:
                    ke = 0.5 * (U[..., 1:4] ** 2).sum(-1) / U[..., 0]
                    v["P"] = (gamma - 1) * (U[..., 4] - 0.5 * b2 - ke)
                    v["cs2"] = gamma * v["P"] / v["d"]
                    v["S"] = v["P"] / v["d"] ** gamma
                    for k in ("P", "cs2", "S"):
                        sc[k] = np.abs(v["E"]).max() * np.abs(v[k] / v["P"]).max()
                else:
                    v["P"] = v["d"] * cs * cs
                s.ptol = 1e-11
        for i in range(int(d["nscal"])):
            v["s%d" % i] = U[..., ib + i]
            v["r%d" % i] = U[..., ib + i] / U[..., 0]
        if r.Phi is not None:
            v["Phi"] = r.Phi
        v["usr1"] = 3 * v["d"] - 0.5 * v["M1"]
        for k in v:
            sc.setdefault(k, np.abs(v[k]).max())
        s.v, s.sc, s.r = v, sc, r

    def cut(s, name, ghost):
        r, a = s.r, s.v[name]
        if ghost:
            return a
        return a[tuple(slice(r.g[q], r.g[q] + r.Nx[q]) for q in (2, 1, 0))]

    def tol(s, name):
        return s.ptol if name in ("rho", "V1", "V2", "V3", "P", "cs2", "S", "G") else 1e-13


def coords(r, q, ghost):
    n, g = r.Nx[q], (r.g[q] if ghost else 0)
    return r.MinX[q] + (np.arange(-g, n + g) + 0.5) * r.dx[q]


def same(a, b, digits, sc, what, *args, extra=1e-13):
    """|a-b| within half a unit of the last of the written digits (plus round-off of scale sc)"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    need(a.shape == b.shape, what + ": shape %s, expected %s", *args, a.shape, b.shape)
    with np.errstate(all="ignore"):
        t = 0.51 * 10.0 ** -digits * np.maximum(np.abs(b), np.abs(a)) * 2 + extra * sc + 1e-300
        bad = ~(np.abs(a - b) <= t)
    if bad.any():
        k = np.unravel_index(np.argmax(np.where(bad, np.abs(a - b) / t, 0)), a.shape)
        raise Violation(what % args + ": value %.17g, state has %.17g at %s" % (a[k], b[k], list(map(int, k))))


F32 = 6.92          # decimal digits of a float: relative error 2^-24


def pos(case, b, q, f):
    N, x0 = b["domain1"]["Nx%d" % (q + 1)], b["domain1"]["x%dmin" % (q + 1)]
    dx = (b["domain1"]["x%dmax" % (q + 1)] - x0) / N
    i = min(int(f * N), N - 1)
    frac = (0.15, 0.35, 0.6, 0.9)[int(f * 7919) % 4]
    return x0 + (i + frac) * dx


def slices(o, b, nd):
    """o['sl']: per axis [kind, f1, f2] -> {q: (l, u)} and the text"""
    out, txt = {}, {}
    for q in range(nd):
        kind, f1, f2 = o["sl"][q]
        if kind == 0 or len(out) >= nd - o["mind"]:
            continue
        lo, hi = b["domain1"]["x%dmin" % (q + 1)], b["domain1"]["x%dmax" % (q + 1)]
        a, e = pos(None, b, q, min(f1, f2)), pos(None, b, q, max(f1, f2))
        a, e = min(a, e), max(a, e)
        if kind == 1:
            out[q], txt[q] = (a, a), repr(a)
        elif kind == 2:
            out[q], txt[q] = (a, e), "%r:%r" % (a, e)
        elif kind == 3:
            out[q], txt[q] = (lo, hi), ":"
        elif kind == 4:
            out[q], txt[q] = (a, hi), "%r:" % a
        else:
            out[q], txt[q] = (lo, e), " : %r" % e
    return out, txt


def reduce(V, name, sl, ghost):
    """data array after slicing/averaging, or None when the slice misses the Grid; axes left in (x3,x2,x1) order"""
    r = V.r
    a = V.cut(name, ghost)
    for q, (l, u) in sl.items():
        if u < r.MinX[q] or l >= r.MaxX[q]:
            return None
    for q in range(3):
        ax = 2 - q
        if q in sl:
            l, u = sl[q]
            g = r.g[q] if ghost else 0
            lo = int(np.clip(np.floor((l - r.MinX[q]) / r.dx[q]) + g, 0, a.shape[ax] - 1))
            hi = int(np.clip(np.floor((u - r.MinX[q]) / r.dx[q]) + g, 0, a.shape[ax] - 1))
            a = a.take(range(lo, hi + 1), axis=ax).mean(axis=ax, keepdims=True)
    keep = [ax for ax in range(3) if (r.Nx[2 - ax] > 1 and (2 - ax) not in sl)]
    return a.reshape([a.shape[ax] for ax in keep])


def fname(r, n, id_, ext, mpi, num=True, root=False):
    """path of the file of Grid record r (written by its own process unless root)"""
    p = ""
    rank = 0 if root else r.rank
    base = "vp" if rank == 0 else "vp-id%d" % r.rank
    if mpi:
        p = "id%d/" % rank
    if r.level:
        p += "lev%d/" % r.level
        base += "-lev%d" % r.level
    if r.dom:
        base += "-dom%d" % r.dom
    if num:
        base += ".%04d" % n
    if id_:
        base += "." + id_
    return p + base + "." + ext


def check_time(t, r, digits, what):
    need(abs(t - r.time) <= 10.0 ** -digits * abs(r.time) + 1e-300, "%s: time %.15g, state is at %.15g", what, t, r.time)


def dump_vars(c, prim, r):
    """names (state, column label in tables) of a dump's variables in order"""
    d = dict(c)
    v = [("rho", "d"), ("V1", "V1"), ("V2", "V2"), ("V3", "V3")] if prim else [("d", "d"), ("M1", "M1"), ("M2", "M2"), ("M3", "M3")]
    if d["eos"] == "adiabatic":
        v.append(("P", "P") if prim else ("E", "E"))
    if d["gas"] == "mhd":
        v += [("B%dc" % i,) * 2 for i in (1, 2, 3)]
    return v, [("r%d" % i if prim else "s%d" % i, "s%d" % i) for i in range(int(d["nscal"]))]


def chk_bin(p, V, o, c, case, ghost, path):
    r, d = V.r, dict(c)
    f = files.read_bin(p)
    n = [r.Nx[q] + (2 * r.g[q] if ghost else 0) for q in range(3)]
    v, s = dump_vars(c, o["prim"], r)
    names = [x for x, _ in v + s] + (["Phi"] if "grav" in d else [])
    need(f["n"] == n and f["coordsys"] == (-2 if "cyl" in d else -1), "%s: sizes %s, coordinates %d", path, f["n"], f["coordsys"])
    need((f["nvar"], f["nscal"], f["grav"]) == (len(v + s), len(s), int("grav" in d)) and f["par"] in ((0, 1) if o["prim"] and "par" in d else (int("par" in d),)), "%s: header counts %s", path, f)
    if d["eos"] == "adiabatic":
        need(abs(f["gm1"] - (case["gamma"] - 1)) < 1e-14 and f["cs"] == 0, "%s: gamma-1 %.17g cs %.17g", path, f["gm1"], f["cs"])
    else:
        need(f["gm1"] == 0 and abs(f["cs"] - case["cs"]) < 1e-14, "%s: gamma-1 %.17g cs %.17g", path, f["gm1"], f["cs"])
    need(f["time"] == r.time and f["dt"] == r.gdt, "%s: time %.17g dt %.17g, state %.17g %.17g", path, f["time"], f["dt"], r.time, r.gdt)
    for q in range(3):
        same(f["x"][q], coords(r, q, ghost) if r.Nx[q] > 1 or True else 0, 13, abs(r.MaxX[q]) + abs(r.MinX[q]), "%s: x%d", path, q + 1)
    np_ = 4 * f["par"]
    need(len(f["arrays"]) == len(names) + np_, "%s: %d arrays, expected %d", path, len(f["arrays"]), len(names) + np_)
    for k, nm in enumerate(names):
        same(f["arrays"][k], V.cut(nm, ghost), 15, V.sc[nm], "%s: %s", path, nm, extra=V.tol(nm))


def chk_tab(p, V, o, c, case, ghost, path):
    r, d = V.r, dict(c)
    h, a = files.read_tab(p)
    dg = FMT[o.get("fmt")]
    col = files.columns(h)
    v, s = dump_vars(c, o["prim"], r)
    act = [q for q in range(3) if r.Nx[q] > 1]
    want = ["ijk"[q] + "-zone" for q in act] + ["x%d" % (q + 1) for q in act] + [y for _, y in v] + (["Phi"] if "grav" in d else [])
    par = [x for x in col if x.endswith("par")]
    want += (par if "par" in d else []) + [y for _, y in s]
    need(col == want, "%s: columns %s, expected %s", path, col, want)
    need(a.shape[1] == len(col), "%s: %d columns of data for %d headers", path, a.shape[1], len(col))
    n = [r.Nx[q] + (2 * r.g[q] if ghost else 0) for q in range(3)]
    need(len(a) == n[0] * n[1] * n[2], "%s: %d rows, expected %s", path, len(a), n)
    t = " ".join(h)
    for q in act:
        need("Nx%d = %d" % (q + 1, n[q]) in t, "%s: header Nx%d", path, q + 1)
    need(("PRIMITIVE" if o["prim"] else "CONSERVED") in t, "%s: header %s", path, t[:200])
    m = re.search(r"Time *= *(\S+), level= *(\d+), domain= *(\d+)", t)
    need(m and int(m.group(2)) == r.level and int(m.group(3)) == r.dom, "%s: header %s", path, t[:200])
    check_time(float(m.group(1)), r, 5, path)
    g3 = np.meshgrid(*[coords(r, q, ghost) for q in (2, 1, 0)], indexing="ij")
    i3 = np.meshgrid(*[np.arange(n[q]) for q in (2, 1, 0)], indexing="ij")
    for q in act:
        z = a[:, col.index("ijk"[q] + "-zone")]
        zz = i3[2 - q].ravel()
        need((z - z[0] == zz - zz[0]).all(), "%s: %s-zone column", path, "ijk"[q])
        same(a[:, col.index("x%d" % (q + 1))], g3[2 - q].ravel(), dg, abs(r.MaxX[q]) + abs(r.MinX[q]), "%s: x%d", path, q + 1)
    for nm, lab in v + s + ([("Phi", "Phi")] if "grav" in d else []):
        same(a[:, col.index(lab)], V.cut(nm, ghost).ravel(), dg, V.sc[nm], "%s: %s", path, nm, extra=V.tol(nm))


def chk_vtk(p, V, o, c, case, ghost, path):
    r, d = V.r, dict(c)
    f = files.read_vtk(p)
    need(f["level"] == r.level and f["domain"] == r.dom, "%s: title %s", path, f["title"])
    need(f["title"].startswith("PRIMITIVE" if o["prim"] else "CONSERVED"), "%s: title %s", path, f["title"])
    check_time(f["time"], r, 6, path)
    for q in range(3):
        n = r.Nx[q] + (2 * r.g[q] if ghost else 0)
        need(f["dims"][q] == (n + 1 if r.Nx[q] > 1 else 1), "%s: DIMENSIONS %s", path, f["dims"])
        same(f["spacing"][q], r.dx[q], 6, 0, "%s: SPACING", path)
        same(f["origin"][q], r.MinX[q] - (r.g[q] * r.dx[q] if ghost else 0), 6, abs(r.MinX[q]), "%s: ORIGIN", path, extra=1e-6)
    pr = o["prim"]
    want = {"density": "rho" if pr else "d", ("velocity" if pr else "momentum"): ["V1", "V2", "V3"] if pr else ["M1", "M2", "M3"]}
    if d["eos"] == "adiabatic":
        want["pressure" if pr else "total_energy"] = "P" if pr else "E"
    if d["gas"] == "mhd":
        want["cell_centered_B"] = ["B1c", "B2c", "B3c"]
    if "grav" in d:
        want["gravitational_potential"] = "Phi"
    for i in range(int(d["nscal"])):
        want[("specific_scalar[%d]" if pr else "scalar[%d]") % i] = ("r%d" if pr else "s%d") % i
    got = set(x for x in f["vars"] if not x.startswith("particle_"))
    need(got == set(want), "%s: variables %s, expected %s", path, sorted(got), sorted(want))
    for k, nm in want.items():
        for m, x in enumerate(nm if isinstance(nm, list) else [nm]):
            a = f["vars"][k]
            same(a[:, m] if a.ndim == 2 else a, V.cut(x, ghost).ravel(), F32, V.sc[x], "%s: %s", path, x, extra=max(V.tol(x), 1e-37))


def chk_single(p, V, o, a, sl, c, path, gmm, ghost):
    r, nm, sc = V.r, o["expr"], V.sc[o["expr"]]
    tol = V.tol(nm)
    if o["kind"] == "stab":
        h, t = files.read_tab(p)
        ix = np.meshgrid(*[np.arange(k) for k in a.shape], indexing="ij")[::-1]
        need(t.shape == (a.size, a.ndim + 1), "%s: table of %s for data %s", path, t.shape, a.shape)
        for k, i in enumerate(ix):
            need((t[:, k] == i.ravel()).all(), "%s: index column %d", path, k + 1)
        same(t[:, -1], a.ravel(), FMT[o.get("fmt")], sc, "%s: %s", path, nm, extra=tol)
    elif o["kind"] == "svtk":
        f = files.read_vtk(p)
        check_time(f["time"], r, 6, path)
        need(f["level"] == r.level and f["domain"] == r.dom, "%s: title %s", path, f["title"])
        shp = list(a.shape)
        for q in (2, 1, 0):
            if r.Nx[q] > 1 and q not in sl:
                n = shp.pop(0)
                need(f["dims"][q] == n + 1, "%s: DIMENSIONS %s for data %s sliced along %s", path, f["dims"], a.shape, sorted(sl))
                same(f["spacing"][q], r.dx[q], 6, 0, "%s: SPACING", path)
                if not ghost:
                    same(f["origin"][q], r.MinX[q], 6, abs(r.MinX[q]), "%s: ORIGIN", path, extra=1e-6)
            else:
                need(f["dims"][q] == 1, "%s: DIMENSIONS %s", path, f["dims"])
        need(list(f["vars"]) == [o["id"]], "%s: variables %s", path, list(f["vars"]))
        same(f["vars"][o["id"]], a.ravel(), F32, sc, "%s: %s", path, nm, extra=max(tol, 1e-37))
    else:
        magic, com, im = files.read_pnm(p)
        need(magic == ("P5" if o["kind"] == "pgm" else "P6"), "%s: magic %s", path, magic)
        lo, hi = a.min(), a.max()
        gmm[0], gmm[1] = min(gmm[0], lo), max(gmm[1], hi)
        if o["kind"] == "ppm":
            m = re.search(r"dmin= *(\S+), dmax= *(\S+), gmin= *(\S+), gmax= *(\S+)", " ".join(com))
            need(m is not None, "%s: comment %s", path, com)
            same([float(x) for x in m.groups()], [lo, hi, gmm[0], gmm[1]], 7, sc, "%s: dmin, dmax, gmin, gmax", path, extra=max(tol, 1e-13))
        if o.get("dmin") is not None:
            lo = o["dmin"]
        if o.get("dmax") is not None:
            hi = o["dmax"]
        b = a[::-1]
        need(im.shape[:2] == b.shape, "%s: image %s for data %s", path, im.shape, b.shape)
        if hi - lo <= 100 * tol * sc:
            return
        err = 300 * tol * sc / (hi - lo)
        if o["kind"] == "pgm":
            x = 256 * (b - lo) / ((hi - lo) * (1 + 1.1920929e-7))
            g0, g1 = [np.clip(np.trunc(x + e), 0, 255) for e in (-err * 256 - 1e-9, err * 256 + 1e-9)]
            bad = (im < g0) | (im > g1)
            need(not bad.any(), "%s: %d pixels wrong, e.g. %s", path, bad.sum(), [(list(map(int, k)), int(im[tuple(k)]), float(x[tuple(k)])) for k in np.argwhere(bad)[:2]])
        else:
            pal = np.array(PAL[o["palette"]]).reshape(256, 3)
            x = 255 * (b - lo) / (hi - lo)
            rng = []
            e = 1e-4 + err * 255
            for y in (x - e, x + e, np.clip(np.round(x), x - e, x + e)):
                y = np.clip(y, 0, 255)
                i = np.minimum(y.astype(int), 254)
                rng.append(255 * (pal[i] + (y - i)[..., None] * (pal[i + 1] - pal[i])))
            g0, g1 = np.floor(np.minimum.reduce(rng) - 1e-2), np.floor(np.maximum.reduce(rng) + 1e-2)
            bad = ((im < g0) | (im > g1)).any(-1)
            need(not bad.any(), "%s: %d pixels wrong, e.g. %s", path, bad.sum(),
                 [(list(map(int, k)), [int(z) for z in im[tuple(k)]], float(x[tuple(k)])) for k in np.argwhere(bad)[:2]])


def chk_prb(p, Vs, o, path, rows, n):
    """histogram of one Domain: Vs are its Grids"""
    x = np.concatenate([V.cut(o["expr"], False).ravel() for V in Vs])
    sc, tol, r = Vs[0].sc[o["expr"]], Vs[0].tol(o["expr"]), Vs[0].r
    if not np.isfinite(x).all():
        return
    h, t = files.read_tab(p)
    hd = dict(re.findall(r"# *(.*?) = *(\S+)", "\n".join(h)))
    mean, var = x.mean(), x.var(ddof=1)
    check_time(float(hd["Time"]), r, 14, path)
    need(hd["expr"].strip('"') == o["expr"], "%s: expr %s", path, hd["expr"])
    sd = np.sqrt(var)
    dev = x - mean
    st_ = dict(dmin=x.min(), dmax=x.max(), mean=mean, variance=var)
    e = 1e-12 + 10 * tol
    for k, v in st_.items():
        same(float(hd[k]), v, 14, 0, "%s: %s", path, k, extra=0 if False else 1) if False else \
            need(abs(float(hd[k]) - v) <= e * (sc * sc if k == "variance" else sc), "%s: %s = %s, state gives %.15g", path, k, hd[k], v)
    if sd > 1e-5 * sc:
        m = e * (sc / sd) ** 4 * 10
        for k, v in (("std. dev.", sd / sd), ("avg. dev.", np.abs(dev).mean() / sd), ("skewness", (dev ** 3).mean() / sd ** 3),
                     ("kurtosis", (dev ** 4).mean() / var ** 2 - 3)):
            f = float(hd[k]) / (sd if "dev" in k else 1)
            need(abs(f - v) <= m * (1 + abs(v)), "%s: %s gives %.15g, expected %.15g", path, k, f, v)
    nb = int(np.sqrt(len(x)))
    lo, hi = x.min(), x.max()
    if hi - lo > 1e-9 * sc:
        need(int(hd["Nbin"]) == nb and len(t) == nb, "%s: %s bins, %d rows, expected %d", path, hd["Nbin"], len(t), nb)
        w = (hi - lo) / nb
        same(t[:, 0], lo + (np.arange(nb) + 0.5) * w, FMT[o.get("fmt")] if o.get("fmt") else 8, sc, "%s: bin centres", path, extra=1e-8)
        cnt = t[:, 1] * w * len(x)
        need(abs(cnt.sum() - len(x)) <= 2e-4 * len(x) + 1e-6, "%s: histogram holds %.6g of %d cells", path, cnt.sum(), len(x))
        # cells within round-off of a bin edge may fall on either side
        y = (x - lo) / w
        q = 1e-6 + 1e3 * tol * sc / w
        for k in range(nb):
            top = y < k + 1 + q if k < nb - 1 else np.ones(len(y), bool)
            mx = (top & (y > k - q)).sum()
            mn = ((y >= k + q) & ((y < k + 1 - q) | (k == nb - 1))).sum()
            need(mn - 1e-2 - 1e-3 * mn <= cnt[k] <= mx + 1e-2 + 1e-3 * mx, "%s: bin %d holds %.4g cells, expected %d..%d", path, k, cnt[k], mn, mx)
    row = rows[n]
    for k, v in zip((0, 1, 2, 3, 4), (r.time, x.min(), x.max(), mean, var)):
        need(abs(row[k] - v) <= 1.1 * 10.0 ** -(FMT[o.get("fmt")] if o.get("fmt") else 8) * abs(v) + e * (sc * sc + sc), "%s: statistics row %d column %d: %.12g, expected %.12g", path, n, k + 1, row[k], v)


def chk_hst(row, Vs, o, c, case, path, col):
    d, r = dict(c), Vs[0].r
    dg = FMT[o["fmt"]] if o.get("fmt") else 6
    tot = 0.0
    acc, sca = {}, {}
    for V in Vs:
        r = V.r
        w = np.ones(1)
        x1 = coords(r, 0, False)
        w = np.ones(r.Nx[::-1]) * (x1 if "cyl" in d else 1.0)
        f = {"mass": V.cut("d", 0), "x1 Mom.": V.cut("M1", 0), "x2 Mom.": V.cut("M2", 0), "x3 Mom.": V.cut("M3", 0), "usrd2": V.cut("d", 0) ** 2}
        if d["eos"] == "adiabatic":
            f["total E"] = V.cut("E", 0)
        if "sr" in d:
            g = V.cut("G", 0)
            f["Gamma"] = g
            u = [g * V.cut("V%d" % i, 0) for i in (1, 2, 3)]
            f["_g2"], f["_u1"], f["_u2"], f["_u3"], f["_p"] = g * g, u[0] ** 2, u[1] ** 2, u[2] ** 2, V.cut("P", 0)
            if d["gas"] == "mhd":
                B = [V.cut("B%dc" % i, 0) for i in (1, 2, 3)]
                v = [x / g for x in u]
                vB, B2 = sum(a * b for a, b in zip(v, B)), sum(b * b for b in B)
                f["_b0"] = (g * vB) ** 2
                bb = [B[i] / g + g * vB * v[i] for i in range(3)]
                f["_b1"], f["_b2"], f["_b3"] = [x * x for x in bb]
                f["_bb"] = B2 / g ** 2 + vB ** 2
                f["_em"] = B2 * (1 - 0.5 / g ** 2) - 0.5 * vB ** 2
        else:
            for i in (1, 2, 3):
                f["x%d-KE" % i] = 0.5 * V.cut("M%d" % i, 0) ** 2 / V.cut("d", 0)
                if d["gas"] == "mhd":
                    f["x%d-ME" % i] = 0.5 * V.cut("B%dc" % i, 0) ** 2
            if "grav" in d:
                f["grav PE"] = V.cut("d", 0) * V.cut("Phi", 0)
            for i in range(int(d["nscal"])):
                f["scalar %d" % i] = V.cut("s%d" % i, 0)
            if "cyl" in d:
                f["Ang.Mom."] = V.cut("M2", 0) * x1
        tot += w.sum()
        for k, a in f.items():
            acc[k] = acc.get(k, 0.0) + (w * a).sum()
            sca[k] = max(sca.get(k, 0.0), np.abs(a).max())
    nm = list(col)
    if "sr" in d:      # labels of the relativistic columns differ; their order is documented
        nm = ["time", "dt", "mass", "total E", "x1 Mom.", "x2 Mom.", "x3 Mom.", "_g2", "_u1", "_u2", "_u3", "_p"]
        if d["gas"] == "mhd":
            nm += ["_b0", "_b1", "_b2", "_b3", "_bb", "_em"]
        nm += ["usrd2"]
    need(len(row) == len(nm) == len(col), "%s: %d values, %d columns", path, len(row), len(nm))
    if "sr" not in d:
        want = {"time", "dt"} | set(acc)
        need(set(nm) == want, "%s: columns %s, expected %s", path, nm, sorted(want))
    for k, v in zip(nm, row):
        if k in ("time", "dt"):
            e = r.time if k == "time" else r.dt
            need(abs(v - e) <= 1.1 * 10.0 ** -dg * abs(e), "%s: %s %.12g, state %.12g", path, k, v, e)
        else:
            e = acc[k] / tot
            t = 1e-7 if (k[0] == "_") else 1e-12
            need(abs(v - e) <= 1.1 * 10.0 ** -dg * abs(e) + t * sca[k] + (1e-14 if k[0] == "_" else 0.0), "%s: %s is %.12g, state averages %.12g", path, k, v, e)


EXPR = ["d", "M1", "M2", "M3", "V1", "V2", "V3", "P", "usr1", "E", "B1c", "B2c", "B3c", "ME", "cs2", "S", "G"]


def exprs(c):
    d = dict(c)
    out = EXPR[:9]
    if d["eos"] == "adiabatic":
        out = out + ["E", "cs2", "S"]
    if d["gas"] == "mhd":
        out = out + ["B1c", "B2c", "B3c", "ME"]
    if "sr" in d:
        out = out + ["G"]
    return out


def out_strategy(c, nd, smr):
    sing = ["stab"] + (["svtk", "pgm", "ppm"] if nd > 1 else []) + ["pdf"]
    sl = st.tuples(st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5]), r(0, 0.99, 2), r(0, 0.99, 2)).map(list)
    sel = dict(level=st.sampled_from([-1, -1, 0, 1, 2]), domain=st.sampled_from([-1, -1, 0, 1])) if smr else {}
    one = st.fixed_dictionaries(dict(kind=st.sampled_from(sing), expr=st.sampled_from(exprs(c)), sl=st.tuples(sl, sl, sl).map(list),
                                     dmin=st.one_of(st.none(), r(-2, 1, 1)), dmax=st.one_of(st.none(), r(1, 4, 1)),
                                     palette=st.sampled_from(sorted(PAL)), fmt=st.sampled_from(sorted(FMT, key=str)), named=st.booleans(), **sel))
    dump = st.fixed_dictionaries(dict(kind=st.sampled_from(["bin", "tab", "vtk", "hst"]), prim=st.booleans(), fmt=st.sampled_from(sorted(FMT, key=str)), **sel))
    return st.tuples(st.lists(dump, max_size=4, unique_by=lambda o: o["kind"]), st.lists(one, min_size=1, max_size=9)).map(lambda t: t[0] + t[1])


DEC = "%"


def prepare(case, c, b, nd):
    """output blocks 2.. from the case; returns the completed list"""
    d = dict(c)
    outs = []
    b["job"]["maxout"] = 1 + len(case["outs"])
    b["output1"] = dict(name="vpraw", dt=1e-30)
    for k, o in enumerate(case["outs"]):
        o = dict(o)
        n = k + 2
        q = {"dt": 1e-30}
        o["sl_"], txt = {}, {}
        if o["kind"] in ("bin", "tab", "vtk", "hst"):
            q["out_fmt"] = o["kind"]
            if o["kind"] != "hst":
                q["out"] = "prim" if o["prim"] else "cons"
            o["id"] = None
        else:
            q["out_fmt"] = {"stab": "tab", "svtk": "vtk"}.get(o["kind"], o["kind"])
            q["out"] = o["expr"]
            if o["expr"] == "usr1":
                q["usr_expr_flag"] = 1
            o["id"] = "out%d" % n
            if o["named"]:
                o["id"] = q["id"] = "q%d%s" % (n, o["expr"])
            if o["kind"] in ("pgm", "ppm") or (o["kind"] == "svtk"):
                o["mind"] = 2
            else:
                o["mind"] = 1
            if o["kind"] != "pdf":
                if "ghost" in d:
                    o["sl"] = [[x[0] if x[0] in (0, 1, 2) else 1, x[1], x[2]] for x in o["sl"]]
                o["sl_"], txt = slices(o, b, nd)
                if o["kind"] in ("pgm", "ppm") and nd == 3 and len(o["sl_"]) == 0:
                    ax = int(o["sl"][0][1] * 100) % 3
                    p = pos(None, b, ax, o["sl"][0][1])
                    o["sl_"], txt = {ax: (p, p)}, {ax: repr(p)}
            for ax, t in txt.items():
                q["x%d" % (ax + 1)] = t
            if o["kind"] in ("pgm", "ppm"):
                for z in ("dmin", "dmax"):
                    if o[z] is not None:
                        q[z] = o[z]
            if o["kind"] == "ppm":
                q["palette"] = o["palette"]
        if o.get("fmt") and o["kind"] in ("tab", "hst", "stab", "pdf"):
            q["dat_fmt"] = o["fmt"]
        else:
            o["fmt"] = None
        for z in ("level", "domain"):
            if o.get(z, -1) != -1:
                q[z] = o[z]
        b["output%d" % n] = q
        outs.append(o)
    return outs


def verify(case, f, exe, nd, np_=None, grid=None):
    c, d_ = f.c, dict(f.c)
    b, ics, par = f.make(case["p"])
    if grid:
        for q in range(3):
            b["domain1"]["NGrid_x%d" % (q + 1)] = grid[q]
    outs = prepare(case, c, b, nd)
    ghost = "ghost" in d_
    mpi = np_ is not None
    with ath.Scratch() as d:
        p = ath.run(exe["x"], b, ics, d, par=par, np_=np_, timeout=120)
        steps = []
        n = 0
        while True:
            fs = sorted(glob.glob(os.path.join(d, "**", "raw.out1.%d.*" % n), recursive=True))
            if not fs:
                break
            rs = []
            for x in fs:
                for rec in ath.parse_raw(x):
                    rec.rank = int(x.rsplit(".", 1)[1])
                    rs.append(rec)
            steps.append(rs)
            n += 1
        need(n >= 1, "no output at all")
        if any(not np.isfinite(rec.U).all() for rs in steps for rec in rs):
            return False, "blown up"
        found = set(os.path.relpath(x, d) for x in glob.glob(os.path.join(d, "**", "vp*"), recursive=True)
                    if x.rsplit(".", 1)[-1] in ("bin", "vtk", "tab", "hst", "pgm", "ppm", "prb"))
        expect, ncmp = set(), 0
        gmm = {}
        for n, rs in enumerate(steps):
            VV = [Values(rec, c, case["p"]["gamma"], case["p"]["cs"]) for rec in rs]
            VV.sort(key=lambda V: (V.r.level, V.r.dom, V.r.rank))
            doms = {}
            for V in VV:
                doms.setdefault((V.r.level, V.r.dom), []).append(V)
            for k, o in enumerate(outs):
                for (lev, dom), Vs in doms.items():
                    if o["kind"] != "hst":
                        if o.get("level", -1) not in (-1, lev) or o.get("domain", -1) not in (-1, dom):
                            continue
                    if o["kind"] == "pdf":
                        nm = fname(Vs[0].r, n, o["id"], "prb", mpi, root=True)
                        sn = fname(Vs[0].r, n, "prb_stat." + o["id"], "tab", mpi, num=False, root=True)
                        expect |= {nm, sn}
                        need(nm in found and sn in found, "%s or %s is missing", nm, sn)
                        h, rows = files.read_tab(os.path.join(d, sn))
                        need(len(rows) == len(steps), "%s: %d rows for %d outputs", sn, len(rows), len(steps))
                        chk_prb(os.path.join(d, nm), Vs, o, nm, rows, n)
                        ncmp += 1
                        continue
                    if o["kind"] == "hst":
                        nm = fname(Vs[0].r, n, None, "hst", mpi, num=False, root=True)
                        expect.add(nm)
                        need(nm in found, "%s is missing (have %s)", nm, sorted(found)[:6])
                        h, rows = files.read_tab(os.path.join(d, nm))
                        need(len(rows) == len(steps), "%s: %d rows for %d outputs", nm, len(rows), len(steps))
                        chk_hst(rows[n], Vs, o, c, case["p"], nm, files.columns(h))
                        ncmp += 1
                        continue
                    for V in Vs:
                        if o["id"] is None:
                            nm = fname(V.r, n, None, o["kind"], mpi)
                            expect.add(nm)
                            need(nm in found, "%s is missing", nm)
                            {"bin": chk_bin, "tab": chk_tab, "vtk": chk_vtk}[o["kind"]](os.path.join(d, nm), V, o, c, case["p"], ghost, nm)
                        else:
                            a = reduce(V, o["expr"], o["sl_"], ghost)
                            if a is None:
                                continue
                            nm = fname(V.r, n, o["id"], {"stab": "tab", "svtk": "vtk"}.get(o["kind"], o["kind"]), mpi)
                            expect.add(nm)
                            need(nm in found, "%s is missing", nm)
                            chk_single(os.path.join(d, nm), V, o, a, o["sl_"], c, nm, gmm.setdefault((k, V.r.rank), [np.inf, -np.inf]), ghost)
                        ncmp += 1
        need(found == expect, "files that no output block asks for: %s", sorted(found - expect)[:5])
        kinds = sorted(set(o["kind"] for o in outs))
    U = steps[0][0].U
    return bool(ncmp > 0 and np.ptp(U[..., 0]) > 1e-6 * np.abs(U[..., 0]).max()), "%d files %s" % (min(ncmp // 20 * 20, 100), "+".join(kinds[:3]))


def table():
    H = cfg
    fpg = lambda nd: dict(fpg=logr(0.1, 5))
    pl = feats.plain
    t = [
        (pl(H("hydro", "adiabatic", "2", "roe", "ctu", 2)), (1, 2, 3)),
        (pl(H("hydro", "isothermal", "2", "roe", "ctu", 0)), (1, 2, 3)),
        (pl(H("mhd", "adiabatic", "2", "roe", "ctu", 1)), (1, 2, 3)),
        (pl(H("mhd", "isothermal", "2p", "hlld", "vl", 3)), (2, 3)),
        (pl(H("mhd", "adiabatic", "2", "roe", "ctu", 1, ghost=1)), (1, 2, 3)),
        (feats.cyl(H("mhd", "adiabatic", "2", "hlld", "ctu", 1, cyl=1)), (1, 2, 3)),
        (feats.sr(H("hydro", "adiabatic", "2p", "hllc", "vl", 0, sr=1)), (1, 2, 3)),
        (feats.sr(H("mhd", "adiabatic", "2p", "hlld", "vl", 0, sr=1)), (2, 3)),
        (pl(H("mhd", "adiabatic", "2", "hlld", "ctu", 1, grav="fft", fft=1), bcs=False, extra=fpg, setup=feats.grav_setup, lo=8), (2, 3)),
        (pl(H("hydro", "isothermal", "2", "hllc", "ctu", 1, par=1), bcs=False, extra=feats.par_extra, setup=feats.par_setup, lo=6), (2, 3)),
    ]
    return t


def subs(tier):
    out = []

    def strat(f, nd):
        return st.fixed_dictionaries(dict(p=f.strategy(nd).map(lambda p: dict(p, nlim=min(p["nlim"], 2))), outs=out_strategy(f.c, nd, "smr" in dict(f.c))))
    for f, nds in table():
        for nd in nds:
            out.append(Sub("%s-%dd" % (f.name, nd), strat(f, nd), (lambda case, exe, f=f, nd=nd: verify(case, f, exe, nd)), {"x": spec(f.c, "-O0")}, 40))
    # refined meshes, with a refined Domain inside every refined Domain
    for c in (cfg("hydro", "adiabatic", "2", "hllc", "ctu", 1, smr=1), cfg("mhd", "isothermal", "2", "hlld", "ctu", 1, smr=1)):
        for nd in (1, 2, 3):
            g = feats.smr(c)

            def sstrat(nd=nd, c=c):
                N = {1: [28, 1, 1], 2: [22, 14, 1], 3: [16, 10, 10]}[nd]
                bc = [4] * 6
                return evo_case(c, nd, N=st.just([0, 0, 0]), bc=st.just(bc), lay=smrgen.layout(nd, bc=bc, root=N, every=True), steps=(0, 1), cour=st.just(0.2))
            s = st.fixed_dictionaries(dict(p=sstrat(), outs=out_strategy(c, nd, True)))
            out.append(Sub("%s-%dd" % (g.name, nd), s, (lambda case, exe, g=g, nd=nd: verify(case, g, exe, nd)), {"x": spec(c, "-O0")}, 40 if nd < 3 else 16))
    # parallel runs
    c = cfg("mhd", "adiabatic", "2", "roe", "ctu", 1, mpi=1)
    f = feats.plain(c)
    for nd in (1, 2, 3):
        def ms(nd=nd):
            return st.fixed_dictionaries(dict(p=f.strategy(nd).map(lambda p: dict(p, nlim=1, N=[max(n, 8) if n > 1 else 1 for n in p["N"]])),
                                              outs=out_strategy(c, nd, False), g=st.sampled_from([[2, 1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 2], [2, 1, 2]])))

        def mv(case, exe, nd=nd):
            g = [case["g"][q] if q < nd else 1 for q in range(3)]
            return verify(case, f, exe, nd, np_=g[0] * g[1] * g[2], grid=g)
        out.append(Sub("%s-%dd" % (f.name, nd), ms(), mv, {"x": spec(c, "-O0")}, 8))
    return out
