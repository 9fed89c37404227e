"""Readers for the files Athena writes, written from the documented formats (not from Athena's own reading code)."""
import re
import numpy as np
from .prop import Violation, need


def read_vtk(path):
    """legacy VTK, structured points, cell data -> dict(title, dims, origin, spacing, n, vars={name: array})"""
    b = open(path, "rb").read()
    pos = 0

    def line():
        nonlocal pos
        e = b.find(b"\n", pos)
        if e < 0:
            raise Violation("%s: truncated header" % path)
        s = b[pos:e].decode("latin1")
        pos = e + 1
        return s
    need(line().startswith("# vtk DataFile"), "%s: not a VTK file", path)
    f = dict(title=line(), vars={})
    need(line().strip() == "BINARY", "%s: not binary", path)
    need(line().strip() == "DATASET STRUCTURED_POINTS", "%s: dataset", path)
    f["dims"] = [int(x) for x in line().split()[1:]]
    f["origin"] = [float(x) for x in line().split()[1:]]
    f["spacing"] = [float(x) for x in line().split()[1:]]
    w = line().split()
    need(w[0] == "CELL_DATA", "%s: cell data", path)
    n = f["n"] = int(w[1])
    want = 1
    for d in f["dims"]:
        want *= max(d - 1, 1)
    need(want == n, "%s: CELL_DATA %d does not match DIMENSIONS %s", path, n, f["dims"])
    f["order"] = []
    while pos < len(b):
        s = line()
        if not s.strip():
            continue
        w = s.split()
        need(w[0] in ("SCALARS", "VECTORS") and w[2] == "float", "%s: unexpected line %r", path, s[:60])
        if w[0] == "SCALARS":
            need(line().startswith("LOOKUP_TABLE"), "%s: lookup table", path)
        m = n * (3 if w[0] == "VECTORS" else 1)
        need(pos + 4 * m <= len(b), "%s: truncated data for %s", path, w[1])
        a = np.frombuffer(b, ">f4", m, pos).astype(float)
        pos += 4 * m
        f["vars"][w[1]] = a.reshape(n, 3) if w[0] == "VECTORS" else a
        f["order"].append(w[1])
    m = re.search(r"time= *(\S+), level= *(\d+), domain= *(\d+)", f["title"])
    need(m is not None, "%s: title %r", path, f["title"])
    f["time"], f["level"], f["domain"] = float(m.group(1)), int(m.group(2)), int(m.group(3))
    return f


def read_bin(path):
    b = open(path, "rb").read()
    i = np.frombuffer(b, "<i4", 8)
    f = dict(coordsys=int(i[0]), n=[int(x) for x in i[1:4]], nvar=int(i[4]), nscal=int(i[5]), grav=int(i[6]), par=int(i[7]))
    a = np.frombuffer(b, "<f8", -1, 32)
    f["gm1"], f["cs"], f["time"], f["dt"] = [float(x) for x in a[:4]]
    o = 4
    f["x"] = []
    for d in range(3):
        f["x"].append(a[o:o + f["n"][d]])
        o += f["n"][d]
    m = f["n"][0] * f["n"][1] * f["n"][2]
    rest = len(a) - o
    need(rest % m == 0, "%s: length is not a whole number of arrays", path)
    f["arrays"] = a[o:].reshape(-1, f["n"][2], f["n"][1], f["n"][0])
    return f


def read_tab(path):
    """table with '#' header -> (header lines, 2D float array)"""
    h, rows = [], []
    for s in open(path):
        if s.startswith("#"):
            h.append(s.rstrip("\n"))
        elif s.strip():
            rows.append([float(x) for x in s.split()])
    need(rows and all(len(x) == len(rows[0]) for x in rows), "%s: ragged or empty table", path)
    return h, np.array(rows)


def columns(h):
    """labels [n]=name of the last header line that has them"""
    for s in reversed(h):
        m = re.findall(r"\[(\d+)\]=\s*(.*?)\s*(?=\[\d+\]=|$)", s)
        if m:
            need([int(a) for a, _ in m] == list(range(1, len(m) + 1)), "column numbers %s", [a for a, _ in m])
            return [x for _, x in m]
    raise Violation("no column header")


def read_pnm(path):
    """P5/P6 -> (magic, comments, array [row, col(,3)])"""
    b = open(path, "rb").read()
    pos, tok, com = 0, [], []
    while len(tok) < 4:
        e = b.find(b"\n", pos)
        need(e >= 0, "%s: truncated header", path)
        s = b[pos:e].decode("latin1")
        pos = e + 1
        if s.startswith("#"):
            com.append(s)
        else:
            tok += s.split()
    magic, n1, n2, mx = tok[0], int(tok[1]), int(tok[2]), int(tok[3])
    need(mx == 255, "%s: maxval", path)
    m = 3 if magic == "P6" else 1
    need(len(b) - pos == n1 * n2 * m, "%s: %d bytes of pixels for %d x %d", path, len(b) - pos, n1, n2)
    a = np.frombuffer(b, "u1", -1, pos)
    return magic, com, a.reshape((n2, n1, 3) if m == 3 else (n2, n1)).astype(int)
