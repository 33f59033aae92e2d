"""Medit, Netgen, TetGen, UGRID, AVS-UCD, DOLFIN XML, SU2, Tecplot, FLAC3D."""
import glob
import gzip
import os
import re
import struct
from xml.etree import ElementTree as ET

import numpy as np

from ..alphabet import NN
from . import Bad, need, spec

MEDIT = {"Edges": ("line", 5), "Triangles": ("triangle", 6), "Quadrilaterals": ("quad", 7), "Tetrahedra": ("tetra", 8),
         "Prisms": ("wedge", 9), "Hexahedra": ("hexahedron", 10), "Pyramids": ("pyramid", 49)}


def decode_medit(path, case=None):
    if case["o"] == "bin":
        with open(path + ".meshb", "rb") as f:
            raw = f.read()
        code, ver, kw, nxt, dim = struct.unpack_from("<iiiqi", raw)
        need(code == 1 and ver in (3, 4) and kw == 3, "header")
        it, isz = ("q", 8) if ver == 4 else ("i", 4)
        pos = 24
        need(nxt == pos, f"next position {nxt}")
        pts = ref = None
        cells, cref = [], []
        names = {v[1]: v[0] for v in MEDIT.values()}
        while True:
            kw, nxt = struct.unpack_from("<iq", raw, pos)
            pos += 12
            if kw == 54:
                need(nxt == 0 and pos == len(raw), "end")
                break
            n = struct.unpack_from("<" + it, raw, pos)[0]
            pos += isz
            if kw == 4:
                a = np.frombuffer(raw, [("x", "<f8", dim), ("r", "<i%d" % isz)], n, pos)
                pos += a.nbytes
                pts, ref = a["x"].copy(), a["r"].copy()
            else:
                t = names[kw]
                a = np.frombuffer(raw, "<i%d" % isz, n * (NN[t] + 1), pos).reshape(n, -1)
                pos += a.nbytes
                cells += [(t, (r[:-1] - 1).tolist()) for r in a]
                cref += a[:, -1].tolist()
            need(pos == nxt, f"next keyword announced at {nxt}, found at {pos}")
    else:
        with open(path + ".mesh") as f:
            w = iter(re.sub(r"#.*", "", f.read()).split())
        need(next(w) == "MeshVersionFormatted", "first keyword")
        need(next(w) in ("1", "2"), "version")
        dim = pts = None
        cells, cref = [], []
        while True:
            k = next(w, None)
            need(k is not None, "End missing")
            if k == "End":
                need(next(w, None) is None, "data after End")
                break
            if k == "Dimension":
                dim = int(next(w))
            elif k == "Vertices":
                n = int(next(w))
                v = [[next(w) for _ in range(dim + 1)] for _ in range(n)]
                pts = np.array([[float(x) for x in r[:-1]] for r in v])
                ref = np.array([int(r[-1]) for r in v])
            else:
                need(k in MEDIT, f"keyword {k}")
                t = MEDIT[k][0]
                for _ in range(int(next(w))):
                    r = [int(next(w)) for _ in range(NN[t] + 1)]
                    cells.append((t, [x - 1 for x in r[:-1]]))
                    cref.append(r[-1])
    return dict(points=pts, cells=cells, point_data={"medit:ref": ref}, cell_data={"medit:ref": np.array(cref)})


# Netgen numbers volume elements with the opposite orientation; edge nodes as in
# libsrc/meshing/meshtype.cpp: meshio node i is Netgen node NETGEN[t][i]
NETGEN = {
    "triangle6": [0, 1, 2, 5, 3, 4], "quad8": [0, 1, 2, 3, 4, 7, 5, 6], "tetra": [0, 2, 1, 3],
    "tetra10": [0, 2, 1, 3, 5, 7, 4, 6, 9, 8], "pyramid": [0, 3, 2, 1, 4],
    "pyramid13": [0, 3, 2, 1, 4, 7, 6, 8, 5, 9, 12, 11, 10], "wedge": [0, 2, 1, 3, 5, 4],
    "wedge15": [0, 2, 1, 3, 5, 4, 7, 8, 6, 13, 14, 12, 9, 11, 10], "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5],
    "hexahedron20": [0, 3, 2, 1, 4, 7, 6, 5, 10, 9, 11, 8, 16, 19, 18, 17, 14, 13, 15, 12],
}
D2 = {3: "triangle", 6: "triangle6", 4: "quad", 8: "quad8"}
D3 = {4: "tetra", 5: "pyramid", 6: "wedge", 8: "hexahedron", 10: "tetra10", 13: "pyramid13", 15: "wedge15", 20: "hexahedron20"}


def decode_netgen(path, case=None):
    if case["o"] == "gz":
        with gzip.open(path + ".gz", "rt") as f:
            txt = f.read()
    else:
        with open(path) as f:
            txt = f.read()
    lines = [x.strip() for x in txt.split("\n")]
    lines = [x for x in lines if x and not x.startswith("#")]
    need(lines[0] == "mesh3d" and lines[-1] == "endmesh", "frame")
    i = 1
    pts = None
    cells, idx, names = [], [], {}
    dim = None
    codim = {"materials": 0, "bcnames": 1, "cd2names": 2, "cd3names": 3}
    while lines[i] != "endmesh":
        k = lines[i]
        n = int(lines[i + 1])
        i += 2
        if k == "dimension":
            dim = n
            continue
        if k == "geomtype":
            continue
        rows = [x.split() for x in lines[i:i + n]]
        need(len(rows) == n, "section too short")
        if k in codim:
            for r in rows:
                if len(r) > 1:
                    names[" ".join(r[1:])] = (int(r[0]), dim - codim[k])
            i += n
            continue
        i += n
        if k == "points":
            pts = np.array([[float(x) for x in r] for r in rows])
            need(pts.shape == (n, 3), "points")
            continue
        for r in rows:
            v = [int(x) for x in r]
            if k == "surfaceelements":
                m, ind, nodes = v[4], v[1], v[5:]
                t = D2[m]
            elif k == "volumeelements":
                m, ind, nodes = v[1], v[0], v[2:]
                t = D3[m]
            elif k == "edgesegmentsgi2":
                need(len(v) == 12, "edge segment")
                m, ind, nodes, t = 2, v[0], v[2:4], "line"
            elif k == "pointelements":
                m, ind, nodes, t = 1, v[1], v[:1], "vertex"
            else:
                raise Bad(f"section {k}")
            need(len(nodes) == m, f"{k}: {len(nodes)} nodes, {m} announced")
            g = [x - 1 for x in nodes]
            cells.append((t, [g[j] for j in NETGEN[t]] if t in NETGEN else g))
            idx.append(ind)
    return dict(points=pts[:, :dim], cells=cells, point_data={}, cell_data={"netgen:index": np.array(idx)}, names=names)


def decode_tetgen(path, case=None):
    def rows(p):
        with open(p) as f:
            r = [x.split("#")[0].split() for x in f]
        return [x for x in r if x]

    r = rows(path + ".node")
    n, d, na, nm = map(int, r[0])
    need(d == 3 and nm in (0, 1) and len(r) == n + 1, "node header")
    first = int(r[1][0]) if n else 0
    need([int(x[0]) for x in r[1:]] == list(range(first, first + n)), "node numbers")
    for x in r[1:]:
        need(len(x) == 4 + na + nm, "node row")
    a = np.array([[float(y) for y in x[1:]] for x in r[1:]]).reshape(n, 3 + na + nm)
    pd = {f"tetgen:attr{i + 1}": a[:, 3 + i] for i in range(na)}
    if nm:
        pd["tetgen:ref"] = a[:, -1]
    e = rows(path + ".ele")
    m, k, nt = map(int, e[0])
    need(k == 4 and len(e) == m + 1, "ele header")
    need([int(x[0]) for x in e[1:]] == list(range(first, first + m)), "element numbers")
    for x in e[1:]:
        need(len(x) == 5 + nt, "ele row")
    cd = {"tetgen:ref" + ("" if i == 0 else str(i + 1)): np.array([float(x[5 + i]) for x in e[1:]]) for i in range(nt)}
    return dict(points=a[:, :3], cells=[("tetra", [int(y) - first for y in x[1:5]]) for x in e[1:]], point_data=pd, cell_data=cd)


def decode_ugrid(path, case=None):
    o = case["o"]
    p = path + ("" if o == "ascii" else "." + o) + ".ugrid"
    names = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
    if o == "ascii":
        with open(p) as f:
            w = iter(f.read().split())
        cnt = [int(next(w)) for _ in range(7)]
        F = lambda n: [float(next(w)) for _ in range(n)]
        I = lambda n: [int(next(w)) for _ in range(n)]
        done = lambda: need(next(w, None) is None, "trailing data")
    else:
        with open(p, "rb") as f:
            raw = f.read()
        m = re.fullmatch(r"(l?)([br])([48])(l?)", o)
        bo = "<" if m.group(1) else ">"
        fdt = np.dtype(bo + "f" + m.group(3))
        idt = np.dtype(bo + ("i8" if m.group(4) else "i4"))
        st = [0]

        def take(dt, n):
            need(st[0] + dt.itemsize * n <= len(raw), "file too short")
            a = np.frombuffer(raw, dt, n, st[0])
            st[0] += a.nbytes
            return a.tolist()

        rec = np.dtype(bo + "i4")
        fort = m.group(2) == "r"
        if fort:
            need(take(rec, 1) == [28], "first record length")
        cnt = take(idt, 7)
        if fort:
            need(take(rec, 1) == [28], "first record end")
            ln = take(rec, 1)
            start = st[0]
        F = lambda n: take(fdt, n)
        I = lambda n: take(idt, n)

        def done():
            if fort:
                need(ln == [st[0] - start], f"second record length {ln}, is {st[0] - start}")
                need(take(rec, 1) == ln, "second record end")
            need(st[0] == len(raw), "trailing bytes")

    pts = np.array(F(3 * cnt[0])).reshape(-1, 3)
    c = {}
    for t, n in zip(names[:2], cnt[1:3]):
        c[t] = np.array(I(NN[t] * n), dtype=int).reshape(n, NN[t]) - 1
    tags = I(cnt[1] + cnt[2])
    for t, n in zip(names[2:], cnt[3:]):
        c[t] = np.array(I(NN[t] * n), dtype=int).reshape(n, NN[t]) - 1
    done()
    # AFLR: 1,4,5,2 is the quad face of a pyramid and 3 the apex
    c["pyramid"] = c["pyramid"][:, [1, 0, 3, 4, 2]]
    cells = [(t, r.tolist()) for t in names for r in c[t]]
    return dict(points=pts, cells=cells, point_data={},
                cell_data={"ugrid:ref": np.array(tags + [0] * sum(cnt[3:]))})


UCD = {"pt": "vertex", "line": "line", "tri": "triangle", "quad": "quad", "tet": "tetra", "pyr": "pyramid", "prism": "wedge", "hex": "hexahedron"}
# AVS lists the apex of a pyramid and the top of prisms and bricks first
UCD_ORDER = {"tetra": [0, 1, 3, 2], "pyramid": [4, 0, 1, 2, 3], "wedge": [3, 4, 5, 0, 1, 2], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3]}


def decode_avsucd(path, case=None):
    with open(path) as f:
        lines = [x.rstrip("\n") for x in f]
    while lines and lines[0].startswith("#"):
        lines.pop(0)
    n, m, nd, cd, md = map(int, lines[0].split())
    i = 1
    ids, pts = {}, []
    for ln in lines[i:i + n]:
        w = ln.split()
        ids[int(w[0])] = len(pts)
        pts.append([float(x) for x in w[1:]])
    i += n
    cells, mat, cid = [], [], {}
    for ln in lines[i:i + m]:
        w = ln.split()
        cid[int(w[0])] = len(cells)
        mat.append(int(w[1]))
        t = UCD[w[2]]
        g = [ids[int(x)] for x in w[3:]]
        need(len(g) == NN[t], "node count")
        if t in UCD_ORDER:
            h = [None] * len(g)
            for a, b in enumerate(UCD_ORDER[t]):
                h[b] = g[a]
            g = h
        cells.append((t, g))
    i += m
    out = dict(points=np.array(pts), cells=cells, point_data={}, cell_data={"avsucd:material": np.array(mat)})
    for tot, key, idm in ((nd, "point_data", ids), (cd, "cell_data", cid)):
        if not tot:
            continue
        w = [int(x) for x in lines[i].split()]
        need(len(w) == w[0] + 1 and sum(w[1:]) == tot, f"components {w}, total {tot}")
        i += 1
        labels = []
        for k in range(w[0]):
            need("," in lines[i], "label, unit")
            labels.append(lines[i].split(",")[0].strip())
            i += 1
        a = np.full((len(idm), tot), np.nan)
        for _ in range(len(idm)):
            r = lines[i].split()
            need(len(r) == tot + 1, "data row")
            a[idm[int(r[0])]] = [float(x) for x in r[1:]]
            i += 1
        j = 0
        for lb, c in zip(labels, w[1:]):
            out[key][lb] = a[:, j] if c == 1 else a[:, j:j + c]
            j += c
    need(i == len(lines), "trailing lines")
    return out


def decode_dolfin(path, case=None):
    root = ET.parse(path).getroot()
    need(root.tag == "dolfin", "root")
    m = root.find("mesh")
    ct = m.get("celltype")
    dim = int(m.get("dim"))
    t = {"triangle": "triangle", "tetrahedron": "tetra"}[ct]
    v = m.find("vertices")
    need(len(v) == int(v.get("size")), "vertices size")
    pts = np.empty((len(v), dim))
    for e in v:
        need(set("xyz"[:dim]) <= set(e.attrib), "coordinates")
        pts[int(e.get("index"))] = [float(e.get(k)) for k in "xyz"[:dim]]
    c = m.find("cells")
    need(len(c) == int(c.get("size")), "cells size")
    need([int(e.get("index")) for e in c] == list(range(len(c))), "cell index")
    cells = []
    for e in c:
        need(e.tag == ct, "cell element")
        cells.append((t, [int(e.get(f"v{k}")) for k in range(NN[t])]))
    cd = {}
    stem = os.path.splitext(path)[0]
    for p in glob.glob(stem + "_*.xml"):
        mf = ET.parse(p).getroot().find("mesh_function")
        need(int(mf.get("size")) == len(cells) == len(mf), "mesh function size")
        a = [None] * len(cells)
        for e in mf:
            a[int(e.get("index"))] = float(e.get("value"))
        cd[os.path.basename(p)[len(os.path.basename(stem)) + 1:-4]] = np.array(a)
    return dict(points=pts, cells=cells, point_data={}, cell_data=cd)


SU2 = {3: "line", 5: "triangle", 9: "quad", 10: "tetra", 12: "hexahedron", 13: "wedge", 14: "pyramid"}


def decode_su2(path, case=None):
    with open(path) as f:
        lines = [x.split("%")[0].strip() for x in f]
    lines = [x for x in lines if x]
    i = 0

    def key(name):
        nonlocal i
        k, v = [x.strip() for x in lines[i].split("=")]
        need(k == name, f"{name} expected, {k} found")
        i += 1
        return v

    dim = int(key("NDIME"))
    pts, inner, marks = None, [], []
    n = int(key("NPOIN"))
    pts = np.array([[float(x) for x in lines[i + k].split()[:dim]] for k in range(n)]).reshape(n, dim)
    i += n

    def elems(m, allowed):
        nonlocal i
        out = []
        for _ in range(m):
            w = [int(x) for x in lines[i].split()]
            i += 1
            t = SU2[w[0]]
            need(len(w) in (NN[t] + 1, NN[t] + 2), "element row")
            need(t in allowed, f"{t} in this section")
            out.append((t, w[1:1 + NN[t]]))
        return out

    inner = elems(int(key("NELEM")), ("triangle", "quad") if dim == 2 else ("tetra", "hexahedron", "wedge", "pyramid"))
    nm = int(key("NMARK"))
    bd = []
    names = set()
    for _ in range(nm):
        tag = key("MARKER_TAG")
        need(tag not in names, "marker tag twice")
        names.add(tag)
        for e in elems(int(key("MARKER_ELEMS")), ("line",) if dim == 2 else ("triangle", "quad")):
            bd.append((e, int(tag)))
    need(i == len(lines), "trailing lines")
    return dict(points=pts, inner=inner, boundary=bd)


def decode_tecplot(path, case=None):
    with open(path) as f:
        txt = f.read()
    m = re.match(r'TITLE\s*=\s*"[^"]*"\s*VARIABLES\s*=\s*((?:"[^"]*"\s*,?\s*)+)ZONE\s+', txt)
    need(m, "header")
    var = re.findall(r'"([^"]*)"', m.group(1))
    rest = txt[m.end():]
    hd = re.match(r"NODES\s*=\s*(\d+)\s*,\s*ELEMENTS\s*=\s*(\d+)\s*,\s*DATAPACKING\s*=\s*BLOCK\s*,\s*ZONETYPE\s*=\s*(\w+)"
                  r"(?:\s*,\s*VARLOCATION\s*=\s*\(\[(\d+)(?:-(\d+))?\]\s*=\s*CELLCENTERED\))?\s*\n", rest)
    need(hd, f"zone header {rest[:80]!r}")
    n, e, zt = int(hd.group(1)), int(hd.group(2)), hd.group(3)
    lo = int(hd.group(4)) if hd.group(4) else 10 ** 9
    hi = int(hd.group(5)) if hd.group(5) else lo
    w = iter(rest[hd.end():].split())
    vals = []
    for i in range(len(var)):
        k = e if lo <= i + 1 <= hi else n
        vals.append(np.array([float(next(w)) for _ in range(k)]))
    t, nn = {"FELINESEG": ("line", 2), "FETRIANGLE": ("triangle", 3), "FEQUADRILATERAL": ("quad", 4), "FETETRAHEDRON": ("tetra", 4),
             "FEBRICK": ("hexahedron", 8)}[zt]
    cells = [(t, [int(next(w)) - 1 for _ in range(nn)]) for _ in range(e)]
    need(next(w, None) is None, "trailing data")
    for ln in rest.split("\n"):
        need(len(ln) <= 32000, "line longer than 32000 characters")
    nx = 3 if len(var) > 2 and var[2] == "Z" else 2
    need(var[:nx] == ["X", "Y", "Z"][:nx], "coordinates first")
    out = dict(points=np.column_stack(vals[:nx]), cells=cells, point_data={}, cell_data={})
    for i in range(nx, len(var)):
        out["cell_data" if lo <= i + 1 <= hi else "point_data"][var[i].replace(" ", "_")] = vals[i]
    return out


# FLAC3D zone numbering: file node j is meshio node FLAC[t][j]
FLAC = {"T4": ("tetra", [0, 1, 2, 3]), "P5": ("pyramid", [0, 1, 3, 4, 2]), "W6": ("wedge", [0, 1, 3, 2, 4, 5]),
        "B8": ("hexahedron", [0, 1, 3, 4, 2, 7, 5, 6]), "T3": ("triangle", [0, 1, 2]), "Q4": ("quad", [0, 1, 2, 3])}
FLACN = {("zone", 4): "T4", ("zone", 5): "P5", ("zone", 6): "W6", ("zone", 8): "B8", ("face", 3): "T3", ("face", 4): "Q4"}


def decode_flac3d(path, case=None):
    out = {}
    if case["o"] == "bin":
        with open(path, "rb") as f:
            raw = f.read()
        pos = 0

        def u(fmt="I"):
            nonlocal pos
            v = struct.unpack_from("<" + fmt, raw, pos)
            pos += struct.calcsize("<" + fmt)
            return v[0] if len(v) == 1 else v

        need(u() == 1375135718 and u() == 3, "magic")
        n = u()
        pts = []
        for i in range(n):
            k, x, y, z = u("Iddd")
            need(k == i + 1, "gridpoint id")
            pts.append([x, y, z])
        cells, groups = {}, {}
        for flag in ("zone", "face"):
            lst = []
            for i in range(u()):
                k, m = u("II")
                need(k == i + 1, f"{flag} id {k}")
                lst.append((FLACN[(flag, m)], [u() for _ in range(m)]))
            cells[flag] = lst
            for _ in range(u()):
                nm = u(f"{u('H')}s").decode()
                slot = u(f"{u('H')}s").decode()
                groups[(flag, nm, slot)] = [u() for _ in range(u())]
        need(pos == len(raw), "trailing bytes")
    else:
        pts, cells, groups = [], {"zone": [], "face": []}, {}
        cur = None
        with open(path, encoding="utf-8") as f:
            for ln in f:
                if ln.startswith("*") or not ln.strip():
                    continue
                w = ln.split()
                if w[0] == "G":
                    need(int(w[1]) == len(pts) + 1, "gridpoint id")
                    pts.append([float(x) for x in w[2:]])
                elif w[0] in ("Z", "F"):
                    flag = "zone" if w[0] == "Z" else "face"
                    need(int(w[2]) == len(cells[flag]) + 1, f"{flag} id")
                    cells[flag].append((w[1], [int(x) for x in w[3:]]))
                elif w[0] in ("ZGROUP", "FGROUP"):
                    m = re.fullmatch(r'[ZF]GROUP\s+"([^"]*)"\s+SLOT\s+(\S+)\s*', ln)
                    need(m, "group line")
                    cur = groups.setdefault(("zone" if w[0] == "ZGROUP" else "face", m.group(1), m.group(2)), [])
                else:
                    cur.extend(int(x) for x in w)
    flat = []
    for flag in ("face", "zone"):
        for code, g in cells[flag]:
            t, order = FLAC[code]
            need(len(g) == len(order), "node count")
            h = [None] * len(g)
            for a, b in enumerate(order):
                h[b] = g[a] - 1
            flat.append((t, h))
    return dict(points=np.array(pts), cells=flat, point_data={}, cell_data={}, groups=groups, nface=len(cells["face"]))
