"""STL, PLY, OBJ, OFF, WKT, Neuroglancer, SVG."""
import re
import struct
from xml.etree import ElementTree as ET

import numpy as np

from . import Bad, need


def decode_stl(path, case=None):
    """-> facets (m,3,3), normals (m,3), attr"""
    with open(path, "rb") as f:
        raw = f.read()
    if case["o"] == "bin":
        need(not raw.startswith(b"solid"), "a binary file must not start with 'solid'")
        n = struct.unpack("<I", raw[80:84])[0]
        need(len(raw) == 84 + 50 * n, f"{len(raw)} bytes for {n} facets")
        a = np.frombuffer(raw[84:], dtype=[("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")])
        need((a["a"] == 0).all(), "attribute byte count not zero")
        return dict(facets=a["v"].copy(), normals=a["n"].copy())
    t = raw.decode("ascii").split()
    need(t[0] == "solid" and t[-1] == "endsolid" or t[-2] == "endsolid", "solid ... endsolid")
    num = r"(\S+)\s+(\S+)\s+(\S+)"
    pat = re.compile(r"facet\s+normal\s+" + num + r"\s+outer\s+loop\s+vertex\s+" + num + r"\s+vertex\s+" + num
                     + r"\s+vertex\s+" + num + r"\s+endloop\s+endfacet\s*")
    body = raw.decode("ascii").split("\n", 1)[1]
    pos = 0
    F, N = [], []
    while True:
        m = pat.match(body, pos)
        if not m:
            break
        v = [float(x) for x in m.groups()]
        N.append(v[:3])
        F.append(np.array(v[3:]).reshape(3, 3))
        pos = m.end()
    need(body[pos:].split()[:1] == ["endsolid"], f"junk {body[pos:pos + 40]!r}")
    return dict(facets=np.array(F).reshape(-1, 3, 3), normals=np.array(N).reshape(-1, 3))


PLY = {"char": "i1", "uchar": "u1", "short": "i2", "ushort": "u2", "int": "i4", "uint": "u4", "float": "f4", "double": "f8",
       "int8": "i1", "uint8": "u1", "int16": "i2", "uint16": "u2", "int32": "i4", "uint32": "u4", "float32": "f4",
       "float64": "f8", "int64": "i8", "uint64": "u8"}


def decode_ply(path, case=None):
    with open(path, "rb") as f:
        raw = f.read()
    j = raw.index(b"end_header\n") + len(b"end_header\n")
    head = raw[:j].decode("ascii").split("\n")
    need(head[0] == "ply", "magic")
    fm = head[1].split()
    need(fm[0] == "format" and fm[2] == "1.0", "format line")
    bo = {"ascii": None, "binary_little_endian": "<", "binary_big_endian": ">"}[fm[1]]
    elements = []
    for ln in head[2:]:
        w = ln.split()
        if not w or w[0] in ("comment", "obj_info", "end_header"):
            continue
        if w[0] == "element":
            elements.append((w[1], int(w[2]), []))
        elif w[0] == "property":
            elements[-1][2].append(w[1:])
        else:
            raise Bad(f"header line {ln!r}")
    pos = j
    toks = iter(raw[j:].split()) if bo is None else None

    def val(kind):
        nonlocal pos
        dt = np.dtype(PLY[kind])
        if bo is None:
            x = next(toks, None)
            need(x is not None, "data too short")
            return dt.type(x.decode()) if dt.kind == "f" else int(x)
        v = np.frombuffer(raw, dt.newbyteorder(bo), 1, pos)[0]
        pos += dt.itemsize
        return v.astype(dt)

    out = {}
    dts = {}
    for name, n, props in elements:
        rows = []
        for _ in range(n):
            r = {}
            for p in props:
                if p[0] == "list":
                    r[p[3]] = [int(val(p[2])) for _ in range(int(val(p[1])))]
                else:
                    r[p[1]] = val(p[0])
            rows.append(r)
        out[name] = rows
        dts[name] = {p[-1]: p for p in props}
    if bo is None:
        need(next(toks, None) is None, "trailing data")
    else:
        need(pos == len(raw), f"trailing bytes: {len(raw) - pos}")
    names = [p for p in dts["vertex"]]
    n = len(out["vertex"])
    xyz = [k for k in names if k in ("x", "y", "z")]
    pts = np.array([[r[k] for k in xyz] for r in out["vertex"]], dtype=PLY[dts["vertex"]["x"][0]]).reshape(n, len(xyz))
    pd = {k: np.array([r[k] for r in out["vertex"]], dtype=PLY[dts["vertex"][k][0]]) for k in names if k not in xyz}
    key = {"vertex_indices", "vertex_index"} & set(dts.get("face", {}))
    faces = [r[list(key)[0]] for r in out.get("face", [])]
    name = {1: "vertex", 2: "line", 3: "triangle", 4: "quad"}
    return dict(points=pts, cells=[(name.get(len(f), "polygon"), f) for f in faces], point_data=pd, cell_data={})


def decode_obj(path, case=None):
    v, vn, vt, faces = [], [], [], []
    with open(path) as f:
        for ln in f:
            w = ln.split("#")[0].split()
            if not w:
                continue
            if w[0] == "v":
                need(len(w) == 4, "v")
                v.append([float(x) for x in w[1:]])
            elif w[0] == "vn":
                vn.append([float(x) for x in w[1:]])
            elif w[0] == "vt":
                vt.append([float(x) for x in w[1:]])
            elif w[0] == "f":
                ids = [[int(y) if y else None for y in x.split("/")] for x in w[1:]]
                for i in ids:
                    need(all(y is None or y == i[0] for y in i[1:]), "texture/normal index differs from the vertex")
                    need(1 <= i[0] <= len(v), f"vertex reference {i[0]}")
                faces.append([i[0] - 1 for i in ids])
            elif w[0] not in ("g", "o", "s", "usemtl", "mtllib"):
                raise Bad(f"line {ln!r}")
    name = {3: "triangle", 4: "quad"}
    pd = {}
    if vn:
        pd["obj:vn"] = np.array(vn)
    if vt:
        pd["obj:vt"] = np.array(vt)
    return dict(points=np.array(v), cells=[(name.get(len(f), "polygon"), f) for f in faces], point_data=pd, cell_data={})


def decode_off(path, case=None):
    with open(path) as f:
        lines = [x.split("#")[0].strip() for x in f]
    lines = [x for x in lines if x]
    need(lines[0] == "OFF", "magic")
    w = " ".join(lines[1:]).split()
    n, m, _ = int(w[0]), int(w[1]), int(w[2])
    pts = np.array([float(x) for x in w[3:3 + 3 * n]]).reshape(n, 3)
    j = 3 + 3 * n
    cells = []
    for _ in range(m):
        k = int(w[j])
        need(k == 3, "face size")
        cells.append(("triangle", [int(x) for x in w[j + 1:j + 1 + k]]))
        j += 1 + k
    need(j == len(w), "trailing data")
    return dict(points=pts, cells=cells, point_data={}, cell_data={})


def decode_wkt(path, case=None):
    with open(path) as f:
        s = f.read().strip()
    m = re.fullmatch(r"TIN\s*(?:Z\s*)?\((.*)\)", s, re.S)
    need(m, f"not a TIN: {s[:40]!r}")
    F = []
    body = m.group(1).strip()
    for part in re.findall(r"\(\(([^()]*)\)\)", body):
        p = [[float(x) for x in q.split()] for q in part.split(",")]
        need(len(p) == 4 and p[0] == p[3], "ring not closed")
        F.append(p[:3])
    need(re.sub(r"\(\([^()]*\)\)", "", body).replace(",", "").strip() == "", "junk between the polygons")
    return dict(facets=np.array(F).reshape(-1, 3, 3))


def decode_ng(path, case=None):
    with open(path, "rb") as f:
        raw = f.read()
    n = struct.unpack("<I", raw[:4])[0]
    p = np.frombuffer(raw, "<f4", 3 * n, 4).reshape(n, 3)
    rest = raw[4 + 12 * n:]
    need(len(rest) % 12 == 0, "face bytes")
    c = np.frombuffer(rest, "<u4").reshape(-1, 3)
    return dict(points=p, cells=[("triangle", r.tolist()) for r in c], point_data={}, cell_data={})


def decode_svg(path, case=None):
    root = ET.parse(path).getroot()
    need(root.tag == "{http://www.w3.org/2000/svg}svg", "root")
    box = [float(x) for x in root.get("viewBox").split()]
    out = []
    for e in root:
        if not e.tag.endswith("}path"):
            continue
        d = e.get("d")
        closed = d.endswith("Z")
        pts = re.findall(r"[ML]\s*(\S+?)\s+([^\sLMZ]+)", d)
        need(d.startswith("M"), "path")
        out.append((closed, [[float(a), float(b)] for a, b in pts]))
    return dict(box=box, paths=out)
