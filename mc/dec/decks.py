"""Abaqus, Nastran, Permas, Ansys (Fluent), MDPA."""
import re
import struct

import numpy as np

from ..alphabet import NN
from . import Bad, need, spec

ABAQUS = {"T3D2": "line", "T3D3": "line3", "B31": "line", "B32": "line3", "S3": "triangle", "CPS3": "triangle", "STRI3": "triangle",
          "S4": "quad", "S4R": "quad", "S8R": "quad8", "S8": "quad8", "S9R5": "quad9", "STRI65": "triangle6", "C3D8": "hexahedron",
          "C3D8R": "hexahedron", "C3D20": "hexahedron20", "C3D4": "tetra", "C3D10": "tetra10", "C3D10M": "tetra10", "C3D6": "wedge",
          "C3D15": "wedge15", "CPS4": "quad", "CPS4R": "quad", "CPS6": "triangle6", "CPE6": "triangle6", "CAX8P": "quad8", "CAX6": "triangle6",
          "T2D2": "line", "T2D3": "line3", "C3D20R": "hexahedron20",
          "B31H": "line", "B33H": "line3", "CAX4P": "quad", "S8R5": "quad8", "R3D3": "triangle", "C3D8RH": "hexahedron",
          "C3D20RH": "hexahedron20", "C3D4H": "tetra", "C3D10MH": "tetra10", "B21": "line", "B22": "line3", "B21H": "line", "B22H": "line3",
          "B32H": "line3", "B33": "line3", "T2D2H": "line", "T2D3H": "line3", "T3D2H": "line", "T3D3H": "line3", "CPE3": "triangle",
          "CPE4": "quad", "CPE4R": "quad", "CPE8": "quad8", "CPE8R": "quad8", "CPS8": "quad8", "CPS8R": "quad8", "CAX3": "triangle",
          "CAX4": "quad", "CAX4R": "quad", "CAX8": "quad8", "CAX8R": "quad8", "S3R": "triangle", "S3RS": "triangle", "S4RS": "quad",
          "S4RSW": "quad", "S4R5": "quad", "R3D4": "quad", "C3D8H": "hexahedron", "C3D8I": "hexahedron", "C3D8IH": "hexahedron",
          "C3D20H": "hexahedron20", "C3D10H": "tetra10", "C3D10I": "tetra10", "C3D6H": "wedge", "C3D15H": "wedge15"}


def decode_abaqus(path, case=None):
    nodes, ids, cells, elid = [], {}, [], {}
    ns, es = {}, {}
    sec = None
    acc = []
    with open(path) as f:
        lines = f.read().split("\n")
    pending = []
    for ln in lines:
        if ln.startswith("**") or not ln.strip():
            continue
        if ln.startswith("*"):
            need(not pending, "unfinished element")
            w = [x.strip() for x in ln[1:].split(",")]
            kw = w[0].upper()
            par = {}
            for x in w[1:]:
                k, _, v = x.partition("=")
                par[k.strip().upper()] = v.strip()
            sec = (kw, par)
            if kw == "NSET":
                cur = ns.setdefault(par["NSET"], [])
            elif kw == "ELSET":
                cur = es.setdefault(par["ELSET"], [])
            continue
        w = [x.strip() for x in ln.split(",")]
        need(len(ln) <= 256, "line too long")
        if sec[0] == "NODE":
            i = int(w[0])
            need(i not in ids, "duplicate node")
            ids[i] = len(nodes)
            nodes.append([float(x) for x in w[1:]])
        elif sec[0] == "ELEMENT":
            need(len(w) <= 17 or True, "")
            cont = w[-1] == ""
            pending += [int(x) for x in w if x]
            t = ABAQUS[sec[1]["TYPE"].upper()]
            if cont and len(pending) < 1 + NN[t]:
                continue
            need(len(pending) == 1 + NN[t], f"{t} with {len(pending) - 1} nodes")
            need(pending[0] not in elid, "duplicate element")
            elid[pending[0]] = len(cells)
            cells.append((t, [ids[x] for x in pending[1:]]))
            pending = []
        elif sec[0] in ("NSET", "ELSET"):
            need(len([x for x in w if x]) <= 16, "more than 16 entries per line")
            m = ids if sec[0] == "NSET" else elid
            cur.extend(m[int(x)] for x in w if x)
        elif sec[0] not in ("HEADING",):
            raise Bad(f"data under {sec}")
    need(not pending, "unfinished element")
    return dict(points=np.array(nodes), cells=cells, point_data={}, cell_data={},
                point_sets=ns, cell_sets=es)


NAS = {"CBEAM": "line", "CBAR": "line", "CROD": "line", "CBUSH": "line", "CTRIA3": "triangle", "CTRIA6": "triangle6", "CTRIAR": "triangle",
       "CQUAD4": "quad", "CQUAD8": "quad8", "CQUADR": "quad", "CQUAD": "quad9", "CTETRA": ("tetra", "tetra10"), "CPYRAM": ("pyramid", "pyramid13"),
       "CPENTA": ("wedge", "wedge15"), "CHEXA": ("hexahedron", "hexahedron20"), "CTRIAX": "triangle6", "CTRIAX6": "triangle6", "CELAS1": "vertex",
       "CTRAX6": "triangle6", "CPYRA": ("pyramid", "pyramid13"), "CQUAD9": "quad9", "CTRAX3": "triangle", "CQUADX": "quad9"}


def nasfloat(s):
    s = s.strip().upper().replace("D", "E")
    m = re.fullmatch(r"([+-]?\d*\.\d*|[+-]?\d+)([+-]\d+)", s)
    if m:
        return float(m.group(1) + "E" + m.group(2))
    need("." in s, f"a real needs a decimal point: {s!r}")
    return float(s)


def decode_nastran(path, case=None):
    with open(path) as f:
        lines = f.read().split("\n")
    i = next(k for k, x in enumerate(lines) if x.strip().upper().startswith("BEGIN BULK"))
    cards = []
    prev_cont = None
    ended = False
    for ln in lines[i + 1:]:
        if not ln.strip() or ln.startswith("$"):
            continue
        if ln.strip().upper() == "ENDDATA":
            ended = True
            break
        need(len(ln) <= 80 or "," in ln, f"card longer than 80 columns: {ln!r}")
        if "," in ln:
            fl = [x.strip() for x in ln.split(",")]
            name, body = fl[0], fl[1:]
            need(len(body) <= 9, "more than 9 fields in a free-field card")
            for x in body[:8]:
                need(len(x) <= 16, f"free field {x!r}")
            cont_out = body[8] if len(body) > 8 else ""
            body = (body + [""] * 8)[:8]
            large = name.endswith("*")
            if large:
                body = body[:4]
        else:
            name = ln[:8].strip()
            large = "*" in name
            if large:
                body = [ln[8 + 16 * k:24 + 16 * k].strip() for k in range(4)]
            else:
                body = [ln[8 + 8 * k:16 + 8 * k].strip() for k in range(8)]
            cont_out = ln[72:80].strip()
        if name == "" or name[0] in "+*":
            need(cards and prev_cont is not None, f"continuation without parent: {ln!r}")
            need(name.lstrip("+*") == prev_cont.lstrip("+*") or name in ("", "+", "*"), f"continuation field {name!r} after {prev_cont!r}")
            cards[-1][1].extend(body)
        else:
            cards.append((name.rstrip("*"), list(body)))
        prev_cont = cont_out
    need(ended, "ENDDATA missing")
    pts, pid, pref = [], {}, []
    for nm, b in cards:
        if nm == "GRID":
            k = int(b[0])
            need(k not in pid, "duplicate grid")
            pid[k] = len(pts)
            pts.append([nasfloat(x) if x else 0.0 for x in b[2:5]])
            pref.append(int(b[1]) if b[1] else None)
    cells, cref, eid = [], [], set()
    for nm, b in cards:
        if nm == "GRID":
            continue
        nm = nm.rstrip("_")
        need(nm in NAS, f"card {nm}")
        e = int(b[0])
        need(e not in eid, "duplicate element")
        eid.add(e)
        g = [x for x in b[2:]]
        while g and g[-1] == "":
            g.pop()
        need(all(g), f"blank grid reference in {nm}")
        t = NAS[nm]
        if isinstance(t, tuple):
            t = t[0] if len(g) == NN[t[0]] else t[1]
        need(len(g) == NN[t], f"{nm} with {len(g)} grids")
        nodes = [pid[int(x)] for x in g]
        cells.append((t, spec.apply(t, nodes, spec.NASTRAN_EDGES)))
        cref.append(int(b[1]) if b[1] else None)
    out = dict(points=np.array(pts), cells=cells, point_data={}, cell_data={})
    if any(x is not None for x in pref):
        out["point_data"]["nastran:ref"] = np.array(pref, dtype=float)
    if any(x is not None for x in cref):
        out["cell_data"]["nastran:ref"] = np.array(cref, dtype=float)
    return out


PERMAS = {"PLOT1": "vertex", "PLOTL2": "line", "FLA2": "line", "FLA3": "line3", "PLOTL3": "line3", "BECOS": "line", "TRIA3": "triangle",
          "TRIA3K": "triangle", "PLOTA3": "triangle", "TRIA6": "triangle6", "TRIM6": "triangle6", "PLOTA6": "triangle6", "FSCPIPE2": "line",
          "QUAD4": "quad", "PLOTA4": "quad", "QUAD8": "quad8", "QUAMS4": "quad", "QUAMS8": "quad8", "QUAMS9": "quad9", "QUAD9": "quad9", "PLOTA8": "quad8",
          "PLOTA9": "quad9", "HEXE8": "hexahedron", "HEXFO8": "hexahedron", "HEXE20": "hexahedron20", "HEXE27": "hexahedron27", "TET4": "tetra",
          "TET10": "tetra10", "PYRA5": "pyramid", "PENTA6": "wedge", "PENTA15": "wedge15", "BECOC": "line", "BETOP": "line", "SHELL4": "quad", "SHELL3": "triangle", "TRIMS3": "triangle", "TRIMS6": "triangle6", "FSTETRA4": "tetra"}
# PERMAS numbers corner and mid-side nodes alternately along the element
PERMAS_ORDER = {"triangle6": [0, 3, 1, 4, 2, 5], "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3], "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
                "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]}


def decode_permas(path, case=None):
    with open(path) as f:
        lines = f.read().split("\n")
    nodes, ids, cells, eid = [], {}, [], set()
    sec = None
    stack = []
    buf = ""
    for ln in lines:
        ln = ln.split("!")[0].rstrip()
        if not ln.strip():
            continue
        if buf:
            need(ln.startswith("&"), f"continuation expected: {ln!r}")
        if ln.lstrip().startswith("&"):
            buf += " " + ln.lstrip()[1:]
            ln = buf
            buf = ""
        if ln.lstrip().startswith("$"):
            w = ln.split()
            kw = w[0][1:].upper()
            if kw.startswith("ENTER"):
                stack.append("ENTER")
            elif kw == "STRUCTURE":
                stack.append("STRUCTURE")
            elif kw == "END" or kw.startswith("EXIT") or kw == "FIN":
                pass
            sec = (kw, ln.upper())
            continue
        w = ln.split()
        if sec[0] == "COOR":
            k = int(w[0])
            need(k not in ids, "duplicate node")
            ids[k] = len(nodes)
            nodes.append([float(x) for x in w[1:]])
        elif sec[0] == "ELEMENT":
            m = re.search(r"TYPE\s*=\s*(\w+)", sec[1])
            t = PERMAS[m.group(1)]
            need(len(w) <= 1 + NN[t], "too many nodes")
            if len(w) < 1 + NN[t]:
                buf = ln
                continue
            k = int(w[0])
            need(k not in eid, "duplicate element")
            eid.add(k)
            g = [ids[int(x)] for x in w[1:]]
            if t in PERMAS_ORDER:
                h = [None] * len(g)
                for a, b in enumerate(PERMAS_ORDER[t]):
                    h[b] = g[a]
                g = h
            cells.append((t, g))
    return dict(points=np.array(nodes), cells=cells, point_data={}, cell_data={})


ANS = {1: "triangle", 2: "tetra", 3: "quad", 4: "hexahedron", 5: "pyramid", 6: "wedge"}


def decode_ansys(path, case=None):
    """what meshio calls ansys: nodes (10/2010/3010), cells (12/2012/3012) with explicit nodes"""
    with open(path, "rb") as f:
        raw = f.read()
    pos = 0
    pts, cells, decl = [], [], {}

    def ws():
        nonlocal pos
        while pos < len(raw) and raw[pos:pos + 1].isspace():
            pos += 1

    while True:
        ws()
        if pos >= len(raw):
            break
        m = re.compile(rb"\((\d+)\s").match(raw, pos)
        need(m, f"section expected at {pos}: {raw[pos:pos + 30]!r}")
        idx = int(m.group(1))
        pos = m.end()
        if idx in (0, 1):
            j = raw.index(b'")', pos)
            pos = j + 2
            continue
        if idx == 2:
            j = raw.index(b")", pos)
            dim = int(raw[pos:j])
            pos = j + 1
            continue
        m = re.compile(rb"\s*\(([^()]*)\)").match(raw, pos)
        need(m, "section header")
        w = [int(x, 16) for x in m.group(1).split()]
        pos = m.end()
        kind = idx % 1000 if idx >= 2000 else idx
        if w[0] == 0:
            decl[kind] = w
            ws()
            need(raw[pos:pos + 1] == b")", "declaration not closed")
            pos += 1
            continue
        m = re.compile(rb"\s*\(\r?\n?").match(raw, pos)
        need(m, "body expected")
        pos = m.end()
        n = w[2] - w[1] + 1
        if kind == 10:
            nd = w[4] if len(w) > 4 else dim
            if idx < 2000:
                j = raw.index(b")", pos)
                v = [float(x) for x in raw[pos:j].split()]
                pos = j
            else:
                size = 8 if idx >= 3000 else 4
                v = np.frombuffer(raw, "<f8" if size == 8 else "<f4", n * nd, pos).tolist()
                pos += n * nd * size
            need(len(v) == n * nd, "node count")
            pts.append(np.array(v).reshape(n, nd))
        elif kind == 12:
            t = ANS[w[4]]
            k = NN[t]
            if idx < 2000:
                j = raw.index(b")", pos)
                v = [int(x, 16) for x in raw[pos:j].split()]
                pos = j
            else:
                size = 8 if idx >= 3000 else 4
                v = np.frombuffer(raw, "<i8" if size == 8 else "<i4", n * k, pos).tolist()
                pos += n * k * size
            need(len(v) == n * k, f"cell count: {len(v)} values, {n} cells")
            cells += [(t, [x - 1 for x in v[k * a:k * a + k]]) for a in range(n)]
        else:
            raise Bad(f"section {idx}")
        m = re.compile(rb"\s*\)\s*\)|\s*\)?End of Binary Section\s+\d+\)|\s*\)\s*End of Binary Section\s+\d+\s*\)").match(raw, pos)
        need(m, f"section not closed: {raw[pos:pos + 40]!r}")
        pos = m.end()
    return dict(points=np.concatenate(pts), cells=[(t, [x for x in c]) for t, c in cells], point_data={}, cell_data={}, decl=decl)


def decode_mdpa(path, case=None):
    with open(path) as f:
        lines = [x.split("//")[0].strip() for x in f]
    nodes, ids, cells = [], {}, []
    sec = None
    nd = None
    data = {}
    eid = set()
    for ln in lines:
        if not ln:
            continue
        w = ln.split()
        if w[0] == "Begin":
            need(sec is None or sec[0] == "SubModelPart", f"nested {ln}")
            sec = w[1:]
        elif w[0] == "End":
            need(sec is not None and w[1] == sec[0], f"{ln} closes {sec}")
            sec = None
        elif sec[0] == "Nodes":
            k = int(w[0])
            need(k not in ids, "duplicate node")
            ids[k] = len(nodes)
            nodes.append([float(x) for x in w[1:]])
        elif sec[0] in ("Elements", "Conditions"):
            k = int(w[0])
            need((sec[0], k) not in eid, "duplicate element")
            eid.add((sec[0], k))
            cells.append((sec[1], [ids[int(x)] for x in w[2:]]))
        elif sec[0] in ("ModelPartData", "Properties"):
            pass
        elif sec[0] in ("NodalData", "ElementalData", "ConditionalData"):
            data.setdefault((sec[0], sec[1]), []).append(w)
    need(sec is None, "unclosed section")
    return dict(points=np.array(nodes), cells=cells, point_data={}, cell_data={}, data=data)
