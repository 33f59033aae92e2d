"""Legacy VTK 2.0-4.2 / 5.1 and VTU."""
import base64
import lzma
import re
import zlib
from xml.etree import ElementTree as ET

import numpy as np

from ..alphabet import NN
from . import Bad, need, spec

LEG = {"unsigned_char": "u1", "char": "i1", "unsigned_short": "u2", "short": "i2", "unsigned_int": "u4", "int": "i4",
       "unsigned_long": "u8", "long": "i8", "float": "f4", "double": "f8", "vtktypeint64": "i8", "vtktypeint32": "i4",
       "vtktypeint16": "i2", "vtktypeint8": "i1", "vtktypeuint64": "u8", "vtktypeuint32": "u4", "vtktypeuint16": "u2",
       "vtktypeuint8": "u1", "vtkidtype": "i4"}


def cell(code, nodes):
    need(code in spec.VTK, f"unknown VTK cell type {code}")
    t = spec.VTK[code]
    if t in NN:
        need(len(nodes) == NN[t], f"cell of type {t} with {len(nodes)} nodes")
    if t == "wedge":
        nodes = [nodes[i] for i in spec.VTK_WEDGE]
    return (t, nodes)


class Legacy:
    def __init__(self, raw):
        self.raw = raw
        self.pos = 0

    def line(self):
        j = self.raw.find(b"\n", self.pos)
        need(j >= 0, "line without newline at the end of the file")
        s = self.raw[self.pos:j].decode()
        self.pos = j + 1
        return s

    def keyline(self):
        while True:
            if self.pos >= len(self.raw):
                return None
            s = self.line()
            if s.strip():
                return s.split()

    def array(self, n, kind):
        k = kind.lower()
        need(k in LEG, f"unknown legacy type {kind}")
        dt = np.dtype(LEG[k])
        if self.binary:
            nb = n * dt.itemsize
            need(self.pos + nb <= len(self.raw), "binary array runs past the end of the file")
            a = np.frombuffer(self.raw, dt.newbyteorder(">"), n, self.pos).astype(dt)
            self.pos += nb
            need(self.raw[self.pos:self.pos + 1] == b"\n", "no newline after a binary array")
            self.pos += 1
            return a
        out = []
        while len(out) < n:
            m = re.compile(rb"\s*(\S+)").match(self.raw, self.pos)
            need(m, "ASCII array too short")
            out.append(m.group(1).decode())
            self.pos = m.end()
        if dt.kind == "f":
            return np.array([float(x) for x in out], dtype=dt)
        v = [int(x) for x in out]
        return np.array(v, dtype=dt)

    def decode(self):
        m = re.fullmatch(r"# vtk DataFile Version (\d+\.\d+)", self.line())
        need(m, "bad first line")
        ver = tuple(map(int, m.group(1).split(".")))
        need(len(self.line()) <= 256, "title too long")
        mode = self.line().strip()
        need(mode in ("ASCII", "BINARY"), f"bad mode {mode!r}")
        self.binary = mode == "BINARY"
        need(self.line().split() == ["DATASET", "UNSTRUCTURED_GRID"], "not an unstructured grid")
        out = dict(point_data={}, cell_data={}, points=None, cells=None, version=ver)
        conn = off = types = None
        section = None
        nentries = None
        while True:
            w = self.keyline()
            if w is None:
                break
            k = w[0].upper()
            if k == "POINTS":
                out["points"] = self.array(3 * int(w[1]), w[2]).reshape(-1, 3)
            elif k == "CELLS" and ver >= (5, 1):
                no, nc = int(w[1]), int(w[2])
                x = self.keyline()
                need(x[0] == "OFFSETS", "OFFSETS expected")
                off = self.array(no, x[1])
                x = self.keyline()
                need(x[0] == "CONNECTIVITY", "CONNECTIVITY expected")
                conn = self.array(nc, x[1])
                need(off[0] == 0 and off[-1] == nc, f"offsets {off} do not frame {nc} entries")
                conn = [conn[a:b].tolist() for a, b in zip(off[:-1], off[1:])]
            elif k == "CELLS":
                n, size = int(w[1]), int(w[2])
                raw = self.array(size, "int").tolist()
                conn, j = [], 0
                for _ in range(n):
                    need(j < size, "CELLS too short")
                    conn.append(raw[j + 1:j + 1 + raw[j]])
                    need(len(conn[-1]) == raw[j], "CELLS truncated")
                    j += 1 + raw[j]
                need(j == size, f"CELLS size {size}, used {j}")
            elif k == "CELL_TYPES":
                types = self.array(int(w[1]), "int").tolist()
            elif k in ("POINT_DATA", "CELL_DATA"):
                section = out["point_data" if k == "POINT_DATA" else "cell_data"]
                nentries = int(w[1])
                need(nentries == (len(out["points"]) if k == "POINT_DATA" else len(types)), f"{k} {nentries}")
            elif k == "SCALARS":
                nc = int(w[3]) if len(w) > 3 else 1
                x = self.keyline()
                need(x[0] == "LOOKUP_TABLE", "LOOKUP_TABLE expected")
                a = self.array(nc * nentries, w[2])
                section[w[1]] = a if nc == 1 else a.reshape(-1, nc)
            elif k in ("VECTORS", "NORMALS"):
                section[w[1]] = self.array(3 * nentries, w[2]).reshape(-1, 3)
            elif k == "TENSORS":
                section[w[1]] = self.array(9 * nentries, w[2]).reshape(-1, 3, 3)
            elif k == "FIELD":
                for _ in range(int(w[2])):
                    x = self.keyline()
                    nc, nt = int(x[1]), int(x[2])
                    need(nt == nentries, f"field {x[0]} has {nt} tuples, not {nentries}")
                    a = self.array(nc * nt, x[3])
                    section[x[0]] = a if nc == 1 else a.reshape(-1, nc)
            elif k == "METADATA":
                while self.line().strip():
                    pass
            else:
                raise Bad(f"unknown keyword {w[0]!r}")
        need(out["points"] is not None and conn is not None and types is not None, "a section is missing")
        need(len(types) == len(conn), f"{len(types)} types for {len(conn)} cells")
        out["cells"] = [cell(c, n) for c, n in zip(types, conn)]
        return out


def decode_vtk(path, case=None):
    with open(path, "rb") as f:
        return Legacy(f.read()).decode()


XML = {"Float32": "f4", "Float64": "f8", "Int8": "i1", "Int16": "i2", "Int32": "i4", "Int64": "i8", "UInt8": "u1",
       "UInt16": "u2", "UInt32": "u4", "UInt64": "u8"}


class Vtu:
    def raw(self, txt, e):
        txt = "".join(txt.split())
        hd = np.dtype(self.header).newbyteorder(self.bo)
        if self.comp is None:
            data = base64.b64decode(txt, validate=True)
            n = int(np.frombuffer(data[:hd.itemsize], hd)[0])
            need(len(data) == n + hd.itemsize, f"{e.get('Name')}: header says {n} bytes, {len(data) - hd.itemsize} there")
            return data[hd.itemsize:]
        # the header is its own base64 unit
        pre = base64.b64decode(txt[:((hd.itemsize * 3 + 2) // 3) * 4])
        nb = int(np.frombuffer(pre[:hd.itemsize], hd)[0])
        hlen = ((hd.itemsize * (3 + nb) + 2) // 3) * 4
        h = np.frombuffer(base64.b64decode(txt[:hlen], validate=True), hd)
        need(len(h) == 3 + nb, "compressed header has the wrong length")
        nb, bs, last = (int(x) for x in h[:3])
        body = base64.b64decode(txt[hlen:], validate=True)
        out = []
        j = 0
        for i, c in enumerate(int(x) for x in h[3:]):
            blk = self.comp(body[j:j + c])
            j += c
            want = bs if (i < nb - 1 or last == 0) else last
            need(len(blk) == want, f"{e.get('Name')}: block {i} of {nb} has {len(blk)} bytes, header says {want}")
            out.append(blk)
        need(j == len(body), "trailing bytes after the last compressed block")
        return b"".join(out)

    def arr(self, e):
        dt = np.dtype(XML[e.get("type")])
        nc = int(e.get("NumberOfComponents", "1"))
        f = e.get("format")
        if f == "ascii":
            w = (e.text or "").split()
            a = np.array([float(x) for x in w], dtype=dt) if dt.kind == "f" else np.array([int(x) for x in w], dtype=dt)
        else:
            need(f == "binary", f"data format {f}")
            a = np.frombuffer(self.raw(e.text or "", e), dt.newbyteorder(self.bo)).astype(dt)
        need(a.size % nc == 0, f"{e.get('Name')}: {a.size} values for {nc} components")
        return a if nc == 1 else a.reshape(-1, nc)

    def decode(self, path):
        root = ET.parse(path).getroot()
        need(root.tag == "VTKFile" and root.get("type") == "UnstructuredGrid", "root element")
        need(root.get("version") in ("0.1", "1.0"), "version")
        self.bo = {"LittleEndian": "<", "BigEndian": ">"}[root.get("byte_order")]
        hdr = root.get("header_type", "UInt32")
        self.header = XML[hdr]
        c = root.get("compressor")
        self.comp = {None: None, "vtkZLibDataCompressor": zlib.decompress, "vtkLZMADataCompressor": lzma.decompress}[c]
        grid = root.find("UnstructuredGrid")
        pieces = grid.findall("Piece")
        need(len(pieces) == 1, "pieces")
        p = pieces[0]
        pts = self.arr(p.find("Points").find("DataArray"))
        n = int(p.get("NumberOfPoints"))
        need(pts.shape == (n, 3), f"points {pts.shape}, NumberOfPoints {n}")
        ca = {e.get("Name"): self.arr(e) for e in p.find("Cells")}
        m = int(p.get("NumberOfCells"))
        conn, off, types = ca["connectivity"].ravel(), ca["offsets"].ravel(), ca["types"].ravel()
        need(len(off) == m and len(types) == m, f"{len(off)} offsets, {len(types)} types, NumberOfCells {m}")
        need((off[-1] if m else 0) == len(conn), "offsets do not frame the connectivity")
        cells, a = [], 0
        for o, t in zip(off.tolist(), types.tolist()):
            cells.append(cell(t, conn[a:o].tolist()))
            a = o
        out = dict(points=pts, cells=cells, point_data={}, cell_data={})
        for tag, key, k in (("PointData", "point_data", n), ("CellData", "cell_data", m)):
            if p.find(tag) is not None:
                for e in p.find(tag):
                    v = self.arr(e)
                    need(len(v) == k, f"{tag} {e.get('Name')}: {len(v)} tuples, expected {k}")
                    out[key][e.get("Name")] = v
        return out


def decode_vtu(path, case=None):
    return Vtu().decode(path)
