"""Gmsh MSH 2.2, 4.0, 4.1 (ASCII and binary, from the Gmsh reference manual)."""
import re
import struct

import numpy as np

from ..alphabet import DIM, NN
from . import Bad, need, spec


class Msh:
    def __init__(self, raw):
        self.raw, self.pos = raw, 0

    def line(self):
        j = self.raw.find(b"\n", self.pos)
        need(j >= 0, "no newline")
        s = self.raw[self.pos:j].decode()
        self.pos = j + 1
        return s

    def tok(self):
        m = re.compile(rb"\s*(\S+)").match(self.raw, self.pos)
        need(m, "unexpected end")
        self.pos = m.end()
        return m.group(1).decode()

    def i(self, code="i"):
        """a number: ASCII token or binary with struct code"""
        if not self.binary:
            return int(self.tok())
        n = struct.calcsize("=" + code)
        v = struct.unpack("<" + code, self.raw[self.pos:self.pos + n])[0]
        self.pos += n
        return v

    def d(self):
        return float(self.tok()) if not self.binary else self.i("d")

    def str(self):
        m = re.compile(rb'\s*"([^"]*)"').match(self.raw, self.pos)
        need(m, "string expected")
        self.pos = m.end()
        return m.group(1).decode()

    def end(self, name):
        t = self.tok()
        need(t == "$End" + name, f"$End{name} expected, {t!r} found")
        self.line()

    def decode(self):
        self.binary = False
        need(self.line() == "$MeshFormat", "$MeshFormat")
        v, ft, ds = self.line().split()
        need(ds == "8", "data size")
        self.v = v
        isbin = ft == "1"
        if isbin:
            need(struct.unpack("<i", self.raw[self.pos:self.pos + 4])[0] == 1, "endianness mark")
            self.pos += 4
            if self.raw[self.pos:self.pos + 1] == b"\n":
                self.pos += 1
        self.end("MeshFormat")
        o = self.out = dict(points=None, cells=[], point_data={}, cell_data={}, names={}, tags=[], entities={}, periodic=None, node_ent=[])
        self.nodetag, self.eltag = {}, {}
        while True:
            m = re.compile(rb"\s*\$(\w+)[ \t]*\n").match(self.raw, self.pos)
            if not m:
                need(not self.raw[self.pos:].strip(), f"junk at {self.pos}: {self.raw[self.pos:self.pos + 30]!r}")
                break
            self.pos = m.end()
            name = m.group(1).decode()
            if name == "PhysicalNames":
                n = int(self.tok())
                for _ in range(n):
                    d, t = int(self.tok()), int(self.tok())
                    o["names"][self.str()] = (t, d)
                self.end(name)
                continue
            self.binary = isbin
            f = getattr(self, f"s_{name}_{v[0]}{v[2:] if v[0] == '4' else ''}", None) or getattr(self, f"s_{name}", None)
            need(f, f"unknown section {name}")
            f()
            self.binary = False
            self.end(name)
        return o

    # -- 2.2 ---------------------------------------------------------------
    def s_Nodes_2(self):
        n = int(self.line())
        p = []
        for k in range(n):
            t = self.i()
            need(t not in self.nodetag, "duplicate node")
            self.nodetag[t] = k
            p.append([self.d(), self.d(), self.d()])
        self.out["points"] = np.array(p)

    def el(self, code, tags):
        t = spec.GMSH[code]
        nodes = [self.nodetag[x] for x in tags]
        need(len(nodes) == NN[t], "node count")
        self.out["cells"].append((t, spec.apply(t, nodes, spec.GMSH_EDGES)))

    def s_Elements_2(self):
        n = int(self.line())
        if not self.binary:
            for _ in range(n):
                w = [int(x) for x in self.line().split()]
                need(w[0] not in self.eltag, "duplicate element")
                self.eltag[w[0]] = len(self.eltag)
                self.out["tags"].append(w[3:3 + w[2]])
                self.el(w[1], w[3 + w[2]:])
            return
        done = 0
        while done < n:
            code, m, nt = self.i(), self.i(), self.i()
            for _ in range(m):
                num = self.i()
                need(num not in self.eltag, "duplicate element")
                self.eltag[num] = len(self.eltag)
                self.out["tags"].append([self.i() for _ in range(nt)])
                self.el(code, [self.i() for _ in range(NN[spec.GMSH[code]])])
            done += m
        need(done == n, "element count")

    # -- 4.x ---------------------------------------------------------------
    def s_Entities_41(self):
        cnt = [self.i("Q") for _ in range(4)]
        for d, c in enumerate(cnt):
            for _ in range(c):
                tag = self.i()
                for _ in range(3 if d == 0 else 6):
                    self.d()
                phys = [self.i() for _ in range(self.i("Q"))]
                be = [self.i() for _ in range(self.i("Q"))] if d else []
                need((d, tag) not in self.out["entities"], "duplicate entity")
                self.out["entities"][(d, tag)] = (phys, be)

    def s_Nodes_41(self):
        nb, n, lo, hi = (self.i("Q") for _ in range(4))
        p, seen = [], []
        for _ in range(nb):
            dim, tag, par = self.i(), self.i(), self.i()
            need(par == 0, "parametric")
            m = self.i("Q")
            tags = [self.i("Q") for _ in range(m)]
            for t in tags:
                need(t not in self.nodetag, "duplicate node")
                self.nodetag[t] = len(p)
                p.append([self.d(), self.d(), self.d()])
                self.out["node_ent"].append((dim, tag))
            seen += tags
        need(len(p) == n, "node count")
        if n:
            need((min(seen), max(seen)) == (lo, hi), f"node tag range {lo}..{hi}")
        self.out["points"] = np.array(p)

    def s_Elements_41(self):
        nb, n, lo, hi = (self.i("Q") for _ in range(4))
        tot = 0
        for _ in range(nb):
            dim, tag, code = self.i(), self.i(), self.i()
            m = self.i("Q")
            need(dim == DIM[spec.GMSH[code]], f"entity dimension {dim} of a {spec.GMSH[code]} block")
            for _ in range(m):
                num = self.i("Q")
                need(num not in self.eltag, "duplicate element")
                need(lo <= num <= hi, f"element tag {num} outside {lo}..{hi}")
                self.eltag[num] = len(self.eltag)
                self.out["tags"].append((dim, tag))
                self.el(code, [self.i("Q") for _ in range(NN[spec.GMSH[code]])])
            tot += m
        need(tot == n, "element count")

    def s_Nodes_40(self):
        nb, n = self.i("Q"), self.i("Q")
        p = []
        for _ in range(nb):
            tag, dim, par = self.i(), self.i(), self.i()
            m = self.i("Q")
            for _ in range(m):
                t = self.i()
                need(t not in self.nodetag, "duplicate node")
                self.nodetag[t] = len(p)
                p.append([self.d(), self.d(), self.d()])
        need(len(p) == n, "node count")
        self.out["points"] = np.array(p)

    def s_Elements_40(self):
        nb, n = self.i("Q"), self.i("Q")
        tot = 0
        for _ in range(nb):
            tag, dim, code = self.i(), self.i(), self.i()
            m = self.i("Q")
            need(dim == DIM[spec.GMSH[code]], f"entity dimension {dim} of a {spec.GMSH[code]} block")
            for _ in range(m):
                num = self.i()
                need(num not in self.eltag, "duplicate element")
                self.eltag[num] = len(self.eltag)
                self.out["tags"].append((dim, tag))
                self.el(code, [self.i() for _ in range(NN[spec.GMSH[code]])])
            tot += m
        need(tot == n, "element count")

    # -- data, periodic ----------------------------------------------------
    def data(self, key, ids):
        b, self.binary = self.binary, False
        names = [self.str() for _ in range(self.i())]
        for _ in range(self.i()):
            self.d()
        it = [self.i() for _ in range(self.i())]
        need(len(it) >= 3, "integer tags")
        self.binary = b
        if b:
            self.pos += 1  # the newline
        _, nc, n = it[:3]
        need(nc in (1, 3, 9), f"{nc} components")
        a = np.full((len(ids), nc), np.nan)
        for _ in range(n):
            k = ids[self.i()]
            a[k] = [self.d() for _ in range(nc)]
        need(n == len(ids), f"{names[0]}: {n} entries for {len(ids)}")
        self.out[key][names[0]] = a[:, 0] if nc == 1 else a

    def s_NodeData(self):
        self.data("point_data", self.nodetag)

    def s_ElementData(self):
        self.data("cell_data", self.eltag)

    def s_Periodic_2(self):
        self.binary = False
        self.periodic("i", "i", True)

    def s_Periodic_40(self):
        self.periodic("i", "i", True)

    def periodic(self, cnt, nid, old):
        out = []
        for _ in range(self.i(cnt)):
            dim, a, b = self.i(), self.i(), self.i()
            aff = []
            if old and not self.binary:
                m = re.compile(rb"\s*Affine([^\n]*)\n").match(self.raw, self.pos)
                if m:
                    aff = [float(x) for x in m.group(1).split()]
                    self.pos = m.end()
                n = self.i()
            else:
                n = self.i("q")
                if n < 0:
                    aff = [self.d() for _ in range(16)]
                    n = self.i("q")
            out.append((dim, a, b, aff, [(self.nodetag[self.i(nid)], self.nodetag[self.i(nid)]) for _ in range(n)]))
        self.out["periodic"] = out

    def s_Periodic_41(self):
        out = []
        for _ in range(self.i("Q")):
            dim, a, b = self.i(), self.i(), self.i()
            na = self.i("Q")
            aff = [self.d() for _ in range(na)]
            n = self.i("Q")
            out.append((dim, a, b, aff, [(self.nodetag[self.i("Q")], self.nodetag[self.i("Q")]) for _ in range(n)]))
        self.out["periodic"] = out


def decode_gmsh(path, case=None):
    with open(path, "rb") as f:
        return Msh(f.read()).decode()
