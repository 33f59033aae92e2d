"""SU2, Netgen, Medit, TetGen, AVS-UCD, DOLFIN, UGRID and FLAC3D files as other programs spell them."""
import struct

import numpy as np

from .. import alphabet as A
from ..dec.misc import FLAC, NETGEN, UCD, UCD_ORDER
from .base import NUM, Enc, ids, lines, num

SEP = {"two": "   ", "tab": "\t"}


def spaced(sp):
    """-> a function that joins words to a line"""
    sep = SEP.get(sp, " ")
    return lambda *w: ("  " if sp == "lead" else "") + sep.join(map(str, w)) + (" \t" if sp == "trail" else "")


def by_type(meshio, m):
    """one block per type, in the order of the names"""
    types = sorted({c.type for c in m.cells})
    at = {t: [i for i, c in enumerate(m.cells) if c.type == t] for t in types}
    return meshio.Mesh(
        m.points, [(t, np.concatenate([m.cells[i].data for i in at[t]])) for t in types], point_data=m.point_data,
        cell_data={k: [np.concatenate([v[i] for i in at[t]]) for t in types] for k, v in m.cell_data.items()},
        field_data=m.field_data,
    )


def interleave(items):
    """[[a, b, c], [d, e]] -> a, d, b, e, c"""
    items = [list(x) for x in items]
    out = []
    while any(items):
        for x in items:
            if x:
                out.append(x.pop(0))
    return out


SU2 = {"line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}


class Su2(Enc):
    name = "su2"
    ext = ".su2"
    menu = {
        "d2": dict(b=[["line", 5], ["quad", 2], ["triangle", 4]], d=2),
        "tri": dict(b=[["line", 3], ["triangle", 2]], d=2),
        "d3": dict(b=[["hexahedron", 1], ["pyramid", 2], ["quad", 3], ["tetra", 3], ["triangle", 4], ["wedge", 1]]),
        "tet": dict(b=[["tetra", 2], ["triangle", 3]]),
    }
    axes = dict(
        order=["epm", "pem", "mpe", "pme", "emp"],
        idx=[1, 0, 2],      # 2: also those of the markers
        pidx=[0, 1, 2],
        npoin=["n", "nn"],
        key=["NDIME= 2", "NDIME=2", "NDIME=   2  ", "lead", "NDIME = 2", "lower"],
        com=["no", "head", "between", "end", "pct", "inline"],
        mark=["two", "one", "type", "big", "str", "neg"],
        mix=["types", "interleaved", "reverse"],
        other=["no", "periodic", "sendrecv", "ffd", "nzone", "angle"],
        blank=["no", "between", "end", "points"],
        sp=["one", "two", "tab", "lead", "trail"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
    )
    may = dict(key=["NDIME = 2", "lower"], com=["inline"], blank=["points"])

    def split(self, c, case):
        dim = c["points"].shape[1]
        dom, bnd = [], []
        for t, x in c["cells"]:
            (bnd if {"line": 1, "triangle": 2, "quad": 2}.get(t, 3) < dim else dom).append((t, x))
        return dim, dom, bnd

    def markers(self, bnd, case):
        """[(tag as written, tag expected, [(type, nodes)])]"""
        m = case["mark"]
        if m == "type":
            return [(i + 4, i + 4, [(t, r) for r in x]) for i, (t, x) in enumerate(bnd)]
        rows = interleave([[(t, r) for r in x] for t, x in bnd])
        if m == "one":
            return [(3, 3, rows)]
        tags = {"two": [("1", 1), ("2", 2)], "big": [("70000", 70000), ("3", 3)], "str": [("lower wall", 1), ("upper", 2)], "neg": [("-5", -5), ("12", 12)]}[m]
        return [(tags[0][0], tags[0][1], rows[:1]), (tags[1][0], tags[1][1], rows[1:])]

    def expected(self, case):
        c = self.content(case)
        _, dom, bnd = self.split(c, case)
        if case["mix"] == "reverse":
            dom = [(t, x[::-1]) for t, x in dom]
        cells = {t: (list(x), [0] * len(x)) for t, x in dom}
        for _, tag, rows in self.markers(bnd, case):
            for t, r in rows:
                cells.setdefault(t, ([], []))
                cells[t][0].append(r)
                cells[t][1].append(tag)
        c["cells"] = [(t, np.array(cells[t][0])) for t in sorted(cells)]
        c["cell_data"] = {"su2:tag": [np.array(cells[t][1]) for t in sorted(cells)]}
        return c

    def read(self, meshio, path, case):
        return by_type(meshio, meshio.read(path))

    def encode(self, c, case):
        dim, dom, bnd = self.split(c, case)
        f, put = num(case["num"]), spaced(case["sp"])
        k = case["key"]

        def key(name, value):
            if k == "lower":
                name = name.lower()
            eq = {"NDIME= 2": "= ", "NDIME=2": "=", "NDIME=   2  ": "=   ", "NDIME = 2": " = "}.get(k, "= ")
            return ("  " if k == "lead" else "") + name + eq + str(value) + ("  " if k.endswith("  ") else "") + (" % note" if case["com"] == "inline" else "")

        if case["mix"] == "reverse":
            dom = [(t, x[::-1]) for t, x in dom[::-1]]
        rows = [[(t, r) for r in x] for t, x in dom]
        rows = interleave(rows) if case["mix"] == "interleaved" else sum(rows, [])
        S = {}
        S["e"] = [key("NELEM", len(rows))] + [put(SU2[t], *r, *([i] if case["idx"] else [])) for i, (t, r) in enumerate(rows)]
        n = len(c["points"])
        S["p"] = [key("NPOIN", f"{n} {n}" if case["npoin"] == "nn" else n)]
        for i, p in enumerate(c["points"]):
            S["p"].append(put(*map(f, p), *[i] * case["pidx"]))
            if case["blank"] == "points" and i == 1:
                S["p"].append("")
        mk = self.markers(bnd, case)
        S["m"] = [key("NMARK", len(mk))]
        for tag, _, rows in mk:
            S["m"] += [key("MARKER_TAG", tag), key("MARKER_ELEMS", len(rows))] + [put(SU2[t], *r, *([i] if case["idx"] == 2 else [])) for i, (t, r) in enumerate(rows)]
            if case["other"] == "sendrecv":
                S["m"].append(key("SEND_RECV", 0))
        out = []
        if case["com"] == "head":
            out += ["% written by hand", "%", "% NDIME= 7"]
        if case["other"] == "nzone":
            out += [key("NZONE", 1), key("IZONE", 1)]
        if case["other"] == "angle":
            out += [key("AOA", "0.5"), key("AOS", "0.0")]
        out.append(key("NDIME", dim))
        for s in case["order"]:
            if case["com"] == "between":
                out += ["%", "% NPOIN= 1 is next", "%"]
            if case["com"] == "pct":
                out += ["   % indented = comment"]
            if case["blank"] == "between":
                out += ["", "  "]
            out += S[s]
        if case["other"] == "periodic":
            out += [key("NPERIODIC", 1), key("PERIODIC_INDEX", 0), key("PERIODIC_CENTER", "0.0 0.0 0.0"), key("PERIODIC_ROTATION", "0.0 0.0 0.0")]
        if case["other"] == "ffd":
            out += [key("FFD_NBOX", 1), key("FFD_NLEVEL", 1), key("FFD_TAG", "BOX")]
        if case["com"] == "end":
            out += ["% the end"]
        if case["blank"] == "end":
            out += ["", "", ""]
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


class Netgen(Enc):
    name = "netgen"
    ext = ".vol"
    parts = ("points", "cells", "cell_data", "field_data")
    menu = {
        "tet": dict(b=[["vertex", 2], ["line", 3], ["triangle", 3], ["tetra", 2]]),
        "mix": dict(b=[["line", 2], ["triangle", 2], ["quad", 1], ["tetra", 1], ["pyramid", 1], ["wedge", 1], ["hexahedron", 2]]),
        "d2": dict(b=[["line", 4], ["triangle", 3], ["quad", 2]], d=2),
        "ho": dict(b=[["triangle6", 2], ["quad8", 1], ["tetra10", 1], ["pyramid13", 1], ["wedge15", 1], ["hexahedron20", 1]]),
    }
    axes = dict(
        order=["sveqp", "psveq", "qepsv", "vsqep", "epvsq"],
        surf=["surfaceelements", "surfaceelementsgi", "surfaceelementsuv"],
        edge=["edgesegmentsgi2", "edgesegments", "edgesegmentsgi", "two"],
        idx=["one", "varied", "big"],
        names=["no", "materials", "bcnames", "cd2names", "cd3names", "all", "gap"],
        other=["no", "colours", "singular", "ident", "identtypes", "identmany"],
        com=["no", "head", "section", "rows", "header"],
        blank=["no", "section", "rows", "end"],
        geom=[0, 1, 11, 12, "none"],
        sp=["one", "two", "lead", "trail", "tab"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        end=["endmesh", "no", "after"],
    )
    may = dict(sp=["tab"], com=["rows"])

    def index(self, c, case):
        out = []
        for b, (t, x) in enumerate(c["cells"]):
            n = len(x)
            out.append(np.array({"one": [1] * n, "varied": [1 + (i + b) % 3 for i in range(n)], "big": [100000 + i for i in range(n)]}[case["idx"]]))
        return out

    NAMES = {"materials": 0, "bcnames": 1, "cd2names": 2, "cd3names": 3}

    def names(self, c, case):
        d = c["points"].shape[1]
        n = case["names"]
        if n == "no":
            return {}
        keys = [k for k in self.NAMES if (n in ("all", "gap") or n == k) and d - self.NAMES[k] >= 0]
        return {k: {j: f"{k}_{j}" for j in ((1, 3) if n == "gap" else (1, 2, 3))} for k in keys}

    def expected(self, case):
        c = self.content(case)
        c["cell_data"] = {"netgen:index": self.index(c, case)}
        d = c["points"].shape[1]
        c["field_data"] = {v: np.array([j, d - self.NAMES[k]]) for k, x in self.names(c, case).items() for j, v in x.items()}
        s = {0: "q", 1: "e", 2: "s", 3: "v"}
        rank = [case["order"].index(s[A.DIM[t]]) for t, _ in c["cells"]]
        o = sorted(range(len(rank)), key=lambda i: rank[i])
        c["cells"] = [c["cells"][i] for i in o]
        c["cell_data"]["netgen:index"] = [c["cell_data"]["netgen:index"][i] for i in o]
        return c

    def encode(self, c, case):
        f, put = num(case["num"]), spaced(case["sp"])
        P, d = c["points"], c["points"].shape[1]
        idx = self.index(c, case)
        row = {"s": [], "v": [], "e": [], "q": []}
        for (t, x), ii in zip(c["cells"], idx):
            q = np.argsort(NETGEN.get(t, range(A.NN[t])))  # meshio_nodes[i] = file_nodes[NETGEN[i]]
            for k, (r, i) in enumerate(zip(x, ii)):
                r = [r[j] + 1 for j in q]
                if t == "vertex":
                    row["q"].append([put(*r, i)])
                elif t == "line":
                    e = {"edgesegments": [], "edgesegmentsgi": [3, 4], "edgesegmentsgi2": [-1, -1, 1, 1, 1, "0.25", 1, "0.5"]}
                    if case["edge"] == "two":
                        row["e"].append([put(i, 0, *r, 5, 6), put(1, 1, 1, "0.25", 1, "0.5")])
                    else:
                        row["e"].append([put(i, 0, *r, *e[case["edge"]])])
                elif A.DIM[t] == 2:
                    m = {"surfaceelements": [], "surfaceelementsgi": list(range(1, len(r) + 1)), "surfaceelementsuv": ["0.5"] * 2 * len(r)}[case["surf"]]
                    row["s"].append([put(k + 1, i, 1, 0, len(r), *r, *m)])
                else:
                    row["v"].append([put(i, len(r), *r)])
        pts = [[put(*map(f, list(p) + [0.0] * (3 - d)))] for p in P]
        out = ["mesh3d"]
        if case["com"] == "head":
            out = ["# Generated by hand", "#"] + out + ["# a comment"]
        out += ["dimension", str(d)]
        if case["geom"] != "none":
            out += ["geomtype", str(case["geom"])]
        head = {"s": case["surf"], "v": "volumeelements", "e": case["edge"], "q": "pointelements", "p": "points"}
        cols = {"s": "# surfnr    bcnr   domin  domout      np      p1      p2      p3", "v": "#  matnr      np      p1      p2      p3      p4",
                "e": "# surfid  0   p1   p2   trignum1    trignum2", "q": "#   pnum   index", "p": "#          X             Y             Z"}
        for s in case["order"]:
            rows = pts if s == "p" else row[s]
            if not rows and s == "q":
                continue
            if case["blank"] == "section":
                out += ["", ""]
            if case["com"] == "section":
                out.append("# next")
            if case["com"] == "header":
                out.append(cols[s])
            h = head[s]
            if h == "two":
                out.append(" surf1 surf2 p1 p2")
                h = "edgesegmentsgi2"
            out += [h, str(len(rows))]
            for i, r in enumerate(rows):
                if i == 1 and case["com"] == "rows":
                    out.append("# in between")
                if i == 1 and case["blank"] == "rows":
                    out.append("")
                out += r
        for k, v in self.names(c, case).items():
            out += ["", k, "3"] + [f"{j} {v[j]}" if j in v else f"{j}" for j in (1, 2, 3)]
        o = case["other"]
        if o == "colours":
            out += ["#   Surfnr     Red     Green     Blue", "face_colours", "2", put(1, "0.5", "0.25", "1.0"), put(2, "0.0", "1.0", "0.0")]
        if o == "singular":
            out += ["singular_points", "1", put(1, "0.5"), "singular_edge_left", "2", put(1, "0.5"), put(2, "0.5"), "singular_edge_right", "0"]
        if o in ("ident", "identtypes", "identmany"):
            n = 4 if o == "identmany" else 1
            out += ["identifications", str(n)] + [put(i + 1, i + 2, 1) for i in range(n)]
        if o in ("identtypes", "identmany"):
            n = 2 if o == "identmany" else 1
            out += ["identificationtypes", str(n), put(*[2] * n)]
        if case["end"] != "no":
            out += ["", "endmesh"]
        if case["end"] == "after":
            out += ["", "csgsurfaces 1", "something 4"]
        if case["blank"] == "end":
            out += ["", ""]
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


MEDIT = {"line": "Edges", "triangle": "Triangles", "quad": "Quadrilaterals", "tetra": "Tetrahedra", "wedge": "Prisms", "pyramid": "Pyramids", "hexahedron": "Hexahedra"}
GMF = {"line": 5, "triangle": 6, "quad": 7, "tetra": 8, "wedge": 9, "hexahedron": 10, "pyramid": 49}


class Medit(Enc):
    name = "medit"
    ext = ".mesh"
    menu = {
        "d3": dict(b=[["line", 2], ["triangle", 3], ["tetra", 2]]),
        "all": dict(b=[["line", 1], ["triangle", 2], ["quad", 1], ["tetra", 1], ["pyramid", 1], ["wedge", 2], ["hexahedron", 1]]),
        "d2": dict(b=[["line", 3], ["triangle", 3], ["quad", 1]], d=2),
        "hex": dict(b=[["hexahedron", 3]]),
    }
    EX = ["Corners", "Ridges", "RequiredVertices", "RequiredEdges", "Normals", "NormalAtVertices", "Tangents", "TangentAtVertices",
          "SubDomainFromMesh", "Identifier", "Geometry", "VertexOnGeometricVertex", "EdgeOnGeometricEdge", "VertexOnGeometricEdge"]
    axes = dict(
        ver=["2", "1", "0", "3", "next"],
        dim=["same", "next", "indent"],
        order=["vc", "cv", "rev", "mid"],
        ref=["zero", "varied", "big", "neg"],
        extra=["no", *EX],
        at=["after", "before", "between"],
        com=["no", "head", "between", "count"],
        blank=["no", "between", "count", "end"],
        lay=["rows", "stream", "single", "wrap"],
        sp=["one", "two", "tab", "lead", "trail"],
        count=["next", "same", "indent"],
        empty=["no", "line", "end"],
        twice=[0, 1],
        hexa=["Hexahedra", "Hexaedra"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        end=["End", "no", "blank"],
    )
    may = dict(ver=["0", "3", "next"], com=["count"], blank=["count"], count=["same"], extra=["RequiredEdges"])

    def refs(self, n, case, salt=0):
        return np.array([{"zero": 0, "varied": (3 * i + salt) % 5, "big": 16777217 + 2 * i, "neg": 4 - 3 * i}[case["ref"]] for i in range(n)])

    def admissible(self, case):
        if case["at"] != "after" and case["extra"] == "no":
            return False
        if case["hexa"] != "Hexahedra" and case["b"] not in ("hex", "all"):
            return False
        return not (case["extra"] != "no" and case["lay"] != "rows")

    def expected(self, case):
        c = self.content(case)
        cells = list(c["cells"])
        if case["twice"]:
            t, x = cells[0]
            cells = [(t, x[:1]), *cells[1:], (t, x[1:])]
        if case["order"] == "rev":
            cells = cells[::-1]
        c["cells"] = [x for x in cells if len(x[1])]
        c["point_data"] = {"medit:ref": self.refs(len(c["points"]), case)}
        c["cell_data"] = {"medit:ref": [self.refs(len(x), case, i + 1) for i, (_, x) in enumerate(c["cells"])]}
        return c

    def read(self, meshio, path, case):
        m = meshio.read(path)
        # sections without items may come back as empty blocks
        keep = [i for i, b in enumerate(m.cells) if len(b.data)]
        return meshio.Mesh(m.points, [m.cells[i] for i in keep], point_data=m.point_data, cell_data={k: [v[i] for i in keep] for k, v in m.cell_data.items()})

    def extra(self, case, d, put, n):
        e = case["extra"]
        if e == "no":
            return []
        if e in ("Identifier", "Geometry"):
            return [e, '"some name"']
        rows = {"Corners": [[1], [2], [n]], "Ridges": [[1], [2]], "RequiredVertices": [[1], [3]], "RequiredEdges": [[1]],
                "Normals": [["0.5"] * d, ["1.0"] * d], "NormalAtVertices": [[1, 1], [2, 1], [3, 2]], "Tangents": [["0.5"] * d, ["1.0"] * d],
                "TangentAtVertices": [[1, 1, 1], [1, 2, 2]], "SubDomainFromMesh": [[3, 1, 1, 1], [3, 2, -1, 2]], "VertexOnGeometricVertex": [[1, 1], [2, 3]],
                "EdgeOnGeometricEdge": [[1, 1], [2, 2]], "VertexOnGeometricEdge": [[1, 2, "0.5"], [2, 1, "0.25"]]}[e]
        return [e, str(len(rows))] + [put(*r) for r in rows]

    def encode(self, c, case):
        f, put = num(case["num"]), spaced(case["sp"])
        c = self.expected(case)
        P, d = c["points"], c["points"].shape[1]

        def section(name, rows):
            n = len(rows)
            lay = case["lay"]
            if lay == "rows":
                body = [put(*r) for r in rows]
            else:
                flat = [x for r in rows for x in r]
                w = {"stream": len(flat) or 1, "single": 1, "wrap": 5}[lay]
                body = [put(*flat[i:i + w]) for i in range(0, len(flat), w)]
            if case["count"] == "same":
                return [f"{name} {n}", *body]
            out = [name]
            if case["com"] == "count":
                out.append("# count")
            if case["blank"] == "count":
                out.append("")
            return [*out, ("   " if case["count"] == "indent" else "") + str(n), *body]

        V = [section("Vertices", [[*map(f, p), r] for p, r in zip(P, c["point_data"]["medit:ref"])])]
        C = []
        for (t, x), r in zip(c["cells"], c["cell_data"]["medit:ref"]):
            name = case["hexa"] if t == "hexahedron" else MEDIT[t]
            C.append(section(name, [[*(row + 1), k] for row, k in zip(x, r)]))
        if case["empty"] == "line":
            C.insert(0, [MEDIT["quad"], "0"])
        if case["empty"] == "end":
            C.append([MEDIT["quad"], "0"])
        S = {"vc": V + C, "rev": V + C, "cv": C + V, "mid": C[:1] + V + C[1:]}[case["order"]]
        x = [self.extra(case, d, put, len(P))]
        S = {"after": S + x, "before": x + S, "between": S[:1] + x + S[1:]}[case["at"]]
        out = ["MeshVersionFormatted " + case["ver"]] if case["ver"] != "next" else ["MeshVersionFormatted", "2"]
        if case["com"] == "head":
            out = ["# made by hand", "#"] + out
        out += {"same": [f"Dimension {d}"], "next": ["Dimension", str(d)], "indent": ["", f" Dimension   {d} "]}[case["dim"]]
        for s in S:
            if case["com"] == "between":
                out += ["# Vertices"]
            if case["blank"] == "between":
                out += ["", " "]
            out += s
        out += {"End": ["End"], "no": [], "blank": ["", "End", ""]}[case["end"]]
        if case["blank"] == "end":
            out += ["", ""]
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


class Meditb(Medit):
    name = "meditb"
    ext = ".meshb"
    bound = {"quick": 3, "thorough": 4}
    EX = ["Corners", "Ridges", "RequiredVertices", "RequiredEdges", "NormalAtVertices", "Normals", "Tangents"]
    axes = dict(
        end=["<", ">"],
        ver=[2, 1, 3, 4],
        order=["vc", "cv", "rev", "mid"],
        ref=["zero", "varied", "big", "neg"],
        extra=["no", *EX],
        at=["after", "before", "between"],
        pos=["true", "zero"],
        twice=[0, 1],
        fin=["End", "no"],
    )
    may = {}

    def admissible(self, case):
        return case["at"] == "after" or case["extra"] != "no"

    def encode(self, c, case):
        c = self.expected(case)
        P, d = c["points"], c["points"].shape[1]
        e, v = case["end"], case["ver"]
        I = e + ("i8" if v == 4 else "i4")
        F = e + ("f4" if v == 1 else "f8")
        K = e + ("i4" if v < 3 else "i8")
        k4 = lambda *x: np.array(x, e + "i4").tobytes()
        V = [(4, [np.concatenate([np.array(p, F).view("u1"), np.array([r], I).view("u1")]).tobytes() for p, r in zip(P, c["point_data"]["medit:ref"])])]
        C = [(GMF[t], [np.array([*(row + 1), r], I).tobytes() for row, r in zip(x, rr)]) for (t, x), rr in zip(c["cells"], c["cell_data"]["medit:ref"])]
        S = {"vc": V + C, "rev": V + C, "cv": C + V, "mid": C[:1] + V + C[1:]}[case["order"]]
        i = lambda *x: np.array(x, I).tobytes()
        x = {"no": [], "Corners": [(13, [i(1), i(2)])], "Ridges": [(14, [i(1)])], "RequiredVertices": [(15, [i(1), i(3)])], "RequiredEdges": [(16, [i(1)])],
             "NormalAtVertices": [(20, [i(1, 1), i(2, 1)])], "Normals": [(60, [np.array([0.5] * d, F).tobytes()] * 3)],
             "Tangents": [(59, [np.array([0.5] * d, F).tobytes()])]}[case["extra"]]
        S = {"after": S + x, "before": x + S, "between": S[:1] + x + S[1:]}[case["at"]]
        w = np.dtype(K).itemsize
        out = k4(1, v)
        p = lambda n: np.array([n if case["pos"] == "true" else 0], K).tobytes()
        out += k4(3) + p(len(out) + 8 + w) + k4(d)
        for code, rows in S:
            body = i(len(rows)) + b"".join(rows)
            out += k4(code) + p(len(out) + 4 + w + len(body)) + body
        if case["fin"] == "End":
            out += k4(54) + p(0)
        return out


class Tetgen(Enc):
    name = "tetgen"
    ext = ".node"
    menu = {"tet": dict(b=[["tetra", 3]]), "one": dict(b=[["tetra", 1]]), "many": dict(b=[["tetra", 12]], np=20)}
    axes = dict(
        open=[".node", ".ele"],
        base=[0, 1],
        attr=[0, 1, 3],
        mark=[0, 1],
        reg=[0, 1, 2, "real"],
        com=["no", "head", "row", "end", "inline"],
        blank=["no", "head", "rows", "end"],
        sp=["one", "two", "lead", "trail", "tab"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        other=["no", "face"],
    )
    may = dict(com=["row", "inline"], sp=["tab"])

    def expected(self, case):
        c = self.content(case)
        n, m = len(c["points"]), len(c["cells"][0][1])
        for k in range(case["attr"]):
            c["point_data"][f"tetgen:attr{k + 1}"] = np.arange(n) / 4 - k
        if case["mark"]:
            c["point_data"]["tetgen:ref"] = np.arange(n) % 3 - 1
        r = case["reg"]
        for k in range(1 if r == "real" else r):
            c["cell_data"]["tetgen:ref" + (str(k + 1) if k else "")] = [np.arange(m) / 8 + 1 if r == "real" else (np.arange(m) + k) % 3]
        return c

    def path(self, d):
        return d + "/mesh"

    def read(self, meshio, path, case):
        return meshio.read(path + case["open"])

    def encode(self, c, case):
        c = self.expected(case)
        f, put = num(case["num"]), spaced(case["sp"])
        b = case["base"]
        P, T = c["points"], c["cells"][0][1]
        pd = [v for k, v in c["point_data"].items() if "attr" in k] + [v for k, v in c["point_data"].items() if "ref" in k]
        na = case["attr"]
        node = [put(len(P), 3, na, case["mark"])]
        for i, p in enumerate(P):
            node.append(put(i + b, *map(f, p), *[f(v[i]) for v in pd[:na]], *[int(v[i]) for v in pd[na:]]) + (" # x" if i == 1 and case["com"] == "inline" else ""))
        cd = [v[0] for v in c["cell_data"].values()]
        ele = [put(len(T), 4, len(cd))]
        for i, t in enumerate(T):
            ele.append(put(i + b, *(t + b), *[f(v[i]) if case["reg"] == "real" else int(v[i]) for v in cd]))
        out = {}
        for ext, body in ((".node", node), (".ele", ele)):
            if case["com"] == "row":
                body.insert(2, "# a comment")
            if case["blank"] == "rows":
                body.insert(2, "")
                body.insert(1, "  ")
            if case["com"] == "head":
                body[:0] = ["# Node count, 3 dim, 0 attribute", "#", "# 4 3 0 0"]
            if case["blank"] == "head":
                body[:0] = ["", " "]
            if case["com"] == "end":
                body.append("# Generated by tetgen")
            if case["blank"] == "end":
                body += ["", ""]
            out["mesh" + ext] = lines("\n".join(body) + "\n", case["nl"], case["final"])
        if case["other"] == "face":
            out["mesh.face"] = b"1 1\n0 0 1 2 5\n"
        return out


UCDN = {v: k for k, v in UCD.items()}


class Avs(Enc):
    name = "avsucd"
    ext = ".avs"
    menu = {
        "tri": dict(b=[["triangle", 3]]),
        "mix": dict(b=[["vertex", 1], ["line", 2], ["triangle", 2], ["quad", 1], ["tetra", 2], ["pyramid", 1], ["wedge", 1], ["hexahedron", 1]]),
        "hex": dict(b=[["hexahedron", 2], ["tetra", 2], ["hexahedron", 1]]),
    }
    axes = dict(
        pids=["seq", "sparse", "big", "rev", "shuffle"],
        cids=["seq", "sparse", "big", "rev", "shuffle"],
        pd=["no", "s", "v", "svs", "six"],
        cd=["no", "s", "v", "svs"],
        label=["unit", "nounit", "space", "empty", "pad"],
        dord=["same", "rev"],
        mat=["one", "varied", "neg"],
        model=[0, 1],
        com=["no", "one", "many"],
        sp=["one", "two", "tab", "lead", "trail"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        tail=["no", "blank"],
    )
    D = {"no": [], "s": [1], "v": [3], "svs": [1, 3, 1], "six": [6, 2, 1, 1]}

    def admissible(self, case):
        if case["pd"] == case["cd"] == "no":
            return case["label"] == "unit" and case["dord"] == "same"
        return True

    def label(self, k, case):
        return f"data {k}" if case["label"] == "space" else f"data{k}"

    def values(self, n, sizes, salt):
        return [((np.arange(n * k) * 3 + salt + j) % 17 / 4 - 1).reshape((n,) if k == 1 else (n, k)) for j, k in enumerate(sizes)]

    def expected(self, case):
        c = self.content(case)
        n = [len(x) for _, x in c["cells"]]
        name = lambda k: self.label(k, case).replace(" ", "_")
        c["point_data"] = {name(j): v for j, v in enumerate(self.values(len(c["points"]), self.D[case["pd"]], 1))}
        c["cell_data"] = {name(j): np.split(v, np.cumsum(n)[:-1]) for j, v in enumerate(self.values(sum(n), self.D[case["cd"]], 5))}
        m = np.array([{"one": 1, "varied": 1 + i % 4, "neg": 3 - i}[case["mat"]] for i in range(sum(n))])
        c["cell_data"]["avsucd:material"] = np.split(m, np.cumsum(n)[:-1])
        return c

    def encode(self, c, case):
        c = self.expected(case)
        f, put = num(case["num"]), spaced(case["sp"])
        P = c["points"]
        pid = ids(len(P), case["pids"])
        m = sum(len(x) for _, x in c["cells"])
        cid = ids(m, case["cids"])
        mat = np.concatenate(c["cell_data"]["avsucd:material"])
        out = ["# AVS field"] * {"no": 0, "one": 1, "many": 3}[case["com"]]
        out.append(put(len(P), m, sum(self.D[case["pd"]]), sum(self.D[case["cd"]]), case["model"]))
        out += [put(i, *map(f, p)) for i, p in zip(pid, P)]
        k = 0
        for t, x in c["cells"]:
            for r in x:
                r = [r[j] for j in UCD_ORDER[t]] if t in UCD_ORDER else r
                out.append(put(cid[k], mat[k], UCDN[t], *[pid[j] for j in r]))
                k += 1
        for n, num_ids, sizes, salt in ((len(P), pid, self.D[case["pd"]], 1), (m, cid, self.D[case["cd"]], 5)):
            if not sizes:
                continue
            out.append(put(len(sizes), *sizes))
            for j in range(len(sizes)):
                out.append({"unit": "{}, m/s", "nounit": "{}", "space": "{}, kg m", "empty": "{},", "pad": "  {}  ,  K "}[case["label"]].format(self.label(j, case)))
            v = np.column_stack([x.reshape(n, -1) for x in self.values(n, sizes, salt)])
            for i in (range(n) if case["dord"] == "same" else range(n - 1, -1, -1)):
                out.append(put(num_ids[i], *map(f, v[i])))
        if case["tail"] == "blank":
            out += ["", ""]
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


class Dolfin(Enc):
    name = "dolfin"
    ext = ".xml"
    menu = {"tri": dict(b=[["triangle", 3]], d=2), "tri3": dict(b=[["triangle", 4]]), "tet": dict(b=[["tetra", 3]])}
    axes = dict(
        decl=["yes", "no", "single"],
        root=["old", "ns", "bare", "xmlns"],
        vord=["seq", "rev"],
        cord=["seq", "rev"],
        attr=["seq", "rev", "idxlast"],
        lay=["indent", "flat", "wide", "close"],
        com=["no", "head", "in", "end"],
        quote=['"', "'"],
        func=["no", "uint", "int", "float", "two", "rev"],
        other=["no", "elsewhere", "backup", "unrelated"],
        extra=["no", "data", "domains"],
        num=["r", "e", "E", "+", "f", "i"],
        nl=["\n", "\r\n"],
    )
    may = dict()

    def funcs(self, case, m):
        f = case["func"]
        v = {"uint": np.arange(m) + 1, "int": 1 - np.arange(m), "float": np.arange(m) / 4 - 0.5}
        if f == "no":
            return {}
        if f == "two":
            return {"physical_region": ("uint", v["uint"]), "a b": ("float", v["float"])}
        if f == "rev":
            return {"material": ("int", v["int"])}
        return {f: (f, v[f])}

    def expected(self, case):
        c = self.content(case)
        c["cell_data"] = {k: [v] for k, (_, v) in self.funcs(case, len(c["cells"][0][1])).items()}
        return c

    def encode(self, c, case):
        f = num(case["num"])
        P, (t, T) = c["points"], c["cells"][0]
        d = P.shape[1]
        ct = {"triangle": "triangle", "tetra": "tetrahedron"}[t]
        q = case["quote"]

        def el(tag, attrs, end=" />"):
            a = list(attrs.items())
            if case["attr"] == "rev":
                a = a[::-1]
            if case["attr"] == "idxlast" and a and a[0][0] == "index":
                a = a[1:] + a[:1]
            sp = "   " if case["lay"] == "wide" else " "
            s = "<" + tag + "".join(f"{sp}{k}{'=' if case['lay'] != 'wide' else ' = '}{q}{v}{q}" for k, v in a)
            if end == " />" and case["lay"] == "close":
                return s + f"></{tag}>"
            return s + end

        def doc(body):
            out = {"yes": ['<?xml version="1.0" encoding="UTF-8"?>'], "single": ["<?xml version='1.0'?>"], "no": []}[case["decl"]]
            if case["com"] == "head":
                out.append('<!-- <vertex index="0" x="9" /> -->')
            out.append({"old": "<dolfin nsmap=\"{'dolfin': 'https://fenicsproject.org/'}\">", "ns": '<dolfin xmlns:dolfin="http://www.fenicsproject.org">', "bare": "<dolfin>",
                        "xmlns": '<dolfin xmlns:dolfin="http://www.fenics.org/dolfin/">'}[case["root"]])
            out += body + ["</dolfin>"]
            if case["com"] == "end":
                out.append("<!-- the end -->")
            text = ("" if case["lay"] == "flat" else "\n").join(out) + "\n"
            return text.replace("\n", case["nl"]).encode()

        vs = [el("vertex", dict(index=i, **{k: f(x) for k, x in zip("xyz", p)})) for i, p in enumerate(P)]
        cs = [el(ct, dict(index=i, **{f"v{k}": x for k, x in enumerate(r)})) for i, r in enumerate(T)]
        if case["vord"] == "rev":
            vs.reverse()
        if case["cord"] == "rev":
            cs.reverse()
        if case["com"] == "in":
            vs.insert(1, "<!-- in between -->")
        body = [el("mesh", dict(celltype=ct, dim=d), ">"), el("vertices", dict(size=len(P)), ">"), *vs, "</vertices>", el("cells", dict(size=len(T)), ">"), *cs, "</cells>"]
        if case["extra"] == "data":
            body += ["<data>", '<data_entry name="x">', '<array type="uint" size="1">', '<element index="0" value="3"/>', "</array>", "</data_entry>", "</data>"]
        if case["extra"] == "domains":
            body += ["<domains>", f'<mesh_value_collection type="uint" dim="{d}" size="1">', '<value cell_index="0" local_entity="0" value="4" />', "</mesh_value_collection>", "</domains>"]
        body.append("</mesh>")
        out = {"mesh.xml": doc(body)}
        for k, (ty, v) in self.funcs(case, len(T)).items():
            e = [el("entity", dict(index=i, value=f(x) if ty == "float" else int(x))) for i, x in enumerate(v)]
            if case["func"] == "rev":
                e.reverse()
            out[f"mesh_{k}.xml"] = doc([el("mesh_function", dict(type=ty, dim=2 if t == "triangle" else 3, size=len(v)), ">"), *e, "</mesh_function>"])
        bad = b"<dolfin><mesh_function type='int' dim='2' size='1'><entity index='0' value='7'/></mesh_function></dolfin>"
        if case["other"] == "elsewhere":
            out["mesher_tags.xml"] = bad
            out["xmesh_tags.xml"] = bad
        if case["other"] == "backup":
            out["mesh_tags.xml~"] = bad
            out["mesh_tags.xml.bak"] = bad
        if case["other"] == "unrelated":
            out["readme.txt"] = b"mesh_tags.xml"
            out["mesh_notes.txt"] = b"notes"
        return out


class Ugrid(Enc):
    name = "ugrid"
    ext = ".ugrid"
    bound = {"quick": 3, "thorough": 4}
    menu = {
        "tet": dict(b=[["triangle", 3], ["tetra", 2]]),
        "all": dict(b=[["triangle", 2], ["quad", 2], ["tetra", 1], ["pyramid", 2], ["wedge", 1], ["hexahedron", 1]]),
        "surf": dict(b=[["triangle", 2], ["quad", 1]]),
        "vol": dict(b=[["pyramid", 1], ["hexahedron", 2]]),
        "quad": dict(b=[["quad", 3], ["wedge", 1]]),
    }
    axes = dict(
        kind=["ascii", "b8", "b4", "lb8", "lb4", "r8", "r4", "lr8", "lr4", "b8l", "lb8l"],
        tag=["one", "varied", "big"],
        lay=["rows", "stream", "single", "counts", "wide"],
        stem=["mesh", "a.b", "b8.x", "dir.lb8.y"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        tail=["no", "bl"],
    )

    def admissible(self, case):
        if case["kind"] != "ascii":
            return case["lay"] == "rows" and case["num"] == "r" and case["nl"] == "\n" and case["final"]
        return True

    def expected(self, case):
        c = self.content(case)
        n = sum(len(x) for t, x in c["cells"] if A.DIM[t] == 2)
        tags = [{"one": 1, "varied": 1 + i % 3, "big": 1000000 + i}[case["tag"]] for i in range(n)]
        d, k = [], 0
        for t, x in c["cells"]:
            if A.DIM[t] == 2:
                d.append(np.array(tags[k:k + len(x)]))
                k += len(x)
            else:
                d.append(np.zeros(len(x), int))
        c["cell_data"] = {"ugrid:ref": d}
        return c

    def file(self, case):
        return case["stem"] + ("" if case["kind"] == "ascii" else "." + case["kind"]) + ".ugrid"

    def path(self, d):
        return d + "/"

    def read(self, meshio, path, case):
        return meshio.read(path + self.file(case))

    def encode(self, c, case):
        c = self.expected(case)
        b = {t: x for t, x in c["cells"]}
        names = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
        cnt = [len(c["points"])] + [len(b.get(t, ())) for t in names]
        # the apex of a pyramid comes third, between the sides of its base
        rows = {t: (x[:, [1, 0, 4, 2, 3]] if t == "pyramid" else x) + 1 for t, x in b.items()}
        tags = np.concatenate([v for (t, _), v in zip(c["cells"], c["cell_data"]["ugrid:ref"]) if A.DIM[t] == 2] or [np.zeros(0, int)])
        if case["kind"] == "ascii":
            f = num(case["num"])
            out = [[str(x)] for x in cnt] if case["lay"] == "counts" else [cnt]
            out += [[f(x) for x in p] for p in c["points"]]
            for t in names[:2]:
                out += [list(r) for r in rows.get(t, ())]
            out += [[t] for t in tags]
            for t in names[2:]:
                out += [list(r) for r in rows.get(t, ())]
            if case["tail"] == "bl":
                out += [[0], [1, 2, 3]]
            w = "    " if case["lay"] == "wide" else " "
            if case["lay"] in ("stream", "single"):
                flat = [str(x) for r in out for x in r]
                text = (" " if case["lay"] == "stream" else "\n").join(flat) + "\n"
            else:
                text = "".join((w if case["lay"] == "wide" else "") + w.join(map(str, r)) + "\n" for r in out)
            data = lines(text, case["nl"], case["final"])
        else:
            k = case["kind"]
            e = "<" if k[0] == "l" else ">"
            F, I = e + ("f4" if "4" in k else "f8"), e + ("i8" if k.endswith("l") else "i4")
            i = lambda x: np.asarray(x, I).tobytes()
            one = i(cnt)
            two = np.asarray(c["points"], F).tobytes() + b"".join(i(rows[t]) for t in names[:2] if t in rows) + i(tags) + b"".join(i(rows[t]) for t in names[2:] if t in rows)
            if "r" in k:
                m = lambda x: struct.pack(e + "i", len(x)) + x + struct.pack(e + "i", len(x))
                one, two = m(one), m(two)
            data = one + two
            if case["tail"] == "bl":
                data += i([0])
        return {self.file(case): data}


class Flac(Enc):
    name = "flac3d"
    ext = ".f3grid"
    parts = ("points", "cells", "cell_sets")
    menu = {
        "tet": dict(b=[["tetra", 3]]),
        "all": dict(b=[["triangle", 2], ["quad", 2], ["tetra", 1], ["pyramid", 1], ["wedge", 2], ["hexahedron", 2]]),
        "alt": dict(b=[["triangle", 1], ["quad", 1], ["triangle", 1], ["hexahedron", 2], ["tetra", 2], ["hexahedron", 1]]),
        "face": dict(b=[["triangle", 3], ["quad", 1]]),
    }
    axes = dict(
        bin=[0, 1],
        pids=["seq", "sparse", "big", "rev", "shuffle"],
        cids=["seq", "sparse", "rev", "shuffle"],
        order=["gzf", "gfz", "mixed"],
        grp=["no", "one", "two", "all", "long", "single", "shared"],
        name=["plain", "space", "digit", "slotname"],
        quote=['"', "'"],
        com=["no", "head", "sections", "end"],
        blank=["no", "sections", "end"],
        lay=["row", "one", "indent"],
        sp=["one", "two", "tab", "trail"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
    )
    may = dict(blank=[])

    def admissible(self, case):
        if case["grp"] == "no" and (case["name"] != "plain" or case["quote"] != '"' or case["lay"] != "row"):
            return False
        if case["bin"]:
            return all(case[k] == self.axes[k][0] for k in ("order", "quote", "com", "blank", "lay", "sp", "num", "nl", "final"))
        return True

    def groups(self, c, case):
        """{(flag, name, slot): positions among the zones or faces}"""
        g = case["grp"]
        out = {}
        for flag, dim in (("zone", 3), ("face", 2)):
            n = sum(len(x) for t, x in c["cells"] if A.DIM[t] == dim)
            if not n or g == "no":
                continue
            nm = {"plain": "region", "space": "Region number 2", "digit": "7", "slotname": "g"}[case["name"]]
            slot = "Any Slot" if case["name"] == "slotname" else "1"
            if g == "single":
                out[flag, nm, slot] = [n - 1]
            elif g in ("one", "long"):
                out[flag, nm, slot] = list(range(0, n, 2))
            elif g == "all":
                out[flag, nm, slot] = list(range(n))
            elif g == "two":
                out[flag, nm, slot] = list(range(1))
                out[flag, nm + "b", slot] = list(range(n - 1, 0, -1)) or [0]
            elif g == "shared":
                out[flag, nm, slot] = list(range(n))
                out[flag, nm, slot + "2"] = [0]
        return out

    def expected(self, case):
        c = self.content(case)
        for (flag, nm, slot), at in self.groups(c, case).items():
            k, s = 0, []
            for t, x in c["cells"]:
                if A.DIM[t] == (3 if flag == "zone" else 2):
                    s.append(np.array(sorted(i - k for i in at if k <= i < k + len(x)), int))
                    k += len(x)
                else:
                    s.append(np.zeros(0, int))
            c["cell_sets"][f"{flag}:{nm}:{slot}"] = s
        return c

    def encode(self, c, case):
        pid = ids(len(c["points"]), case["pids"])
        rows = {"zone": [], "face": []}
        names = {v[0]: (k, v[1]) for k, v in FLAC.items()}
        for t, x in c["cells"]:
            k, o = names[t]
            for r in x:
                rows["zone" if A.DIM[t] == 3 else "face"].append((k, [pid[r[j]] for j in o]))
        cid = {f: ids(len(r), case["cids"]) if r else [] for f, r in rows.items()}
        G = self.groups(c, case)
        if case["bin"]:
            out = struct.pack("<3I", 1375135718, 3, len(pid))
            for i, p in zip(pid, c["points"]):
                out += struct.pack("<I3d", i, *p)
            for flag in ("zone", "face"):
                out += struct.pack("<I", len(rows[flag]))
                for i, (k, r) in zip(cid[flag], rows[flag]):
                    out += struct.pack(f"<{2 + len(r)}I", i, len(r), *r)
                g = [(k, v) for k, v in G.items() if k[0] == flag]
                out += struct.pack("<I", len(g))
                for (_, nm, slot), at in g:
                    out += struct.pack("<H", len(nm)) + nm.encode() + struct.pack("<H", len(slot)) + slot.encode()
                    out += struct.pack(f"<{1 + len(at)}I", len(at), *[cid[flag][i] for i in at])
            return out
        f, put = num(case["num"]), spaced(case["sp"])
        S = {"g": [put("G", i, *map(f, p)) for i, p in zip(pid, c["points"])]}
        for flag, L in (("zone", "Z"), ("face", "F")):
            S[L.lower()] = [put(L, k, i, *r) for i, (k, r) in zip(cid[flag], rows[flag])]
            g = []
            for (fl, nm, slot), at in G.items():
                if fl != flag:
                    continue
                q = case["quote"]
                g.append(f"{L}GROUP {q}{nm}{q} SLOT {slot}")
                w = {"row": 10, "one": 1, "indent": 3}[case["lay"]]
                v = [cid[flag][i] for i in at]
                g += [("    " if case["lay"] == "indent" else "") + put(*v[i:i + w]) for i in range(0, len(v), w)]
            S[L.lower() + "g"] = g
        order = {"gzf": ["g", "z", "zg", "f", "fg"], "gfz": ["g", "f", "fg", "z", "zg"], "mixed": ["g", "z", "f", "fg", "zg"]}[case["order"]]
        out = []
        if case["com"] == "head":
            out += ["* FLAC3D grid produced by hand", "*"]
        for s in order:
            if not S[s]:
                continue
            if case["blank"] == "sections":
                out += ["", ""]
            # a group ends at a comment
            out += ["* SECTION"] + (["* G 1 2 3"] if case["com"] == "sections" else []) + S[s]
        if case["com"] == "end":
            out += ["* end"]
        if case["blank"] == "end":
            out += ["", ""]
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


class Tecplot(Enc):
    name = "tecplot"
    ext = ".dat"
    full = ("b", "pack")
    menu = {
        "tri": dict(b=[["triangle", 3]], d=2),
        "tet": dict(b=[["tetra", 4]]),
        "hex": dict(b=[["hexahedron", 2]]),
        "quad": dict(b=[["quad", 3]]),
        "line": dict(b=[["line", 3]], d=2),
    }
    axes = dict(
        pack=["block", "point", "feblock", "fepoint"],
        pd=[[], ["u"], ["u", "Vel"], ["p q"], ["Velocity x comp", "w"], ["a=b", "c"]],
        cd=[[], ["mat"], ["mat", "E q"]],
        loc=["range", "list", "single", "nodal", "nv"],
        xyz=["XYZ", "xyz", "last"],
        var=["line", "several", "each", "plain", "nocomma", "blank"],
        title=["yes", "no", "zone", "zone=", "quote"],
        keys=["same", "lines", "comma", "compact", "wide", "ne"],
        low=["no", "keys", "all"],
        extra=["no", "strand", "dt", "text"],
        com=["no", "head", "zone", "data", "end"],
        blank=["no", "head", "data", "cells"],
        lay=["row", "one", "wrap"],
        sp=["one", "two", "tab", "lead", "trail"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        tail=["no", "zone"],
    )
    may = dict(low=["keys", "all"], extra=["strand", "dt", "text"], loc=["list", "single"], blank=["head"], com=["zone"])

    def admissible(self, case):
        if case["pack"] in ("point", "fepoint") and case["cd"]:
            return False
        if case["loc"] != "range" and not case["cd"]:
            return False
        if case["loc"] == "nv" and case["pack"] != "feblock":
            return False
        if case["pack"] == "feblock" and case["cd"] and case["loc"] != "nv":
            return False
        return not (case["var"] == "plain" and any(" " in x or "=" in x for x in case["pd"] + case["cd"]))

    def variables(self, c, case):
        """[(name, centre, values)]"""
        d = c["points"].shape[1]
        x = [({"XYZ": "XYZ", "xyz": "xyz", "last": "XYZ"}[case["xyz"]][i], "n", c["points"][:, i]) for i in range(d)]
        n, m = len(c["points"]), len(c["cells"][0][1])
        p = [(k, "n", (np.arange(n) * (i + 2) % 13) / 4 - 1) for i, k in enumerate(case["pd"])]
        q = [(k, "c", (np.arange(m) * (i + 3) % 7) / 2 - 1) for i, k in enumerate(case["cd"])]
        return p + x + q if case["xyz"] == "last" else x + p + q

    def expected(self, case):
        c = self.content(case)
        for k, w, v in self.variables(c, case):
            k = k.replace(" ", "_")
            if k in list("XYZxyz"):
                continue
            c["point_data" if w == "n" else "cell_data"][k] = v if w == "n" else [v]
        return c

    def encode(self, c, case):
        f, put = num(case["num"]), spaced(case["sp"])
        V = self.variables(c, case)
        t, T = c["cells"][0]
        d = len(c["points"]), len(T)
        out = []
        if case["com"] == "head":
            out += ["# made by hand", '# VARIABLES = "A"']
        if case["title"] in ("yes", "quote"):
            out.append('TITLE = "a mesh"' if case["title"] == "yes" else 'TITLE="ZONE N=4, E=7"')
        names = [k for k, _, _ in V]
        q = [f'"{k}"' for k in names]
        v = case["var"]
        if v == "line":
            out.append("VARIABLES = " + ", ".join(q))
        elif v == "several":
            out += ["VARIABLES = " + ", ".join(q[:2]) + ("," if len(q) > 2 else "")] + ([", ".join(q[2:])] if q[2:] else [])
        elif v == "each":
            out += ["VARIABLES = " + q[0]] + q[1:]
        elif v == "plain":
            out.append("VARIABLES = " + ", ".join(names))
        elif v == "nocomma":
            out.append("VARIABLES=" + " ".join(q))
        else:
            out += ["VARIABLES =   " + " , ".join(q)]
        if case["blank"] == "head":
            out.append("")
        et = {"triangle": "TRIANGLE", "tetra": "TETRAHEDRON", "hexahedron": "BRICK", "quad": "QUADRILATERAL", "line": "LINESEG"}[t]
        pk = case["pack"]
        N, E = ("N", "E") if case["keys"] == "ne" or pk.startswith("fe") else ("NODES", "ELEMENTS")
        z = [(N, d[0]), (E, d[1])]
        z += [("F", pk.upper()), ("ET", et)] if pk.startswith("fe") else [("DATAPACKING", pk.upper()), ("ZONETYPE", "FE" + et)]
        if case["title"] in ("zone", "quote"):
            z.insert(0, ("T", '"the zone"'))
        if case["title"] == "zone=":
            z.insert(0, ("T", '"t = 1.0, N=3"'))
        if case["cd"]:
            a, b = len(V) - len(case["cd"]) + 1, len(V)
            r = f"[{a}]" if a == b else f"[{a}-{b}]"
            if case["loc"] == "nv":
                z.append(("NV", a - 1))
            else:
                z.append(("VARLOCATION", {
                    "range": f"({r}=CELLCENTERED)", "list": "([" + ",".join(str(i) for i in range(a, b + 1)) + "]=CELLCENTERED)",
                    "single": "(" + ",".join(f"[{i}]=CELLCENTERED" for i in range(a, b + 1)) + ")", "nodal": f"([1-{a - 1}]=NODAL, {r}=CELLCENTERED)"}[case["loc"]]))
        if case["extra"] == "strand":
            z += [("STRANDID", 1), ("SOLUTIONTIME", "0.5")]
        if case["extra"] == "dt":
            z.append(("DT", "(" + " ".join(["SINGLE"] * len(V)) + ")"))
        k = case["keys"]
        eq = {"compact": "=", "wide": "  =  "}.get(k, " = ")
        kv = [f"{a}{eq}{b}" for a, b in z]
        if case["low"] == "keys":
            kv = [x.lower() for x in kv]
        if k == "lines":
            zl = ["ZONE " + kv[0]] + [", " + x for x in kv[1:]]
        elif k == "comma":
            zl = ["ZONE " + ", ".join(kv[:2]) + ","] + [", ".join(kv[2:])]
        elif k == "compact":
            zl = ["ZONE " + ",".join(kv)]
        elif k == "ne":
            zl = ["ZONE"] + kv
        else:
            zl = ["ZONE " + ", ".join(kv)]
        if case["low"] == "all":
            zl = [x.lower() for x in zl]
            out = [x.replace("VARIABLES", "variables").replace("TITLE", "title") for x in out]
        if case["com"] == "zone":
            zl.insert(1, "# a zone")
        out += zl
        if case["extra"] == "text":
            out.append('AUXDATA a = "b"')
        w = {"one": 1, "wrap": 3}.get(case["lay"])
        if pk.endswith("block"):
            rows = [list(map(f, x)) for _, _, x in V]
        else:
            rows = [[f(x[i]) for _, _, x in V] for i in range(d[0])]
        data = []
        for r in rows:
            data += [put(*r[i:i + w]) for i in range(0, len(r), w)] if w else [put(*r)]
        if case["com"] == "data":
            data.insert(1, "# 1 2 3")
        if case["blank"] == "data":
            data.insert(1, "")
        out += data
        if case["blank"] == "cells":
            out.append("")
        out += [put(*(r + 1)) for r in T]
        if case["com"] == "end":
            out.append("# the end")
        if case["tail"] == "zone":
            out.append("TEXT X=1, Y=2")
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


ENCODERS = [Su2(), Netgen(), Medit(), Meditb(), Tetgen(), Avs(), Dolfin(), Ugrid(), Flac(), Tecplot()]
