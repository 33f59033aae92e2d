import numpy as np

from .. import alphabet as A
from ..dec import spec
from .base import NUM, Enc, lines, num

CODE = {v: k for k, v in spec.VTK.items()}
INT = {"int": "i4", "long": "i8", "short": "i2", "char": "i1", "unsigned_char": "u1", "unsigned_short": "u2", "unsigned_int": "u4", "unsigned_long": "u8", "vtkIdType": "i4",
       "vtktypeint64": "i8", "vtktypeint32": "i4", "vtktypeuint8": "u1"}
FLT = {"float": "f4", "double": "f8"}
TYPES = dict(INT, **FLT)


def grid_cells(dim):
    """cells of a structured grid, x fastest"""
    nx, ny, nz = dim

    def p(i, j, k):
        return i + nx * (j + ny * k)

    act = [d for d in range(3) if dim[d] > 1]
    out = []
    for k in range(max(nz - 1, 1)):
        for j in range(max(ny - 1, 1)):
            for i in range(max(nx - 1, 1)):
                e = [np.array([int(d == a) for d in range(3)]) for a in act]
                o = np.array([i, j, k])
                sel = {1: [[0], [1]], 2: [[0, 0], [1, 0], [1, 1], [0, 1]],
                       3: [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}[len(act)]
                out.append([p(*(o + sum(s * v for s, v in zip(w, e)))) for w in sel])
    return [({1: "line", 2: "quad", 3: "hexahedron"}[len(act)], np.array(out))]


DIMS = {"d3": (3, 2, 4), "d2": (3, 4, 1), "d2x": (1, 3, 2), "d2y": (4, 1, 3), "d1": (5, 1, 1), "d1z": (1, 1, 3), "d3b": (2, 3, 2)}


class Vtk(Enc):
    name = "vtk"
    ext = ".vtk"
    full = ("b", "v", "enc")
    parts = ("points", "cells", "point_data", "cell_data", "field_data")
    menu = {
        "tri": dict(b=[["triangle", 3]]),
        "mix": dict(b=[["quad", 2], ["triangle", 2], ["quad", 1], ["line", 1]]),
        "vol": dict(b=[["wedge", 2], ["tetra10", 1], ["hexahedron20", 1], ["pyramid", 2], ["wedge15", 1], ["hexahedron27", 1]]),
        "poly": dict(b=[["quad", 1], ["polygon:5", 2], ["polygon:6", 1], ["wedge", 1]]),
    }
    axes = dict(
        v=["4.2", "5.1", "3.0", "2.0"],
        enc=["asc", "bin"],
        ds=["ug", "sp", "sg", "rg"],
        dim=list(DIMS),
        case=["up", "low"],
        pt=["double", "float", "int", "long"],
        ot=["vtktypeint64", "vtktypeint32"],
        dt=["double", "float", "int", "long", "unsigned_char", "unsigned_short", "short", "unsigned_int", "char", "unsigned_long", "vtkIdType"],
        data=["none", "scalars", "vectors", "tensors", "field", "several", "normals", "color", "texture"],
        nc=[1, 2, 3, 4],
        lut=["default", "table"],
        order=["pc", "cp"],
        fd=["no", "dataset"],
        meta=["no", "points", "arrays"],
        blank=[0, 1],
        wrap=["row", "one", "each"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        asp=[0, 1],
        kt=["full", "trail"],
    )
    may = dict(data=["normals", "texture"], case=["low"])

    def admissible(self, a):
        b = a["enc"] == "bin"
        if b and (a["num"] != "r" or a["nl"] != "\n" or a["wrap"] != "row" or a["blank"]):
            return False
        if b and not a["final"]:
            return False
        if a["ds"] == "ug" and (a["dim"] != "d3" or a["asp"]):
            return False
        if a["ds"] != "ug" and a["b"] != "tri":
            return False
        if a["ot"] != "vtktypeint64" and a["v"] != "5.1":
            return False
        if a["asp"] and a["ds"] != "sp":
            return False
        if a["nc"] != 1 and a["data"] not in ("scalars", "field", "several"):
            return False
        if a["lut"] == "table" and a["data"] not in ("scalars", "several"):
            return False
        if a["pt"] in INT and a["num"] in ("e", "E", "+", "f") or a["dt"] in INT and a["num"] in ("e", "E", "+", "f"):
            return False
        if a["pt"] in INT and a["ds"] == "ug" and a["b"] != "tri":
            return False
        if a["data"] == "none" and (a["dt"] != "double" or a["order"] != "pc"):
            return False
        return True

    def content(self, case):
        ds = case["ds"]
        if ds == "ug":
            c = A.build(self.menu[case["b"]])
            if case["pt"] in INT:
                c["points"] = np.round(c["points"] * 8)
        else:
            c = A.build(dict(b=[["triangle", 1]]))
            dim = DIMS[case["dim"]]
            if ds == "sp":
                ax = [0.5 + np.arange(dim[0]) * 0.25, -1 + np.arange(dim[1]) * 0.5, np.arange(dim[2]) * 2.0]
            else:
                ax = [np.cumsum([d + 1 + i % 2 for i in range(n)]) * (1.0 if case["pt"] in INT else 0.25) for d, n in enumerate(dim)]
            g = [(x, y, z) for z in ax[2] for y in ax[1] for x in ax[0]]
            c["axes"] = ax
            c["points"] = np.array(g)
            if ds == "sg" :
                c["points"] = c["points"] + np.array([[i % 3, 0, i % 2] for i in range(len(g))])
            c["cells"] = grid_cells(dim)
        n = len(c["points"])
        m = sum(len(x) for _, x in c["cells"])
        L = np.cumsum([len(x) for _, x in c["cells"]])[:-1]
        c["arrays"] = {}
        for where, k in (("p", n), ("c", m)):
            for kind, nm, comp in self.kinds(case):
                v = (np.arange(k * comp).reshape(k, comp) * 2 + (3 if where == "p" else 5)) % 120
                if case["dt"] in FLT:
                    v = v * 0.5
                c["arrays"][where, nm] = (kind, comp, v.astype(TYPES[case["dt"]]))
        for (where, nm), (kind, comp, v) in c["arrays"].items():
            if kind in ("color", "normals", "texture"):
                continue
            w = v.reshape(-1, 3, 3) if kind == "tensors" else v
            if kind == "field" and comp == 1:
                w = w[:, 0]
            if where == "p":
                c["point_data"][nm] = w
            else:
                c["cell_data"][nm] = np.split(w, L)
        if case["fd"] != "no":
            c["field_data"] = {"TIME": np.array([0.5]), "tab": np.array([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]])}
        return c

    def kinds(self, case):
        d, nc = case["data"], case["nc"]
        return {
            "none": [], "scalars": [("scalars", "temp", nc)], "vectors": [("vectors", "disp", 3)], "tensors": [("tensors", "sig", 9)],
            "field": [("field", "temp", nc), ("field", "f2", 3)], "several": [("scalars", "temp", 1), ("vectors", "disp", 3), ("field", "f2", nc), ("tensors", "sig", 9)],
            "normals": [("normals", "nn", 3)], "color": [("color", "col", 3), ("scalars", "temp", 1)], "texture": [("texture", "tc", 2)],
        }[d]

    def check(self, m, case):
        e = {"float": "f4", "double": "f8"}.get(case["pt"])
        if case["ds"] != "sp" and e and m.points.dtype.newbyteorder("=") != np.dtype(e):
            yield "dtype", f"points have type {m.points.dtype}"
        for k, v in m.point_data.items():
            if np.asarray(v).dtype.newbyteorder("=") != np.dtype(TYPES[case["dt"]]):
                yield "dtype", f"{k} has type {v.dtype}, file has {case['dt']}"

    def encode(self, c, case):
        b = case["enc"] == "bin"
        f = num(case["num"])
        low = case["case"] == "low"
        out = bytearray()
        K = (lambda s: s.lower()) if low else (lambda s: s)

        def text(s):
            out.extend(s.encode() + (b" \n" if case["kt"] == "trail" else b"\n"))

        def arr(a, ty, per=None):
            a = np.asarray(a)
            a2 = a.reshape(len(a), -1)
            if b:
                out.extend(a2.astype(">" + TYPES[ty]).tobytes() + b"\n")
                return
            w = [[f(x) if ty in FLT else str(int(x)) for x in r] for r in a2]
            if case["wrap"] == "one":
                w = [[x for r in w for x in r]]
            elif case["wrap"] == "each":
                w = [[x] for r in w for x in r]
            for r in w:
                out.extend((" ".join(r) + "\n").encode())
            if case["blank"]:
                out.extend(b"\n")

        def meta():
            text("METADATA")
            text("INFORMATION 0")
            out.extend(b"\n")

        text(f"# vtk DataFile Version {case['v']}")
        text("a title with POINTS 3 double")
        text("BINARY" if b else "ASCII")
        ds = case["ds"]
        text(K("DATASET") + " " + {"ug": "UNSTRUCTURED_GRID", "sp": "STRUCTURED_POINTS", "sg": "STRUCTURED_GRID", "rg": "RECTILINEAR_GRID"}[ds])
        if case["fd"] == "dataset":
            text(K("FIELD") + " FieldData 2")
            text("TIME 1 1 double")
            arr(np.array([[0.5]]), "double")
            text("tab 2 3 double")
            arr(c["field_data"]["tab"], "double")
        n = len(c["points"])
        pt = K(case["pt"]) if not low else case["pt"].upper()
        if ds != "ug":
            dim = DIMS[case["dim"]]
            text(K("DIMENSIONS") + " %d %d %d" % dim)
        if ds == "sp":
            o = [f(a[0]) for a in c["axes"]]
            s = [f(x) for x in (0.25, 0.5, 2.0)]
            q = [K("ORIGIN") + " " + " ".join(o), K("ASPECT_RATIO" if case["asp"] else "SPACING") + " " + " ".join(s)]
            for x in q if case["order"] == "pc" else q[::-1]:
                text(x)
        elif ds == "rg":
            for k, a in zip("XYZ", c["axes"]):
                text(K(f"{k}_COORDINATES") + f" {len(a)} {pt}")
                arr(a.reshape(-1, 1), case["pt"])
        else:
            text(K("POINTS") + f" {n} {pt}")
            arr(c["points"], case["pt"])
            if case["meta"] == "points":
                meta()
        if ds == "ug":
            conn, off, ty = [], [0], []
            for t, x in c["cells"]:
                for r in x:
                    r = [r[i] for i in spec.VTK_WEDGE] if t == "wedge" else list(r)
                    conn.append(r)
                    off.append(off[-1] + len(r))
                    ty.append(CODE[t])
            m = len(conn)
            if case["v"] == "5.1":
                text(K("CELLS") + f" {m + 1} {off[-1]}")
                text(f"OFFSETS {case['ot']}")
                arr(np.array(off).reshape(-1, 1), case["ot"])
                text(f"CONNECTIVITY {case['ot']}")
                arr(np.array([i for r in conn for i in r]).reshape(-1, 1), case["ot"])
            else:
                text(K("CELLS") + f" {m} {off[-1] + m}")
                if b:
                    arr(np.array([i for r in conn for i in [len(r)] + r]).reshape(-1, 1), "int")
                else:
                    for r in conn:
                        out.extend((" ".join(map(str, [len(r)] + r)) + ("\n" if case["wrap"] != "one" else " ")).encode())
                    out.extend(b"\n" if case["wrap"] == "one" else b"")
            text(K("CELL_TYPES") + f" {m}")
            arr(np.array(ty).reshape(-1, 1), "int")
        else:
            m = len(c["cells"][0][1])
        for where in case["order"]:
            a = {nm: v for (w, nm), v in c["arrays"].items() if w == where}
            if not a:
                continue
            text(K({"p": "POINT_DATA", "c": "CELL_DATA"}[where]) + f" {n if where == 'p' else m}")
            fl = [(nm, v) for nm, v in a.items() if v[0] == "field"]
            done = False
            ty = case["dt"] if not low else case["dt"].upper()
            for nm, (kind, comp, v) in a.items():
                if kind == "scalars":
                    text(K("SCALARS") + f" {nm} {ty}" + (f" {comp}" if comp > 1 or case["kt"] == "trail" else ""))
                    text(K("LOOKUP_TABLE") + (" default" if case["lut"] == "default" else " mine"))
                    arr(v, case["dt"])
                    if case["lut"] == "table":
                        text(K("LOOKUP_TABLE") + " mine 2")
                        t = np.array([[0, 0, 0, 1], [1, 0.5, 0, 1]])
                        if b:
                            out.extend((t * 255).astype("u1").tobytes() + b"\n")
                        else:
                            arr(t, "double")
                elif kind in ("vectors", "tensors", "normals"):
                    text(K(kind.upper()) + f" {nm} {ty}")
                    arr(v, case["dt"])
                elif kind == "texture":
                    text(K("TEXTURE_COORDINATES") + f" {nm} 2 {ty}")
                    arr(v, case["dt"])
                elif kind == "color":
                    text(K("COLOR_SCALARS") + f" {nm} 3")
                    t = np.arange(len(v) * 3).reshape(-1, 3) % 5 / 4
                    if b:
                        out.extend((t * 255).astype("u1").tobytes() + b"\n")
                    else:
                        arr(t, "double")
                elif not done:
                    done = True
                    text(K("FIELD") + f" FieldData {len(fl)}")
                    for nm2, (_, k2, v2) in fl:
                        text(f"{nm2} {k2} {len(v2)} {ty}")
                        arr(v2, case["dt"])
                        if case["meta"] == "arrays":
                            meta()
        if b:
            return bytes(out) if case["final"] else bytes(out[:-1])
        return lines(out.decode(), case["nl"], case["final"])


ENCODERS = [Vtk()]
