import base64
import lzma
import zlib

import numpy as np

from .. import alphabet as A
from ..dec import spec
from .base import NUM, Enc, lines, num

CODE = {v: k for k, v in spec.VTK.items()}
VT = {"Float32": "f4", "Float64": "f8", "Int8": "i1", "Int16": "i2", "Int32": "i4", "Int64": "i8", "UInt8": "u1", "UInt16": "u2", "UInt32": "u4", "UInt64": "u8"}


def prism(base, top):
    n = len(base)
    return [base, top] + [[base[i], base[(i + 1) % n], top[(i + 1) % n], top[i]] for i in range(n)]


POLYHEDRA = [prism([0, 1, 2, 3], [4, 5, 6, 7]), prism([0, 1, 2], [4, 5, 6]), prism([8, 9, 10, 11], [4, 5, 6, 7]), prism([1, 2, 3], [5, 6, 7]), [[0, 1, 2], [0, 1, 8], [1, 2, 8], [0, 2, 8]]]


class Vtu(Enc):
    name = "vtu"
    ext = ".vtu"
    full = ("b", "enc")
    parts = ("points", "cells", "point_data", "cell_data", "field_data")
    menu = {
        "tri": dict(b=[["triangle", 3]]),
        "mix": dict(b=[["quad", 2], ["triangle", 2], ["polygon:5", 2], ["polygon:6", 1], ["line", 1]]),
        "vol": dict(b=[["wedge", 2], ["tetra10", 1], ["hexahedron20", 1], ["pyramid", 2]]),
        "poly": dict(b=[["vertex", 1]], np=12),
        "long": dict(b=[["triangle", 3]], np=300),
    }
    axes = dict(
        enc=["ascii", "binary", "appended", "raw"],
        comp=["none", "zlib", "lzma"],
        block=[32768, 40, 16, 8],
        hdr=["UInt32", "UInt64", "absent"],
        join=["together", "apart"],
        bo=["LittleEndian", "BigEndian", "absent"],
        ver=["0.1", "1.0", "absent"],
        pt=["Float64", "Float32"],
        ct=["Int64", "Int32", "UInt32", "Int16"],
        ot=["Int64", "Int32", "UInt64", "UInt8"],
        tt=["UInt8", "Int64", "Int32"],
        dt=["Float64", "Float32", "Int32", "UInt8", "Int8", "UInt64", "UInt16"],
        data=["none", "scalar", "nc1", "vec", "tens", "empty", "several"],
        pieces=[1, 2, 3],
        order=["pcPC", "PCpc", "cpCP"],
        fd=[0, 1],
        attrs=[0, 1],
        decl=[0, 1],
        com=[0, 1],
        wrap=["row", "one", "each"],
        num=NUM,
        nl=["\n", "\r\n"],
        ind=["  ", "", "\t"],
        fmt=[1, 0],
        arr=["coT", "Toc", "ocT"],
        rawend=[1, 0],
    )
    may = dict(rawend=[0])

    def admissible(self, a):
        e = a["enc"]
        if e == "ascii":
            if a["comp"] != "none" or a["bo"] == "BigEndian" or a["hdr"] != "UInt32" or a["join"] != "together":
                return False
        else:
            if a["num"] != "r" or a["wrap"] != "row" or not a["fmt"]:
                return False
        if e == "raw" and a["nl"] != "\n":
            return False
        if a["block"] != 32768 and a["comp"] == "none":
            return False
        if a["join"] == "apart" and (a["comp"] != "none" or e == "raw"):
            return False
        if a["rawend"] == 0 and e != "raw":
            return False
        if a["data"] == "none" and a["dt"] != "Float64":
            return False
        if not a["dt"].startswith("Float") and a["num"] not in "ri":
            return False
        if a["pieces"] > 1 and a["b"] in ("tri", "poly", "long", "late"):
            return False
        return True

    def one(self, case, k=0):
        c = A.build(self.menu[case["b"]])
        if case["b"] == "poly":
            c["cells"] = [("polyhedron", POLYHEDRA)]
        c["points"] = c["points"] + k * 10
        if k == 1 and case["pieces"] == 3:  # of another size
            c["points"] = np.concatenate([c["points"], c["points"][:2] - 3])
        n = len(c["points"])
        m = sum(len(x) for _, x in c["cells"])
        d = case["data"]
        comp = {"none": [], "scalar": [("s", 1, 0)], "nc1": [("s", 1, 1)], "vec": [("v", 3, 1)], "tens": [("t", 9, 1)], "empty": [("s", 1, 2)], "several": [("s", 1, 0), ("v", 3, 1), ("w", 2, 1)]}[d]
        c["raw"] = {"P": [], "C": []}
        for w, q in (("P", n), ("C", m)):
            for j, (nm, nc, how) in enumerate(comp):
                v = (np.arange(q * nc).reshape(q, nc) * (j + 1) + 5 * k + (7 if w == "C" else 0)) % 100
                v = v * 0.5 if case["dt"].startswith("Float") else v
                v = v.astype(VT[case["dt"]])
                c["raw"][w].append((nm, nc, how, v if how == 1 else v[:, 0]))
        return c

    def content(self, case):
        return [self.one(case, k) for k in range(case["pieces"])]

    def expected(self, case):
        ps = self.content(case)
        out = A.build(dict(b=[["vertex", 1]]))
        out["points"] = np.concatenate([p["points"] for p in ps]).astype(VT[case["pt"]])
        out["point_data"] = {}
        out["cell_data"] = {}
        out["cells"] = []
        off = 0
        for p in ps:
            if case["b"] == "poly":
                groups = {}
                for i, fc in enumerate(POLYHEDRA):
                    groups.setdefault(len({v for q in fc for v in q}), []).append(i)
                for k, it in groups.items():
                    out["cells"].append((f"polyhedron{k}", [POLYHEDRA[i] for i in it]))
            else:
                for t, x in p["cells"]:
                    out["cells"].append((t, x + off))
            for nm, nc, how, v in p["raw"]["P"]:
                out["point_data"].setdefault(nm, []).append(v)
            for nm, nc, how, v in p["raw"]["C"]:
                if case["b"] == "poly":
                    out["cell_data"].setdefault(nm, []).extend(v[it] for it in groups.values())
                else:
                    out["cell_data"].setdefault(nm, []).extend(np.split(v, np.cumsum([len(x) for _, x in p["cells"]])[:-1]))
            off += len(p["points"])
        out["point_data"] = {k: np.concatenate(v) for k, v in out["point_data"].items()}
        if case["fd"]:
            out["field_data"] = {"TimeValue": np.array([0.5]), "tab": np.array([[1, 2], [3, 4]])}
        return out

    def check(self, m, case):
        for k, v in m.point_data.items():
            if np.asarray(v).dtype.newbyteorder("=") != np.dtype(VT[case["dt"]]):
                yield "dtype", f"{k} has type {v.dtype}, file has {case['dt']}"

    def encode(self, ps, case):
        f = num(case["num"])
        e = case["enc"]
        bo = ">" if case["bo"] == "BigEndian" else "<"
        ht = bo + {"UInt64": "u8"}.get(case["hdr"], "u4")
        app = bytearray()
        I = case["ind"]
        out = []

        def pack(raw):
            if case["comp"] == "none":
                return np.array([len(raw)], ht).tobytes(), raw
            z = {"zlib": zlib, "lzma": lzma}[case["comp"]].compress
            bs = case["block"]
            parts = [raw[i:i + bs] for i in range(0, len(raw), bs)]
            last = len(parts[-1]) if len(parts[-1]) < bs else 0
            zs = [z(p) for p in parts]
            return np.array([len(zs), bs, last] + [len(q) for q in zs], ht).tobytes(), b"".join(zs)

        def b64(raw):
            h, d = pack(raw)
            if case["comp"] == "none" and case["join"] == "together":
                return base64.b64encode(h + d)
            return base64.b64encode(h) + base64.b64encode(d)

        def arr(name, ty, a, nc, depth, fmt=None):
            a = np.asarray(a)
            fmt = fmt or {"raw": "appended"}.get(e, e)
            at = f'type="{ty}"' + (f' Name="{name}"' if name else "")
            if nc is not None:
                at += f' NumberOfComponents="{nc}"'
            if fmt != "ascii" or case["fmt"]:
                at += f' format="{fmt}"'
            if case["attrs"]:
                at += ' RangeMin="0" RangeMax="9"'
            if fmt == "appended":
                out.append(I * depth + f'<DataArray {at} offset="{len(app)}"/>')
                raw = a.astype(bo + VT[ty]).tobytes()
                app.extend(b"".join(pack(raw)) if e == "raw" else b64(raw))
                return
            out.append(I * depth + f"<DataArray {at}>")
            if fmt == "binary":
                out.append(I * (depth + 1) + b64(a.astype(bo + VT[ty]).tobytes()).decode())
            else:
                a2 = a.reshape(len(a), -1)
                w = [[f(x) if ty.startswith("F") else str(int(x)) for x in r] for r in a2]
                if case["wrap"] == "one":
                    w = [[x for r in w for x in r]]
                elif case["wrap"] == "each":
                    w = [[x] for r in w for x in r]
                out.extend(I * (depth + 1) + " ".join(r) for r in w)
            out.append(I * depth + "</DataArray>")

        if case["decl"]:
            out.append('<?xml version="1.0"?>')
        if case["com"]:
            out.append("<!-- <VTKFile> & more -->".replace("&", "and"))
        at = 'type="UnstructuredGrid"'
        if case["ver"] != "absent":
            at += f' version="{case["ver"]}"'
        if case["bo"] != "absent":
            at += f' byte_order="{case["bo"]}"'
        if case["hdr"] != "absent":
            at += f' header_type="{case["hdr"]}"'
        if case["comp"] != "none":
            at += ' compressor="vtk%sDataCompressor"' % {"zlib": "ZLib", "lzma": "LZMA"}[case["comp"]]
        out += [f"<VTKFile {at}>", I + "<UnstructuredGrid>"]
        if case["fd"]:
            out.append(I * 2 + "<FieldData>")
            arr("TimeValue", "Float64", np.array([0.5]), None, 3)
            arr("tab", "Int32", np.array([[1, 2], [3, 4]]), 2, 3)
            out.append(I * 2 + "</FieldData>")
        for p in ps:
            conn, off, ty, faces, fo = [], [], [], [], []
            for t, x in p["cells"]:
                for r in x:
                    if t == "polyhedron":
                        nodes = sorted({v for q in r for v in q})
                        faces += [len(r)] + [v for q in r for v in [len(q)] + list(q)]
                        fo.append(len(faces))
                        conn += nodes
                        ty.append(42)
                    else:
                        conn += [r[i] for i in spec.VTK_WEDGE] if t == "wedge" else list(r)
                        ty.append(CODE[t])
                    off.append(len(conn))
            n, m = len(p["points"]), len(ty)
            out.append(I * 2 + f'<Piece NumberOfPoints="{n}" NumberOfCells="{m}">')
            for s in case["order"]:
                if s == "p":
                    out.append(I * 3 + "<Points>")
                    arr("Points" if not case["com"] else None, case["pt"], p["points"], 3, 4)
                    out.append(I * 3 + "</Points>")
                elif s == "c":
                    out.append(I * 3 + "<Cells>")
                    for q in case["arr"]:
                        nc = 1 if case["attrs"] else None
                        if q == "c":
                            arr("connectivity", case["ct"], np.array(conn), nc, 4)
                        elif q == "o":
                            arr("offsets", case["ot"], np.array(off), nc, 4)
                        else:
                            arr("types", case["tt"], np.array(ty), nc, 4)
                    if fo:
                        arr("faces", case["ct"], np.array(faces), None, 4)
                        arr("faceoffsets", case["ct"], np.array(fo), None, 4)
                    out.append(I * 3 + "</Cells>")
                else:
                    tag = {"P": "PointData", "C": "CellData"}[s]
                    if not p["raw"][s] and case["com"]:
                        continue
                    out.append(I * 3 + f"<{tag}" + (' Scalars="s"' if case["attrs"] else "") + ">")
                    for nm, nc, how, v in p["raw"][s]:
                        arr(nm, case["dt"], v, {0: None, 1: nc, 2: ""}[how], 4)
                    out.append(I * 3 + f"</{tag}>")
            out.append(I * 2 + "</Piece>")
        out.append(I + "</UnstructuredGrid>")
        nl = case["nl"]
        if e in ("appended", "raw"):
            enc = "base64" if e == "appended" else "raw"
            head = nl.join(out + [I + f'<AppendedData encoding="{enc}">']) + nl + I * 2 + "_"
            tail = (nl + I if case["rawend"] else "") + "</AppendedData>" + nl + "</VTKFile>" + nl
            return head.encode() + bytes(app) + tail.encode()
        return (nl.join(out + ["</VTKFile>"]) + nl).encode()


# ---------------------------------------------------------------------------
XD = {
    "vertex": ["Polyvertex"], "line": ["Polyline"], "triangle": ["Triangle"], "quad": ["Quadrilateral"], "tetra": ["Tetrahedron"], "pyramid": ["Pyramid"], "wedge": ["Wedge"], "hexahedron": ["Hexahedron"],
    "line3": ["Edge_3"], "triangle6": ["Tri_6", "Triangle_6"], "quad8": ["Quad_8", "Quadrilateral_8"], "quad9": ["Quad_9", "Quadrilateral_9"], "tetra10": ["Tet_10", "Tetrahedron_10"],
    "pyramid13": ["Pyramid_13"], "wedge15": ["Wedge_15"], "wedge18": ["Wedge_18"], "hexahedron20": ["Hex_20", "Hexahedron_20"], "hexahedron27": ["Hex_27", "Hexahedron_27"],
}
XCODE = {v: k for k, v in spec.XDMF.items()}
XDT = {("Float", 4): "f4", ("Float", 8): "f8", ("Int", 4): "i4", ("Int", 8): "i8", ("UInt", 4): "u4", ("UInt", 8): "u8", ("Int", 2): "i2", ("UInt", 1): "u1", ("Int", 1): "i1", ("UInt", 2): "u2"}


class Xdmf(Enc):
    name = "xdmf"
    ext = ".xdmf"
    full = ("b", "v", "enc")
    menu = dict(
        {"tri": dict(b=[["triangle", 3]]), "hex": dict(b=[["hexahedron20", 2]]), "tet": dict(b=[["tetra10", 3]]), "line": dict(b=[["line", 3]]),
         "mix": dict(b=[["quad", 2], ["triangle", 2], ["quad", 1], ["line", 2], ["vertex", 2]]),
         "vol": dict(b=[["wedge15", 1], ["hexahedron27", 1], ["wedge18", 1], ["tetra", 2], ["pyramid13", 1], ["quad9", 1], ["line3", 1], ["triangle6", 2], ["hexahedron", 1], ["quad8", 1], ["pyramid", 2], ["wedge", 1]])})
    axes = dict(
        v=["3.0", "2.0", "2.2", "3"],
        enc=["XML", "HDF", "Binary"],
        tk=["TopologyType", "Type"],
        nt=["NumberType", "DataType", "none"],
        alias=[0, 1],
        mixed=["auto", "always"],
        prec=[8, 4],
        it=[("Int", 8), ("Int", 4), ("UInt", 4), ("UInt", 8)],
        dt=[("Float", 8), ("Float", 4), ("Int", 4), ("Int", 8), ("UInt", 1), ("Int", 1)],
        data=["none", "scalar", "n1", "vec", "tens", "several"],
        order=["tga", "gta", "atg"],
        doctype=[0, 1],
        com=[0, 1],
        wrap=["row", "one", "each"],
        num=NUM,
        nl=["\n", "\r\n"],
        h5=["slash", "noslash", "nested", "spaces"],
        endian=["none", "Little", "Big", "Native"],
        seek=[0, 16],
        ge=["XYZ", "XY"],
        gk=[0, 1],
        time=[0, 1],
        ref=[0, 1],
    )
    may = dict(time=[1], ref=[1], doctype=[])

    def admissible(self, a):
        e = a["enc"]
        if e != "XML" and (a["num"] != "r" or a["wrap"] != "row"):
            return False
        if a["h5"] != "slash" and e != "HDF":
            return False
        if (a["endian"] != "none" or a["seek"]) and e != "Binary":
            return False
        if a["v"].startswith("2") and (a["tk"] == "Type" or a["ge"] == "XY"):
            return False
        if a["mixed"] == "always" and a["b"] in ("mix", "vol"):
            return False
        if a["nt"] == "none" and (a["it"] != ("Int", 8) or a["dt"] != ("Float", 8) or a["prec"] != 8):
            return False
        if not a["dt"][0] == "Float" and a["num"] not in "ri":
            return False
        if a["data"] == "none" and a["dt"] != ("Float", 8):
            return False
        return True

    def content(self, case):
        c = A.build(self.menu[case["b"]])
        if case["ge"] == "XY":
            c["points"] = c["points"][:, :2]
        n = len(c["points"])
        m = sum(len(x) for _, x in c["cells"])
        comp = {"none": [], "scalar": [("s", ())], "n1": [("s", (1,))], "vec": [("v", (3,))], "tens": [("t", (3, 3))], "several": [("s", ()), ("v", (3,)), ("t", (9,))]}[case["data"]]
        L = np.cumsum([len(x) for _, x in c["cells"]])[:-1]
        for j, (nm, sh) in enumerate(comp):
            for w, q in (("P", n), ("C", m)):
                v = (np.arange(q * int(np.prod(sh, dtype=int))).reshape(q, *sh) * (j + 1) + (5 if w == "C" else 0)) % 100
                v = (v * 0.5 if case["dt"][0] == "Float" else v).astype(XDT[case["dt"]])
                if w == "P":
                    c["point_data"][nm] = v
                else:
                    c["cell_data"][nm] = np.split(v, L)
        return c

    def check(self, m, case):
        if case["nt"] == "none":
            return
        for k, v in m.point_data.items():
            if np.asarray(v).dtype.newbyteorder("=") != np.dtype(XDT[case["dt"]]):
                yield "dtype", f"{k} has type {v.dtype}, file has {case['dt']}"

    def encode(self, c, case):
        f = num(case["num"])
        files = {}
        h5 = {}
        out = []
        k = 0

        def item(a, ty, depth):
            nonlocal k
            a = np.asarray(a)
            t, p = ty
            if case["nt"] == "none" and t == "Float":
                p = 4  # the default
            a = a.astype(XDT[t, p])
            at = f'Dimensions="{" ".join(map(str, a.shape))}" Format="{case["enc"]}"'
            if case["nt"] != "none":
                at += f' {case["nt"]}="{t}" Precision="{p}"'
            elif t != "Float":
                at += f' NumberType="{t}" Precision="{p}"'
            pre = " " * depth
            e = case["enc"]
            if e == "XML":
                out.append(f"{pre}<DataItem {at}>")
                a2 = a.reshape(len(a), -1)
                w = [[f(x) if t == "Float" else str(int(x)) for x in r] for r in a2]
                if case["wrap"] == "one":
                    w = [[x for r in w for x in r]]
                elif case["wrap"] == "each":
                    w = [[x] for r in w for x in r]
                out.extend(pre + "  " + " ".join(r) for r in w)
                out.append(f"{pre}</DataItem>")
            elif e == "HDF":
                name = f"group/d{k}" if case["h5"] == "nested" else f"d{k}"
                h5[name] = a
                tx = f"mesh.h5:{'' if case['h5'] == 'noslash' else '/'}{name}"
                out.append(f"{pre}<DataItem {at}>" + (f"\n   {tx}\n" if case["h5"] == "spaces" else tx) + "</DataItem>")
            else:
                if case["endian"] != "none":
                    at += f' Endian="{case["endian"]}"'
                if case["seek"]:
                    at += f' Seek="{case["seek"]}"'
                b = b"\x07" * case["seek"] + a.astype((">" if case["endian"] == "Big" else "<") + XDT[t, p]).tobytes()
                files[f"mesh{k}.bin"] = b
                out.append(f"{pre}<DataItem {at}>mesh{k}.bin</DataItem>")
            k += 1

        if case["doctype"]:
            out += ['<?xml version="1.0" ?>', '<!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>']
        out += [f'<Xdmf Version="{case["v"]}">', " <Domain>"]
        self.body(c, case, out, item)
        out += [" </Domain>", "</Xdmf>"]
        files["mesh.xdmf"] = lines("\n".join(out) + "\n", case["nl"])
        if h5:
            def put(path):
                import h5py

                with h5py.File(path, "w") as h:
                    for nm, a in h5.items():
                        h[nm] = a

            files["mesh.h5"] = put
        return files

    def body(self, c, case, out, item):
        out.append('  <Grid Name="mesh"' + (' GridType="Uniform"' if case["gk"] else "") + ">")
        if case["com"]:
            out.append("   <!-- a comment -->")
        if case["time"]:
            out.append('   <Time Value="0.5"/>')
        self.parts_of(case["order"], c, case, out, item)
        if case["ref"]:
            out.append("   <Information Name=\"x\" Value=\"1\"/>")
        out.append("  </Grid>")

    def parts_of(self, order, c, case, out, item):
        fl = ("Float", case["prec"])
        n, d = c["points"].shape
        m = sum(len(x) for _, x in c["cells"])
        for s in order:
            if s == "t":
                if len(c["cells"]) > 1 or case["mixed"] == "always":
                    out.append(f'   <Topology {case["tk"]}="Mixed" NumberOfElements="{m}">')
                    v = []
                    for t, x in c["cells"]:
                        for r in x:
                            v += [XCODE[t]] + ([len(r)] if t in ("vertex", "line") else []) + [int(i) for i in r]
                    item(np.array(v), case["it"], 4)
                else:
                    t, x = c["cells"][0]
                    al = XD[t]
                    out.append(f'   <Topology {case["tk"]}="{al[case["alias"] % len(al)]}" NumberOfElements="{m}"' + (' NodesPerElement="2"' if t == "line" else "") + ">")
                    item(x, case["it"], 4)
                out.append("   </Topology>")
            elif s == "g":
                out.append(f'   <Geometry {case["tk"].replace("Topology", "Geometry")}="{case["ge"]}">')
                item(c["points"], fl, 4)
                out.append("   </Geometry>")
            else:
                at = "AttributeType" if case["tk"] == "TopologyType" else "Type"
                for w, dd in (("Node", c["point_data"]), ("Cell", c["cell_data"])):
                    for nm, v in dd.items():
                        v = np.concatenate(v) if w == "Cell" else v
                        kind = {1: "Scalar", 2: "Vector", 3: "Tensor"}[v.ndim]
                        out.append(f'   <Attribute Name="{nm}" {at}="{kind}" Center="{w}">')
                        item(v, case["dt"], 4)
                        out.append("   </Attribute>")


class XdmfSeries(Xdmf):
    """time series (read by meshio.xdmf.TimeSeriesReader)"""

    name = "xdmf-series"
    full = ("b", "enc")
    axes = dict(
        {k: v for k, v in Xdmf.axes.items() if k not in ("time", "ref", "gk")},
        v=["3.0", "3"],
        place=["before", "after", "first", "each"],
        steps=[2, 0, 1, 12],
        times=["up", "int", "exp", "neg", "same"],
        only=["both", "point", "cell", "alternate"],
        at=["first", "last"],
        walk=["up", "down", "twice"],
        inc=["xi", "none"],
        info=[0, 1],
    )
    axes["data"] = ["scalar", "none", "n1", "vec", "tens", "several"]
    menu = {k: Xdmf.menu[k] for k in ("tri", "mix", "hex")}
    may = dict(info=[1], h5=["noslash"])

    def admissible(self, a):
        if a["order"] == "atg" or a["place"] in ("first", "each") and not a["steps"]:
            return False
        return super().admissible(a)

    def t(self, case):
        n = case["steps"]
        return {"up": [0.5 * k for k in range(n)], "int": list(range(3, n + 3)), "exp": [2.0 ** (k - 30) for k in range(n)], "neg": [0.25 * k - 1 for k in range(n)], "same": [1.5] * n}[case["times"]]

    def step(self, c, case, k):
        o = case["only"]
        o = ("point", "cell")[k % 2] if o == "alternate" else o
        sc = lambda v: ((v + k) % 100).astype(v.dtype)
        return {
            "point_data": {n: sc(v) for n, v in c["point_data"].items()} if o != "cell" else {},
            "cell_data": {n: [sc(x) for x in v] for n, v in c["cell_data"].items()} if o != "point" else {},
        }

    def expected(self, case):
        c = self.content(case)
        q = dict(c, point_data={}, cell_data={})
        for k in range(case["steps"]):
            s = self.step(c, case, k)
            for w in ("point_data", "cell_data"):
                q[w].update({f"{k}:{n}": v for n, v in s[w].items()})
        return q

    def read(self, meshio, path, case):
        pd, cd = {}, {}
        with meshio.xdmf.TimeSeriesReader(path) as r:
            points, cells = r.read_points_cells()
            self.times_read = [None] * r.num_steps
            order = list(range(r.num_steps))
            order = {"up": order, "down": order[::-1], "twice": order + order}[case["walk"]]
            for k in order:
                self.times_read[k], a, b = r.read_data(k)
                pd.update({f"{k}:{n}": v for n, v in a.items()})
                cd.update({f"{k}:{n}": v for n, v in b.items()})
        return meshio.Mesh(points, cells, point_data=pd, cell_data=cd)

    def check(self, m, case):
        if self.times_read != self.t(case):
            yield "times", f"times {self.times_read} instead of {self.t(case)}"
        yield from super().check(m, case)

    def body(self, c, case, out, item):
        pl = case["place"]

        def mesh():
            out.append('  <Grid Name="mesh" GridType="Uniform">')
            self.parts_of(case["order"].replace("a", ""), c, case, out, item)
            out.append("  </Grid>")

        if pl == "before":
            mesh()
        if case["com"]:
            out.append("   <!-- a comment -->")
        out.append('  <Grid Name="series" GridType="Collection" CollectionType="Temporal">')
        if case["info"]:
            out.append('   <Information Name="x" Value="1"/>')
        for k, t in enumerate(self.t(case)):
            own = pl == "each" or pl == "first" and k == 0
            out.append(f'   <Grid Name="s{k}"' + (' GridType="Uniform"' if own or case["inc"] == "none" else "") + ">")
            if own:
                self.parts_of(case["order"].replace("a", ""), c, case, out, item)
            elif case["inc"] == "xi":
                out.append('    <xi:include xmlns:xi="http://www.w3.org/2001/XInclude" xpointer="xpointer(//Grid[@Name=&quot;mesh&quot;]/*[self::Topology or self::Geometry])" />')
            tm = f'    <Time Value="{t!r}" />'
            if case["at"] == "first":
                out.append(tm)
            self.parts_of("a", dict(c, **self.step(c, case, k)), case, out, item)
            if case["at"] == "last":
                out.append(tm)
            out.append("   </Grid>")
        out.append("  </Grid>")
        if pl == "after":
            mesh()


ENCODERS = [Vtu(), Xdmf(), XdmfSeries()]
