import numpy as np

from .. import alphabet as A
from .base import NUM, Enc, lines, num

SURF = {
    "tri": dict(b=[["triangle", 3]]),
    "mix": dict(b=[["quad", 2], ["triangle", 2], ["quad", 1], ["polygon:5", 2], ["polygon:6", 1]]),
}
PT = {"float": "f4", "double": "f8", "float32": "f4", "float64": "f8", "int": "i4", "short": "i2", "int32": "i4", "char": "i1", "uchar": "u1", "uint8": "u1", "ushort": "u2", "uint": "u4", "int16": "i2", "uint32": "u4", "int8": "i1", "uint16": "u2"}


class Ply(Enc):
    name = "ply"
    ext = ".ply"
    full = ("b", "enc")
    menu = dict(SURF, line=dict(b=[["line", 2], ["triangle", 1]]))
    axes = dict(
        enc=["asc", "le", "be"],
        pt=["double", "float", "float32", "float64", "int", "short"],
        xyz=["xyz", "zyx", "mixed", "xy"],
        extra=["none", "float", "uchar", "color", "before"],
        ct=["uchar", "uint8", "int", "ushort", "char", "int32", "uint", "uint16"],
        it=["int", "uint", "short", "ushort", "int32", "uchar", "uint32"],
        vi=["vertex_indices", "vertex_index"],
        fp=["none", "after", "before", "two", "list", "ragged"],
        com=["no", "top", "mid", "obj_info"],
        num=NUM,
        nl=["\n", "\r\n"],
        sp=[" ", "  ", "trail"],
        final=[1, 0],
        el=["none", "edge", "facefirst"],
    )
    may = dict(el=["edge", "facefirst"], vi=["vertex_index"], fp=["ragged"])

    def admissible(self, a):
        if a["enc"] != "asc" and (a["num"] != "r" or a["nl"] != "\n" or a["sp"] != " " or not a["final"]):
            return False
        if a["pt"] in ("int", "short") and a["num"] not in ("r", "i"):
            return False
        if a["fp"] == "ragged" and a["b"] in ("tri", "late"):
            return False
        return True

    def content(self, case):
        c = A.build(self.menu[case["b"]])
        P = c["points"]
        if case["pt"] in ("int", "short"):
            P = np.round(P * 8)
        if case["xyz"] == "xy":
            P = P[:, :2]
        c["points"] = P
        n = len(P)
        i = np.arange(n)
        c["extra"] = {"none": [], "float": [("temp", "float", i * 0.5)], "uchar": [("q", "uchar", i + 200)], "color": [("red", "uchar", i + 1), ("green", "uchar", i + 2), ("w", "double", i * 0.25 - 1)],
                      "before": [("temp", "short", i - 5)]}[case["extra"]]
        c["point_data"] = {k: v.astype(PT[t]) for k, t, v in c["extra"]}
        m = sum(len(x) for _, x in c["cells"])
        L = np.cumsum([len(x) for _, x in c["cells"]])[:-1]
        j = np.arange(m)
        c["face"] = {"none": [], "after": [("mat", "int", j + 3)], "before": [("mat", "uchar", j + 3)], "two": [("mat", "short", j - 2), ("a", "float", j * 0.5)],
                     "list": [("uv", "float", np.arange(2 * m).reshape(m, 2) * 0.25)], "ragged": [("uv", "float", None)]}[case["fp"]]
        c["cell_data"] = {k: np.split(v, L) for k, t, v in c["face"] if v is not None}
        return c

    def encode(self, c, case):
        b = case["enc"] != "asc"
        e = ">" if case["enc"] == "be" else "<"
        f = num(case["num"])
        h = ["ply", "format " + {"asc": "ascii", "le": "binary_little_endian", "be": "binary_big_endian"}[case["enc"]] + " 1.0"]
        if case["com"] == "top":
            h.append("comment element vertex 9 property")
        if case["com"] == "obj_info":
            h.append("obj_info num_cols 512")
        n = len(c["points"])
        ax = {"xyz": "xyz", "zyx": "zyx", "mixed": "yxz", "xy": "xy"}[case["xyz"]]
        props = [(k, case["pt"], c["points"]["xyz".index(k)] if False else c["points"][:, "xyz".index(k)]) for k in ax]
        props = c["extra"] + props if case["extra"] == "before" else props + c["extra"]
        vh = [f"element vertex {n}"] + [f"property {t} {k}" for k, t, _ in props]
        if case["com"] == "mid":
            vh.insert(2, "comment hello")
        faces = [list(r) for _, x in c["cells"] for r in x]
        m = len(faces)
        fp = [(k, t, v if v is not None else [np.arange(len(r)) * 0.5 for r in faces]) for k, t, v in c["face"]]
        lst = [(case["vi"], None, faces)]
        fp = fp + lst if case["fp"] == "before" else lst + fp

        def fh(k, t, v):
            if t is None:
                return f"property list {case['ct']} {case['it']} {k}"
            return f"property list uchar {t} {k}" if np.ndim(v[0]) else f"property {t} {k}"

        fhd = [f"element face {m}"] + [fh(*p) for p in fp]
        h += (fhd + vh) if case["el"] == "facefirst" else (vh + fhd)
        if case["el"] == "edge":
            h += ["element edge 1", "property int vertex1", "property int vertex2"]
        h.append("end_header")

        def s(t, v):
            return f(v) if t.startswith(("f", "d")) else str(int(v))

        V, F = [], []
        for i in range(n):
            V.append([(t, x[i]) for _, t, x in props])
        for i in range(m):
            r = []
            for k, t, v in fp:
                if t is None:
                    r += [(case["ct"], len(v[i]))] + [(case["it"], q) for q in v[i]]
                elif np.ndim(v[i]):
                    r += [("uchar", len(v[i]))] + [(t, q) for q in v[i]]
                else:
                    r.append((t, v[i]))
            F.append(r)
        rows = F + V if case["el"] == "facefirst" else V + F
        if case["el"] == "edge":
            rows.append([("int", 0), ("int", 1)])
        if b:
            return ("\n".join(h) + "\n").encode() + b"".join(np.array(v).astype(e + PT[t]).tobytes() for r in rows for t, v in r)
        sep = "  " if case["sp"] == "  " else " "
        end = " " if case["sp"] == "trail" else ""
        return lines("\n".join(h + [sep.join(s(t, v) for t, v in r) + end for r in rows]) + "\n", case["nl"], case["final"])


class Stl(Enc):
    name = "stl"
    ext = ".stl"
    full = ("b", "enc")
    menu = {"tri": dict(b=[["triangle", 3]]), "more": dict(b=[["triangle", 8]]), "one": dict(b=[["triangle", 1]])}
    extra_ok = ("facet_normals",)
    axes = dict(
        enc=["asc", "bin"],
        head=["solid", "solid name", "solid  a long name with spaces", "plain"],
        case=["low", "up", "cap"],
        ind=["", "  ", "\t"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        blank=["no", "end", "between", "start"],
        solids=[1, 2],
        attr=[0, 1],
        nrm=["right", "zero", "odd"],
    )
    may = dict(blank=["start"])

    def admissible(self, a):
        if a["enc"] == "bin":
            return a["case"] == "low" and not a["ind"] and a["num"] == "r" and a["nl"] == "\n" and a["final"] and a["blank"] == "no" and a["solids"] == 1
        return a["head"] != "plain" and not a["attr"]

    def normals(self, c, case):
        P, T = c["points"], c["cells"][0][1]
        q = np.cross(P[T[:, 1]] - P[T[:, 0]], P[T[:, 2]] - P[T[:, 0]])
        q = np.round(q * 4) / 4
        return {"right": q, "zero": q * 0, "odd": q * 0 + [0.5, 0, -1]}[case["nrm"]]

    def expected(self, case):
        c = self.content(case)
        T = c["cells"][0][1]
        order = []
        for i in T.ravel():
            if i not in order:
                order.append(i)
        c["points"] = c["points"][order]
        if case["enc"] == "bin":
            c["points"] = c["points"].astype("f4")
        inv = {o: k for k, o in enumerate(order)}
        c["cells"] = [("triangle", np.array([[inv[i] for i in r] for r in T]))]
        if case["enc"] == "asc":
            c["cell_data"] = {"facet_normals": [self.normals(self.content(case), case)]}
        return c

    def encode(self, c, case):
        P, T = c["points"], c["cells"][0][1]
        N = self.normals(c, case)
        f = num(case["num"])
        if case["enc"] == "bin":
            head = {"plain": b"binary stl"}.get(case["head"], case["head"].encode()).ljust(80, b"\0" if case["nrm"] == "right" else b" ")
            out = head + np.array([len(T)], "<u4").tobytes()
            for k, t in enumerate(T):
                out += N[k].astype("<f4").tobytes() + P[t].astype("<f4").tobytes() + np.array([case["attr"] * 7], "<u2").tobytes()
            return out
        K = {"low": str.lower, "up": str.upper, "cap": str.title}[case["case"]]
        I = case["ind"]
        out = []
        parts = [range(len(T))] if case["solids"] == 1 else [range(len(T) // 2), range(len(T) // 2, len(T))]
        if case["blank"] == "start":
            out.append("")
        for p in parts:
            out.append(K("solid") + case["head"][5:])
            for k in p:
                out.append(I + K("facet normal ") + " ".join(f(x) for x in N[k]))
                out.append(2 * I + K("outer loop"))
                for i in T[k]:
                    out.append(3 * I + K("vertex ") + (" " if I else "") + " ".join(f(x) for x in P[i]))
                out += [2 * I + K("endloop"), I + K("endfacet")]
                if case["blank"] == "between":
                    out.append("")
            out.append(K("endsolid") + case["head"][5:])
        if case["blank"] == "end":
            out += ["", ""]
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


class Obj(Enc):
    name = "obj"
    ext = ".obj"
    menu = SURF
    extra_ok = ("obj:group_ids",)
    axes = dict(
        face=["v", "v/vt", "v//vn", "v/vt/vn", "neg", "neg/"],
        val=["xyz", "xyzw", "color"],
        vt=[0, 2, 3],
        vn=[0, 1],
        g=["no", "one", "each", "empty", "before"],
        other=["no", "mtl", "s", "o", "all"],
        com=["no", "top", "mid"],
        blank=[0, 1],
        sp=[" ", "  ", "tab", "lead", "trail"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        order=["v-first", "interleaved"],
    )

    def admissible(self, a):
        if "vt" in a["face"] and not a["vt"] or "vn" in a["face"] and not a["vn"]:
            return False
        if a["order"] == "interleaved" and a["b"] != "mix":
            return True
        return True

    def content(self, case):
        c = A.build(self.menu[case["b"]])
        n = len(c["points"])
        if case["vt"]:
            c["point_data"]["obj:vt"] = np.arange(n * case["vt"]).reshape(n, -1) * 0.25
        if case["vn"]:
            c["point_data"]["obj:vn"] = np.arange(n * 3).reshape(n, 3) * 0.5 - 1
        return c

    def expected(self, case):
        c = self.content(case)
        L = [len(x) for _, x in c["cells"]]
        if case["g"] == "no":
            g = [np.full(m, -1) for m in L]
        elif case["g"] == "each":
            g = [np.full(m, k) for k, m in enumerate(L)]
        elif case["g"] == "empty":
            g = [np.full(m, 2 * k + 1) for k, m in enumerate(L)]
        else:
            g = [np.full(m, 0) for m in L]
        c["cell_data"] = {"obj:group_ids": g}
        return c

    def encode(self, c, case):
        f = num(case["num"])
        sep = {" ": " ", "  ": "   ", "tab": "\t"}.get(case["sp"], " ")
        pre = "  " if case["sp"] == "lead" else ""
        end = "  " if case["sp"] == "trail" else ""
        out = []

        def put(*w):
            out.append(pre + sep.join(map(str, w)) + end)

        if case["com"] == "top":
            put("# v 1 2 3")
        if case["other"] in ("mtl", "all"):
            put("mtllib", "a.mtl")
        if case["other"] in ("o", "all"):
            put("o", "thing")
        if case["g"] == "before":
            put("g", "all")
        P = c["points"]
        n = len(P)
        tail = {"xyz": [], "xyzw": ["1.0"], "color": ["0.5", "0.25", "1"]}[case["val"]]

        def pts(r):
            for i in r:
                put("v", *map(f, P[i]), *tail)
                if i == 1 and case["com"] == "mid":
                    put("#", "f 1 2 3")
                if i == 1 and case["blank"]:
                    out.append("")

        def data():
            for k in ("obj:vt", "obj:vn"):
                for r in c["point_data"].get(k, []):
                    put(k[4:], *map(f, r))

        known = n
        if case["order"] == "v-first":
            pts(range(n))
            data()
        else:
            known = 1 + max(int(i) for i in np.ravel(c["cells"][0][1][0]))
            pts(range(known))
        if case["g"] == "one":
            put("g", "all")
        if case["other"] in ("s", "all"):
            put("s", "off")
        first = True
        for b, (t, x) in enumerate(c["cells"]):
            if case["g"] == "empty":
                put("g", "nothing")
            if case["g"] in ("each", "empty"):
                put("g", f"part{b}", "x")
            if case["other"] in ("mtl", "all"):
                put("usemtl", "red")
            for r in x:
                w = []
                for i in r:
                    v = i + 1 if not case["face"].startswith("neg") else i - known
                    w.append({"v": f"{v}", "v/vt": f"{v}/{i + 1}", "v//vn": f"{v}//{i + 1}", "v/vt/vn": f"{v}/{i + 1}/{i + 1}", "neg": f"{v}", "neg/": f"{v}/{v}"}[case["face"]])
                put("f", *w)
                if first and known < n:
                    pts(range(known, n))
                    known = n
                    data()
                first = False
        if case["order"] != "v-first" and known == n and not any(x.strip().startswith(("vt", "vn")) for x in out):
            data()
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


class Off(Enc):
    name = "off"
    ext = ".off"
    full = ("b",)
    menu = {"tri": dict(b=[["triangle", 3]]), "many": dict(b=[["triangle", 9]])}
    axes = dict(
        key=["OFF", "trail", "same", "comment", "none"],
        com=["no", "head", "head2", "verts", "faces", "end"],
        blank=["no", "head", "verts", "faces", "end"],
        sp=[" ", "  ", "tab", "lead", "trail"],
        edges=[0, 7],
        color=["no", "rgb", "rgbf", "index"],
        num=NUM,
        nl=["\n", "\r\n"],
        final=[1, 0],
        wrap=["row", "one"],
    )
    may = dict(key=["same", "comment", "none"], com=["head2", "verts", "faces"], color=["rgb", "rgbf", "index"])

    def encode(self, c, case):
        f = num(case["num"])
        sep = {" ": " ", "  ": "   ", "tab": "\t"}.get(case["sp"], " ")
        pre = "  " if case["sp"] == "lead" else ""
        end = "  " if case["sp"] == "trail" else ""
        P, T = c["points"], c["cells"][0][1]
        out = []
        put = lambda *w: out.append(pre + sep.join(map(str, w)) + end)
        counts = [len(P), len(T), case["edges"]]
        if case["com"] == "head":
            com = ["# a comment 1 2 3"]
        else:
            com = []
        k = case["key"]
        if k == "same":
            put("OFF", *counts)
        else:
            if k != "none":
                out.append({"OFF": "OFF", "trail": "OFF  ", "comment": "OFF # x"}[k])
            out += com
            if case["blank"] == "head":
                out.append("")
            put(*counts, *(["# counts"] if case["com"] == "head2" else []))
        for i, p in enumerate(P):
            if i == 1 and case["com"] == "verts":
                out.append("# v")
            if i == 1 and case["blank"] == "verts":
                out.append("")
            put(*map(f, p))
        if case["blank"] == "faces":
            out.append("")
        for i, t in enumerate(T):
            if i == 1 and case["com"] == "faces":
                out.append("# v")
            put(3, *t, *{"no": [], "rgb": [255, 0, 3], "rgbf": ["0.5", "0.5", "1.0"], "index": [3]}[case["color"]])
        if case["blank"] == "end":
            out += ["", ""]
        if case["com"] == "end":
            out.append("# the end")
        text = "\n".join(out) + "\n"
        if case["wrap"] == "one":
            h = 2 if k not in ("same", "none") else 1
            h += len(com) + (case["blank"] == "head")
            text = "\n".join(out[:h]) + "\n" + " ".join(x for x in out[h:] if not x.startswith("#")) + "\n"
        return lines(text, case["nl"], case["final"])


class Wkt(Enc):
    name = "wkt"
    ext = ".wkt"
    menu = {"tri": dict(b=[["triangle", 3]]), "one": dict(b=[["triangle", 1]]), "more": dict(b=[["triangle", 8]])}
    axes = dict(
        key=["TIN", "TIN Z", "tin", "Tin"],
        sp=["compact", "spaces", "newlines", "tabs", "wide"],
        num=NUM,
        lead=["", "  ", "\n"],
        final=[1, 0, "many"],
        nl=["\n", "\r\n"],
    )
    may = dict(key=["TIN Z", "tin", "Tin"])

    def expected(self, case):
        c = self.content(case)
        order = list(dict.fromkeys(c["cells"][0][1].ravel()))
        inv = {o: k for k, o in enumerate(order)}
        c["points"] = c["points"][order]
        c["cells"] = [("triangle", np.array([[inv[i] for i in r] for r in c["cells"][0][1]]))]
        return c

    def encode(self, c, case):
        f = num(case["num"])
        s, o, cl, cm = {"compact": (" ", "(", ")", ","), "spaces": (" ", "( ", " )", ", "), "newlines": (" ", "(\n", "\n)", ",\n"), "tabs": ("\t", "(\t", "\t)", "\t,"), "wide": ("   ", "(   ", "  )", "  ,  ")}[case["sp"]]
        tri = []
        for r in c["cells"][0][1]:
            p = [s.join(f(x) for x in c["points"][i]) for i in [*r, r[0]]]
            tri.append(o + o + cm.join(p) + cl + cl)
        t = case["lead"] + case["key"] + (" " if case["sp"] != "compact" or "Z" in case["key"] else "") + o + cm.join(tri) + cl
        t += {1: "\n", 0: "", "many": "\n\n\n"}[case["final"]]
        return t.replace("\n", case["nl"]).encode()


ENCODERS = [Ply(), Stl(), Obj(), Off(), Wkt()]
