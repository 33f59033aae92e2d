import numpy as np

from .. import alphabet as A
from ..dec import spec
from .base import NUM, Enc, ids, inverse, lines, num

MENU = {
    "tri": dict(b=[["triangle", 3]]),
    "mix": dict(b=[["quad", 2], ["triangle", 2], ["quad", 1]]),
    "tet": dict(b=[["tetra", 2], ["hexahedron", 3]]),
    "quad": dict(b=[["hexahedron20", 2], ["line", 1], ["tetra10", 1], ["wedge15", 2]]),
}


# ---------------------------------------------------------------------------
ABA = {
    "line": ["T3D2", "B31", "T2D2", "B21", "T2D2H", "T3D2H", "B21H", "B31H"],
    "line3": ["T3D3", "B32", "T2D3", "B22", "B33", "T3D3H"],
    "triangle": ["S3", "CPS3", "STRI3", "S3R", "S3RS", "R3D3"],
    "triangle6": ["STRI65", "CPE6"],
    "quad": ["S4", "CPS4", "S4R", "CPS4R", "S4RS", "S4R5", "CAX4P", "S4RSW"],
    "quad8": ["S8R", "S8R5"],
    "quad9": ["S9R5"],
    "tetra": ["C3D4", "C3D4H"],
    "tetra10": ["C3D10", "C3D10H", "C3D10M", "C3D10I", "C3D10MH"],
    "hexahedron": ["C3D8", "C3D8R", "C3D8H", "C3D8I", "C3D8RH", "C3D8IH"],
    "hexahedron20": ["C3D20", "C3D20R", "C3D20H", "C3D20RH"],
    "wedge": ["C3D6"],
    "wedge15": ["C3D15"],
}


class Abaqus(Enc):
    name = "abaqus"
    ext = ".inp"
    parts = ("points", "cells", "point_data", "cell_data", "point_sets", "cell_sets")
    menu = dict(MENU, all=dict(b=[[t, 2] for t in ABA]))
    axes = dict(
        head=["heading", "none", "comment", "keywords"],
        kw=["up", "low", "cap"],
        sp=["", " ", "pad", "tab"],
        num=NUM + ["D"],
        nid=["seq", "sparse", "big", "rev", "shuffle"],
        eid=["seq", "sparse", "big", "rev"],
        com=["no", "nodes", "elems", "sets", "all"],
        blank=[0, 1],
        cont=[0, 1],        # an element on several lines
        ty=[0, 1, 2, 3, 4, 5, 6, 7],
        sets=["list", "none", "gen", "multi", "elset-par", "nested", "twice", "before"],
        split=[0, 1],       # the nodes in two sections
        tail=[0, 1],        # steps, loads and the like after the mesh
        nl=["\n", "\r\n"],
        final=[1, 0],
        par=[0, 1],         # other parameters on the keyword lines
        inc=[0, 1, 2, 3],   # the mesh in an included file; the last block, with nodes of its own, in one, before or after the rest
    )
    may = dict(num=["D"])

    def expected(self, case):
        c = self.content(case)
        n = len(c["points"])
        s = case["sets"]
        inc = case["inc"]
        if inc > 1:
            pts, cells = c["points"], c["cells"]
            last, c["cells"] = self.split_off(c)
            c = self.sets(dict(c, point_sets={}, cell_sets={}), s)
            m, k = len(last["points"]), len(c["cells"])
            part = [(t, x + (n if inc == 2 else 0)) for t, x in last["cells"]]
            main = [(t, x + (m if inc == 3 else 0)) for t, x in c["cells"]]
            c["points"] = np.concatenate([pts, last["points"]] if inc == 2 else [last["points"], pts])
            c["cells"] = main + part if inc == 2 else part + main
            c["point_sets"] = {q: v + (m if inc == 3 else 0) for q, v in c["point_sets"].items()}
            c["point_sets"]["INC"] = np.array([0, m - 1]) + (n if inc == 2 else 0)
            c["cell_sets"] = {q: v + [None] if inc == 2 else [None] + v for q, v in c["cell_sets"].items()}
            own = [np.array([0])]
            c["cell_sets"]["INCE"] = [None] * k + own if inc == 2 else own + [None] * k
            if "B" in c["cell_sets"]:  # (one set in both files)
                c["cell_sets"]["B"] = [own[0] if v is None else v for v in c["cell_sets"]["B"]]
            if "U" in c["cell_sets"] and inc == 3:  # (the union of B and another one)
                c["cell_sets"]["U"][0] = own[0]
            return c
        return self.sets(c, s)

    @staticmethod
    def split_off(c):
        t, x = c["cells"][-1]
        used = np.unique(x)
        return dict(points=c["points"][used], cells=[(t, np.searchsorted(used, x))], point_sets={}, cell_sets={}), c["cells"][:-1]

    def sets(self, c, s):
        n = len(c["points"])
        if s == "none":
            return c
        ncell = sum(len(x) for _, x in c["cells"])
        c["point_sets"] = {"LEFT": np.array([0, 2, n - 1]), "Mid": np.array([1])}
        sel = self.sel(ncell)
        c["cell_sets"] = {"PART-A": self.split_cells(c, sel), "B": self.split_cells(c, [ncell - 1])}
        if s == "gen":
            c["point_sets"] = {"LEFT": np.array(range(0, n, 2)), "Mid": np.array([1])}
        if s == "nested":
            c["cell_sets"]["U"] = self.split_cells(c, sorted({*sel, ncell - 1}))
            c["point_sets"]["UN"] = np.array([0, 1, 2, n - 1])
        if s == "elset-par":
            c["cell_sets"] = {f"E{i}": [np.arange(len(x)) if j == i else None for j, (_, x) in enumerate(c["cells"])] for i in range(len(c["cells"]))}
            c["point_sets"] = {}
        return c

    @staticmethod
    def sel(ncell):
        return list(range(0, ncell, 2))

    @staticmethod
    def split_cells(c, sel):
        out, off = [], 0
        for _, x in c["cells"]:
            out.append(np.array([i - off for i in sel if off <= i < off + len(x)], dtype=int))
            off += len(x)
        return out

    def admissible(self, a):
        if a["sets"] == "gen" and (a["nid"] != "seq" or a["eid"] != "seq"):
            return False
        if a["inc"] > 1 and a["b"] in ("tri", "late"):
            return False
        return True

    def encode(self, c, case):
        if case["inc"] > 1:
            last, c["cells"] = self.split_off(c)
            main = self.encode(c, dict(case, inc=0, final=1)).decode()
            nl = case["nl"]
            part = self.encode(last, dict(case, inc=0, sets="none")).decode()
            e0 = ids(len(last["cells"][0][1]), case["eid"])[0]
            nn = ids(len(last["points"]), case["nid"])
            part = part.rstrip() + nl + f"*NSET, NSET=INC{nl}{nn[0]}, {nn[-1]}{nl}*ELSET, ELSET=INCE{nl}{e0}{nl}"
            if case["sets"] not in ("none", "elset-par"):
                part += f"*ELSET, ELSET=B{nl}{e0}{nl}"
            inc = ("*include" if case["kw"] == "low" else "*INCLUDE") + (", INPUT=" if case["kw"] != "low" else ", input=") + "part.inp" + nl
            return {"mesh.inp": (main + inc if case["inc"] == 2 else inc + main).encode(), "part.inp": part.encode()}
        f = num(case["num"])
        sep = {"": ",", " ": ", ", "pad": " ,  ", "tab": ",\t"}[case["sp"]]
        pre = {"": "", " ": " ", "pad": "    ", "tab": "\t"}[case["sp"]]
        K = {"up": str.upper, "low": str.lower, "cap": lambda s: "*" + s[1:].capitalize()}[case["kw"]]
        out = []
        if case["head"] == "heading":
            out += [K("*HEADING"), "some title"]
        elif case["head"] == "comment":
            out += ["** a comment, with *NODE in it", "**"]
        elif case["head"] == "keywords":
            out += [K("*HEADING"), " NODE", K("*PREPRINT") + ", echo=NO, model=NO", K("*MATERIAL") + ", name=steel", K("*ELASTIC"), " 2.1e5, 0.3", K("*PART") + ", name=Part-1"]
        com = case["com"]

        def note(k):
            if com in (k, "all"):
                out.append("** 1, 2, 3, 4")

        def blank():
            if case["blank"]:
                out.append("")

        n = len(c["points"])
        nid = ids(n, case["nid"])
        par = ", SYSTEM=R" if case["par"] else ""
        for k, part in enumerate([range(n)] if not case["split"] else [range(n // 2), range(n // 2, n)]):
            out.append(K("*NODE") + par)
            for j, i in enumerate(part):
                if j == 1:
                    note("nodes")
                    blank()
                out.append(pre + sep.join([str(nid[i])] + [f(x) for x in c["points"][i]]))
        ncell = sum(len(x) for _, x in c["cells"])
        eid = ids(ncell, case["eid"])
        s = case["sets"]

        def psets():
            ns = [("LEFT", [0, 2, n - 1]), ("Mid", [1])]
            for name, m in ns:
                if s == "gen" and name == "LEFT":
                    out.append(K("*NSET") + f", NSET={name}, GENERATE")
                    out.append(f"{pre}{nid[0]}{sep}{nid[(n - 1) // 2 * 2]}{sep}2")
                    continue
                self.put(out, K("*NSET") + f", NSET={name}", [str(nid[i]) for i in m], s, sep, pre, case)
            if s == "nested":
                out.extend([K("*NSET") + ", NSET=UN", "LEFT", "Mid"])

        if s == "before":
            psets()
        off = 0
        for b, (t, x) in enumerate(c["cells"]):
            al = ABA[t]
            ty = al[case["ty"] % len(al)]
            if case["kw"] == "low":
                ty = ty.lower()
            o = f", ELSET=E{b}" if s == "elset-par" else ""
            pk = "type" if case["kw"] == "low" else "TYPE"
            out.append(K("*ELEMENT") + f",{' ' if case['sp'] else ''}{pk}={' ' if case['sp'] == 'pad' else ''}{ty}{o}" + (", SOLID ELEMENT NUMBERING=1" if case["par"] else ""))
            for j, row in enumerate(x):
                if j == 1:
                    note("elems")
                    blank()
                w = [str(eid[off + j])] + [str(nid[i]) for i in row]
                m = 16 if not case["cont"] else 4
                chunks = [w[i:i + m] for i in range(0, len(w), m)]
                for q, ch in enumerate(chunks):
                    out.append(pre + sep.join(ch) + ("," if q < len(chunks) - 1 else ""))
            off += len(x)
        if s not in ("none", "elset-par"):
            if s != "before":
                psets()
            if s == "gen":
                last = self.sel(ncell)[-1]
                out.append(K("*ELSET") + ", ELSET=PART-A, GENERATE")
                out.append(f"{pre}{eid[0]}{sep}{eid[last]}{sep}2")
            else:
                self.put(out, K("*ELSET") + ", ELSET=PART-A", [str(eid[i]) for i in self.sel(ncell)], s, sep, pre, case)
            self.put(out, K("*ELSET") + ", ELSET=B", [str(eid[-1])], s, sep, pre, case)
            if s == "nested":
                out += [K("*ELSET") + ", ELSET=U", "PART-A", "B"]
        if case["tail"]:
            out += [K("*MATERIAL") + ", NAME=m", K("*ELASTIC"), "1.0, 0.3", K("*STEP") + ", name=s", K("*STATIC"), "1.,1.", K("*BOUNDARY"), "LEFT, 1, 3", K("*NODE FILE"), "U", K("*NODE PRINT"), "U",
                    K("*ELEMENT OUTPUT"), "S,", K("*END STEP")]
        text = lines("\n".join(out) + "\n", case["nl"], case["final"])
        if case["inc"]:
            return {"mesh.inp": lines(K("*HEADING") + "\nx\n" + K("*INCLUDE") + ", INPUT=part.inp\n", case["nl"]), "part.inp": text}
        return text

    @staticmethod
    def put(out, head, w, s, sep, pre, case):
        between = (["** 1, 2, 3"] if case["com"] in ("sets", "all") else []) + [""] * case["blank"]
        head = "\n".join([head] + between)
        if s == "twice" and len(w) > 1:
            h = len(w) // 2
            out += [head, pre + sep.join(w[:h]), head, pre + sep.join(w[h:])]
        elif s == "multi":
            out.append(head)
            for i in range(0, len(w), 2):
                out.append(pre + sep.join(w[i:i + 2]) + ("," if i + 2 < len(w) else ""))
                out += between
        else:
            out.append(head)
            for i in range(0, len(w), 16):
                out.append(pre + sep.join(w[i:i + 16]))


# ---------------------------------------------------------------------------
NAS = {
    "line": ["CROD", "CBAR", "CBEAM", "CBUSH", "CGAP"],
    "triangle": ["CTRIA3", "CTRIAR"],
    "quad": ["CQUAD4", "CQUADR", "CSHEAR"],
    "triangle6": ["CTRIA6", "CTRIAX6"],
    "quad8": ["CQUAD8"],
    "tetra": ["CTETRA"], "tetra10": ["CTETRA"],
    "pyramid": ["CPYRAM", "CPYRA"], "pyramid13": ["CPYRAM", "CPYRA"],
    "wedge": ["CPENTA"], "wedge15": ["CPENTA"],
    "hexahedron": ["CHEXA"], "hexahedron20": ["CHEXA"],
}


class Nastran(Enc):
    name = "nastran"
    ext = ".bdf"
    menu = dict({k: dict(v, pd=[], cd=[]) for k, v in MENU.items()}, all=dict(b=[[t, 2] for t in NAS]))
    axes = dict(
        head=["full", "min", "comments"],
        pf=["small", "large", "free", "short"],   # short: trailing blanks missing
        cf=["small", "large", "free", "auto", "plus"],
        al=["l", "r"],
        num=["r", "nas", "e", "f"],
        nid=["seq", "sparse", "big", "rev", "shuffle"],
        eid=["seq", "sparse", "rev"],
        ty=[0, 1, 2, 3, 4],
        com=["no", "$", "blank"],
        order=["nodes-first", "cells-first", "mixed"],
        other=[0, 1],
        cp=["", "0", "mix"],
        nl=["\n", "\r\n"],
        ref=["", "5", "mix", "own"],
        ext=["no", "bar-vector"],
    )

    def content(self, case):
        c = A.build(self.menu[case["b"]])
        i = np.arange(len(c["points"]), dtype=float)
        c["points"] = np.column_stack([i * 0.25 - 1, (i * i) % 11 * 0.5, -0.125 * i])  # (fit in eight columns)
        return c

    def expected(self, case):
        c = self.content(case)
        # consecutive blocks of one type are one block; every block has its own here
        if case["cp"]:
            c["point_data"] = {"nastran:ref": np.array([int(self.ref(case["cp"], i) or 0) for i in range(len(c["points"]))])}
        if case["ref"]:
            off = np.cumsum([0] + [len(x) for _, x in c["cells"]])
            c["cell_data"] = {"nastran:ref": [np.array([int(self.ref(case["ref"], o + i) or 0) for i in range(len(x))]) for o, (_, x) in zip(off, c["cells"])]}
        return c

    @staticmethod
    def ref(style, i):
        """mix: some fields blank (which means 0); own: all differ"""
        return {"mix": "" if i % 3 else str(i + 3), "own": str(i + 1)}.get(style, style)

    def nums(self, style, width):
        def f(x):
            x = float(x)
            if style == "nas":  # exponent without the letter
                m, e = f"{x:.9e}".split("e")
                m = m.rstrip("0")
                s = f"{m}{int(e):+d}"
            elif style == "e":
                m, e = f"{x:.9e}".split("e")
                s = m.rstrip("0") + "E" + str(int(e))
            elif style == "f":
                s = num("f")(x)
                s = s if "." in s else s + "."
            else:
                s = repr(x)
            if len(s) > width:
                s = repr(x)
            assert len(s) <= width, s
            return s

        return f

    def encode(self, c, case):
        out = []
        if case["head"] == "full":
            out += ["SOL 101", "CEND", "TITLE = GRID of things", "BEGIN BULK"]
        elif case["head"] == "comments":
            out += ["$ a comment", "BEGIN BULK", "$ another GRID", "PARAM,POST,-1"]
        else:
            out += ["BEGIN BULK"]
        A_ = (lambda s, w: s.ljust(w)) if case["al"] == "l" else (lambda s, w: s.rjust(w))
        pts, nid = [], ids(len(c["points"]), case["nid"])
        pf = case["pf"]
        f = self.nums(case["num"], 16 if pf == "large" else 8)
        for i, p in enumerate(c["points"]):
            x = [f(v) for v in p]
            w = [str(nid[i]), self.ref(case["cp"], i)] + x
            if pf == "small":
                pts.append("GRID    " + "".join(A_(s, 8) for s in w) + " " * 24)
            elif pf == "short":
                pts.append(("GRID    " + "".join(A_(s, 8) for s in w)).rstrip())
            elif pf == "large":
                pts.append("GRID*   " + "".join(A_(s, 16) for s in w[:4]) + "*N" + str(i).ljust(5))
                pts.append(("*N" + str(i)).ljust(8) + A_(w[4], 16))
            else:
                pts.append(",".join(["GRID"] + w))
        cells, off = [], 0
        ncell = sum(len(x) for _, x in c["cells"])
        eid = ids(ncell, case["eid"])
        for t, x in c["cells"]:
            al = NAS[t]
            ty = al[case["ty"] % len(al)]
            if ty == "CTRIAX6":
                q = [0, 3, 1, 4, 2, 5]
            else:
                q = inverse(t, spec.NASTRAN_EDGES)
            for row in x:
                w = [str(eid[off]), self.ref(case["ref"], off)] + [str(nid[row[k]]) for k in q]
                off += 1
                if ty in ("CBAR", "CBEAM") and case["ext"] == "bar-vector":
                    w += ["1.0", "0.0", "0.0"]
                cf = case["cf"]
                if cf == "free":
                    # 8 data fields on a line, each line starts with a name or a blank
                    head, ch = ty, [w[i:i + 8] for i in range(0, len(w), 8)]
                    for k, part in enumerate(ch):
                        line = ",".join([head if k == 0 else "+"] + part)
                        cells.append(line + (",+" if k < len(ch) - 1 else ""))
                elif cf == "large":
                    ch = [w[i:i + 4] for i in range(0, len(w), 4)]
                    for k, part in enumerate(ch):
                        line = ((ty + "*") if k == 0 else "*").ljust(8) + "".join(A_(s, 16) for s in part)
                        cells.append(line + ("*" if k < len(ch) - 1 else ""))
                else:
                    ch = [w[i:i + 8] for i in range(0, len(w), 8)]
                    for k, part in enumerate(ch):
                        first = ty if k == 0 else {"small": "+", "auto": "", "plus": f"+C{off % 100}{k}"}[cf]
                        last = "" if k == len(ch) - 1 else {"small": "+", "auto": "        ", "plus": f"+C{off % 100}{k + 1}"}[cf]
                        cells.append(first.ljust(8) + "".join(A_(s, 8) for s in part) + last)
        body = {"nodes-first": pts + cells, "cells-first": cells + pts}.get(case["order"])
        if body is None:
            if pf == "large":
                body = pts[:4] + cells + pts[4:]
            else:
                body = pts[:2] + cells + pts[2:]
        if case["com"] == "$":
            body = [y for i, x in enumerate(body) for y in ([x, "$ GRID, 1, 2, 3"] if not self.continued(body, i) else [x])]
        elif case["com"] == "blank":
            body = [y for i, x in enumerate(body) for y in ([x, ""] if not self.continued(body, i) else [x])]
        if case["other"]:
            body = ["MAT1    1       2.1+5           0.3", "PSHELL  5       1       1.0     1"] + body + ["SPC1,1,123,1", "FORCE,2,1,0,1.0,0.,0.,1."]
        out += body + ["ENDDATA"]
        return lines("\n".join(out) + "\n", case["nl"])

    @staticmethod
    def continued(body, i):
        return i + 1 < len(body) and body[i + 1][:1] in ("+", "*", " ")


# ---------------------------------------------------------------------------
PERM = {
    "vertex": ["PLOT1"], "line": ["PLOTL2", "BEAM2", "BECOS", "FLA2"], "line3": ["PLOTL3", "FLA3"],
    "triangle": ["TRIA3", "SHELL3", "TRIMS3", "PLOTA3"], "triangle6": ["TRIMS6", "LOADA6"],
    "quad": ["QUAD4", "SHELL4", "QUAMS4", "LOADA4"], "quad8": ["QUAMS8", "PLOTA8"], "quad9": ["QUAMS9", "LOADA9"],
    "tetra": ["TET4"], "tetra10": ["TET10"], "pyramid": ["PYRA5"], "wedge": ["PENTA6"], "wedge15": ["PENTA15"],
    "hexahedron": ["HEXE8", "HEXFO8"],
}
# PERMAS numbers edge nodes along with the corners, layer by layer
PERM_ORDER = {"triangle6": [0, 3, 1, 4, 2, 5], "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3], "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
              "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]}


class Permas(Enc):
    name = "permas"
    ext = ".dato"
    menu = {"tri": MENU["tri"], "mix": MENU["mix"], "tet": MENU["tet"], "all": dict(b=[[t, 2] for t in PERM])}
    axes = dict(
        kw=["up", "low"],
        sp=["", "wide", "tab", "lead"],
        num=NUM,
        nid=["seq", "sparse", "big", "rev", "shuffle"],
        eid=["seq", "sparse", "rev"],
        com=["no", "nodes", "elems", "top", "all"],
        ty=[0, 1, 2, 3],
        other=[0, 1],
        sets=[0, 1],
        nl=["\n", "\r\n"],
        final=[1, 0],
        blank=[0, 1],
    )
    may = dict(sets=[1])

    def encode(self, c, case):
        f = num(case["num"])
        K = {"up": str.upper, "low": str.lower}[case["kw"]]
        sep = {"": " ", "wide": "    ", "tab": "\t", "lead": " "}[case["sp"]]
        pre = "   " if case["sp"] == "lead" else ""
        com = case["com"]
        out = ["!PERMAS DataFile Version 18.0"]
        if com in ("top", "all"):
            out += ["! $COOR", "!"]
        out += [K("$ENTER COMPONENT NAME=DFLT_COMP"), K("$STRUCTURE")]
        if case["other"]:
            out += [K("$SYSTEM NAME=S"), " 1 2 3"]
        out.append(K("$COOR"))
        nid = ids(len(c["points"]), case["nid"])
        for i, p in enumerate(c["points"]):
            if i == 2 and com in ("nodes", "all"):
                out.append("! 1 2 3 4")
            if i == 2 and case["blank"]:
                out.append("")
            out.append(pre + sep.join([str(nid[i])] + [f(x) for x in p]))
        eid = ids(sum(len(x) for _, x in c["cells"]), case["eid"])
        e = 0
        for t, x in c["cells"]:
            al = PERM[t]
            out.append(K("$ELEMENT TYPE=" + al[case["ty"] % len(al)]))
            q = PERM_ORDER.get(t, list(range(A.NN[t])))
            for j, row in enumerate(x):
                if j == 1 and com in ("elems", "all"):
                    out.append("! 1 2 3 4")
                if j == 1 and case["blank"]:
                    out.append("")
                out.append(pre + sep.join([str(eid[e])] + [str(nid[row[k]]) for k in q]))
                e += 1
        if case["sets"]:
            out += [K("$NSET NAME=A, NSET=A"), f"{nid[0]} {nid[1]}", K("$ESET ESET=B"), f"{eid[0]}"]
        out += [K("$END STRUCTURE"), K("$EXIT COMPONENT"), K("$FIN")]
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


# ---------------------------------------------------------------------------
MDPA = {
    "line": ["Line2D2", "Line3D2"], "triangle": ["Triangle2D3", "Triangle3D3"], "quad": ["Quadrilateral2D4", "Quadrilateral3D4"],
    "tetra": ["Tetrahedra3D4"], "hexahedron": ["Hexahedra3D8"], "wedge": ["Prism3D6"], "line3": ["Line2D3", "Line3D3"],
    "triangle6": ["Triangle2D6", "Triangle3D6"], "quad9": ["Quadrilateral2D9", "Quadrilateral3D9"], "quad8": ["Quadrilateral2D8", "Quadrilateral3D8"],
    "tetra10": ["Tetrahedra3D10"], "vertex": ["Point2D", "Point3D"],
}


class Mdpa(Enc):
    name = "mdpa"
    ext = ".mdpa"
    menu = {"tri": MENU["tri"], "mix": MENU["mix"], "tet": MENU["tet"], "all": dict(b=[[t, 2] for t in MDPA])}
    axes = dict(
        sp=[" ", "wide", "tab", "none"],
        num=NUM,
        nid=["seq", "sparse", "big", "rev", "shuffle"],
        eid=["seq", "sparse", "rev"],
        pre=["", "Geometry", "SurfaceCondition"],
        ty=[0, 1],
        kind=["Elements", "Conditions"],
        other=[0, 1],
        prop=[0, 1, 3],
        blank=[0, 1],
        nl=["\n", "\r\n"],
        final=[1, 0],
        com=[0, 1],
    )
    may = dict(com=[1])

    def encode(self, c, case):
        f = num(case["num"])
        sep = {" ": " ", "wide": "     ", "tab": "\t", "none": " "}[case["sp"]]
        pre = "" if case["sp"] == "none" else sep
        out = ["Begin ModelPartData", "//  VARIABLE_NAME value", "End ModelPartData", ""]
        if case["other"]:
            out += ["Begin Properties 1", " DENSITY 2700.000", "End Properties", ""]
        out.append("Begin Nodes")
        nid = ids(len(c["points"]), case["nid"])
        for i, p in enumerate(c["points"]):
            out.append(pre + sep.join([str(nid[i])] + [f(x) for x in p]) + ("  // a node" if case["com"] and i == 1 else ""))
        out += ["End Nodes", ""]
        eid = ids(sum(len(x) for _, x in c["cells"]), case["eid"])
        e = 0
        for t, x in c["cells"]:
            al = MDPA[t]
            k = case["kind"]
            out.append(f"Begin {k} {case['pre']}{al[case['ty'] % len(al)]}")
            for row in x:
                out.append(pre + sep.join([str(eid[e]), str(case["prop"])] + [str(nid[i]) for i in row]))
                e += 1
            out.append(f"End {k}")
            if case["blank"]:
                out += ["", ""]
        if case["other"]:
            out += ["Begin NodalData TEMPERATURE", f" {nid[0]} 0 1.5", "End NodalData", "", "Begin SubModelPart Main", "  Begin SubModelPartNodes", f"   {nid[0]}", "  End SubModelPartNodes", "End SubModelPart"]
        return lines("\n".join(out) + "\n", case["nl"], case["final"])


# ---------------------------------------------------------------------------
class Ansys(Enc):
    """Fluent: points and faces (cells have no nodes of their own)"""

    name = "ansys"
    ext = ".msh"
    fmt = "ansys"
    menu = {"tri": dict(b=[["triangle", 3]]), "quad": dict(b=[["quad", 2]]), "two": dict(b=[["triangle", 2], ["quad", 13]], np=37), "edges": dict(b=[["line", 4]], d=2)}
    FT = {"line": 2, "triangle": 3, "quad": 4}
    axes = dict(
        enc=["asc", "bin4", "bin8"],
        first=[1, 5, 26],
        zones=[1, 2],
        decl=[1, 0],
        open=["same", "next"],
        hexcase=["l", "u"],
        com=["no", "plain", "parens", "multi"],
        other=[0, 1],
        num=NUM,
        sp=[" ", "   "],
        blank=[0, 1],
        mixed=[0, 1],
        close=["))", "nl", "sp"],
        nl=["\n", "\r\n"],
        lead=["", " "],
    )

    def admissible(self, a):
        if a["enc"] != "asc" and (a["mixed"] or a["num"] != "r" or a["sp"] != " " or a["blank"] or a["nl"] != "\n" or a["hexcase"] != "l"):
            return False
        return True

    def expected(self, case):
        c = self.content(case)
        if case["enc"] == "bin4":
            c["points"] = c["points"].astype(np.float32)
        return c

    def encode(self, c, case):
        f = num(case["num"])
        h = (lambda i: f"{i:x}") if case["hexcase"] == "l" else (lambda i: f"{i:X}")
        b = case["enc"] != "asc"
        pk = {"asc": "", "bin4": "20", "bin8": "30"}[case["enc"]]
        n, dim = c["points"].shape
        s = case["sp"]
        L = case["lead"]
        out = b""

        def put(x):
            nonlocal out
            out += x.encode() + b"\n"

        put('(1 "other tool 1.0")')
        if case["com"] == "plain":
            put('(0 "Grid:")')
        elif case["com"] == "parens":
            put('(0 "Grid (3D) (10 (0 1 9 0))")')
        elif case["com"] == "multi":
            put('(0 "Grid:\n dimensions\n")')
        put(f"(2 {dim})")
        if case["other"]:
            put("(39 (2 fluid fluid-1)())")
            put("(45 (2 fluid solid)())")
            put("(4 (60 0 0 1 2 4 4 4 8 4))")
        ncell = sum(len(x) for _, x in c["cells"])
        fi = case["first"]
        if case["decl"]:
            put(f"(10 (0 {h(fi)} {h(fi + n - 1)} 0 {dim}))")
            put(f"(13 (0 1 {h(ncell)} 0))")
            put("(12 (0 1 2 0))")

        def section(key, head, body, binary):
            nonlocal out
            out += f"{L}({key}{s}({head})".encode()
            out += b"(" if case["open"] == "same" else b"\n("
            if not (binary and case["open"] == "next"):
                out += b"\n"
            else:
                out += b""
            out += body
            if binary:
                out += f"\n)End of Binary Section {key})\n".encode()
            else:
                out += {"))": b"))\n", "nl": b")\n)\n", "sp": b") )\n"}[case["close"]]

        parts = [(0, n)] if case["zones"] == 1 else [(0, n // 2), (n // 2, n)]
        for z, (a, e) in enumerate(parts):
            head = f"{z + 1} {h(fi + a)} {h(fi + e - 1)} 1 {dim}"
            if b:
                body = c["points"][a:e].astype("<f4" if case["enc"] == "bin4" else "<f8").tobytes()
            else:
                body = "".join(("\n" if case["blank"] and i == 1 else "") + s.join(f(x) for x in p) + "\n" for i, p in enumerate(c["points"][a:e])).encode()
            section(pk + "10", head, body, b)
        first = 1
        if case["mixed"] and not b:
            rows = "".join(" ".join([h(self.FT[t])] + [h(i + fi) for i in r] + ["1", "0"]) + "\n" for t, x in c["cells"] for r in x)
            section("13", f"5 1 {h(ncell)} 3 0", rows.encode(), False)
        else:
            for z, (t, x) in enumerate(c["cells"]):
                head = f"{z + 5} {h(first)} {h(first + len(x) - 1)} 3 {self.FT[t]}"
                ext = np.column_stack([x + fi, np.ones(len(x), int), np.zeros(len(x), int)])
                if b:
                    body = ext.astype("<i4" if case["enc"] == "bin4" else "<i8").tobytes()
                else:
                    body = "".join(" ".join(h(i) for i in r) + "\n" for r in ext).encode()
                section(pk + "13", head, body, b)
                first += len(x)
        if case["nl"] == "\r\n":
            out = out.replace(b"\n", b"\r\n")
        return out


ENCODERS = [Abaqus(), Nastran(), Permas(), Mdpa(), Ansys()]
