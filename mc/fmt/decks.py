"""Finite-element decks: Abaqus, Nastran, Permas, Ansys, MDPA."""
import numpy as np

from .. import alphabet as A
from .base import Profile, pad3, seqs
from .vtk import merge_runs

PV = ["plain", "tricky", "third", "small", "large", "ints"]
SETBB = [[["triangle", 2]], [["triangle", 3], ["quad", 2], ["triangle", 1]], [["tetra", 2], ["line", 3]]]
SETS = [
    None,
    {"s": [[0]]}, {"s": [[1, 0]], "all": [[0, 1]]},
    {"a": [[0, 2], [1], [0]]}, {"a": [[1], [], []], "b": [[], [0, 1], []], "c": [[], [], [0]]},
    {"a": [[2], None, [0]], "b": [None, [1], None]}, {"a": [[0, 1, 2], [0, 1], [0]], "x": [[2], [0], None]},
    {"a": [[0, 1], [2]]}, {"a": [[1], [0, 1, 2]], "b": [[0], [1]]}, {"a": [[], [1]], "q": [[1], None]},
]
PSETS = [None, {"n": [0]}, {"n": [2, 0, 1]}, {"n": [0, 1, 2, 3, 4], "m": [3]},
         {"p": [0], "q": [1], "r": [2, 3]}]


class Abaqus(Profile):
    name = "abaqus"
    ext = ".inp"
    file_format = "abaqus"
    opts = {"": {}, "9": dict(float_fmt=".9e")}
    types = ["triangle", "line", "line3", "quad", "quad8", "quad9", "triangle6", "hexahedron", "hexahedron20",
             "tetra", "tetra10", "wedge", "wedge15"]
    core = ["triangle", "quad", "line", "tetra10"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = ["i8", "i4", "u8", "u4"]
    parts = ("points", "cells", "point_sets", "cell_sets")
    css = SETS
    pss = PSETS + [{"big": list(range(0, 40))}, {"nine": list(range(9))}]
    bb = SETBB
    base = dict(ps={"n": [2, 0, 1]})
    bound = {"quick": 4, "thorough": 5}
    big = [dict(b=[["triangle", 30], ["quad", 17]], np=2000,
                cs={"big": [list(range(0, 30)), list(range(3, 17))], "eight": [list(range(8)), list(range(8, 16))]},
                ps={"many": list(range(0, 2000, 3))})]

    def admissible(self, a):
        d = A.full(a)
        n = A.npoints(a)
        if a["o"] == "9" and d["pv"] == "tricky":
            return False
        if d["ps"] and any(max(v) >= n for v in d["ps"].values()):
            return False
        return Profile.admissible(self, a)

    def tolerances(self, case):
        return dict(tol=1e-9 if case["o"] == "9" else 0.0)


class Nastran(Profile):
    name = "nastran"
    ext = ".bdf"
    file_format = "nastran"
    opts = {f"{p[0]}{p[-5:]}/{c[0]}{c[-5:]}": dict(point_format=p, cell_format=c)
            for p in ("fixed-large", "fixed-small", "free") for c in ("fixed-small", "fixed-large", "free")}
    opts[""] = {}
    types = ["triangle", "vertex", "line", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10", "pyramid",
             "pyramid13", "wedge", "wedge15", "hexahedron", "hexahedron20"]
    core = ["triangle", "quad", "tetra", "hexahedron20"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = [v.replace("tricky", "tricky0") for v in PV]
    npts = [None, 40]
    cts = ["i8", "i4", "u8", "u4"]
    parts = ("points", "cells", "point_data", "cell_data")
    pds = [["nastran:ref=i8!tags"], [], ["nastran:ref=i4"]]
    cds = [["nastran:ref=i8!tags"], [], ["nastran:ref=i4"]]
    base = dict(pd=["nastran:ref=i8!tags"], cd=["nastran:ref=i8!tags"])
    bb = [[["triangle", 2]], [["triangle", 3], ["quad", 2], ["triangle", 1]], [["tetra", 2], ["line", 3]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 30], ["hexahedron20", 17]], np=2000)]

    def expected(self, content, case):
        c = merge_runs(content)
        c["points"] = pad3(c["points"])
        return c

    def tolerances(self, case):
        pf = self.opts[case["o"]].get("point_format", "fixed-large")
        pv = A.full(case)["pv"]
        if pf == "fixed-small":
            tol = {"tricky0": 0.2, "large": 1e-2, "small": 1e-2}.get(pv, 2e-3)
        else:
            tol = 2e-8 if pv == "tricky0" else 1e-10
        if A.full(case)["pt"] == "f4":
            tol = max(tol, 1.3e-7)
        return dict(tol=tol, data_tol=0.0)


class Permas(Profile):
    name = "permas"
    ext = ".post"
    file_format = "permas"
    types = ["triangle", "vertex", "line", "line3", "quad", "quad8", "quad9", "triangle6", "hexahedron",
             "hexahedron20", "hexahedron27", "tetra", "tetra10", "pyramid", "wedge", "wedge15"]
    core = ["triangle", "quad", "line", "tetra10", "triangle6"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = ["i8", "i4", "u8", "u4"]
    parts = ("points", "cells")
    bb = SETBB
    bound = {"quick": 4, "thorough": 5}
    big = [dict(b=[["triangle", 30], ["quad9", 17]], np=2000)]

    def expected(self, content, case):
        return dict(content, points=pad3(content["points"]))

    def tolerances(self, case):
        return dict(tol=1.3e-7 if A.full(case)["pt"] == "f4" else 0.0)


class Ansys(Profile):
    name = "ansys"
    ext = ".msh"
    file_format = "ansys"
    opts = {"bin": dict(binary=True), "asc": dict(binary=False)}
    types = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
    core = types
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40, 300]
    cts = ["i8", "i4", "u8", "u4"]
    parts = ("points", "cells")
    bb = SETBB
    bound = {"quick": 4, "thorough": 5}
    big = [dict(b=[["triangle", 30], ["hexahedron", 170]], np=70000)]

    def read_format(self):
        return "ansys"

    def admissible(self, a):
        d = A.full(a)
        return all(t in self.types for t, _ in d["b"]) and Profile.admissible(self, a)

    def tolerances(self, case):
        return dict(tol="bits" if case["o"] == "bin" else 0.0)


class MDPA(Profile):
    name = "mdpa"
    ext = ".mdpa"
    file_format = "mdpa"
    types = ["triangle", "line", "quad", "tetra", "hexahedron", "wedge", "line3", "triangle6", "quad9", "tetra10",
             "hexahedron27", "vertex", "quad8", "hexahedron20"]
    core = ["triangle", "line3", "quad9", "tetra"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = ["i8", "i4", "u8", "u4"]
    parts = ("points", "cells")
    pds = [[], ["f8"], ["f8:3"]]
    cds = [[], ["f8"], ["f8:3"]]
    bb = SETBB
    bound = {"quick": 4, "thorough": 5}
    big = [dict(b=[["triangle", 30], ["quad9", 17]], np=2000)]

    def expected(self, content, case):
        c = merge_runs(content)
        c["points"] = pad3(c["points"])
        return c


PROFILES = [Abaqus(), Nastran(), Permas(), Ansys(), MDPA()]
