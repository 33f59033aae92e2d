"""Gmsh MSH 2.2, 4.0 and 4.1."""
import numpy as np

from .. import alphabet as A
from .base import Profile, pad3, seqs
from .vtk import merge_runs

LOW = ["triangle", "line", "vertex", "quad", "tetra", "hexahedron", "wedge", "pyramid",
       "line3", "triangle6", "quad9", "tetra10", "hexahedron27", "wedge18", "pyramid14",
       "quad8", "hexahedron20", "wedge15", "pyramid13"]
HIGH = ["triangle10", "triangle15", "triangle21", "line4", "line5", "line6", "tetra20",
        "tetra35", "tetra56", "quad16", "quad25", "quad36", "triangle28", "triangle36",
        "triangle45", "triangle55", "triangle66", "quad49", "quad64", "quad81",
        "quad100", "quad121", "line7", "line8", "line9", "line10", "line11", "tetra84",
        "tetra120", "tetra165", "tetra220", "tetra286", "wedge40", "wedge75",
        "hexahedron64", "hexahedron125", "hexahedron216", "hexahedron343",
        "hexahedron512", "hexahedron729", "hexahedron1000", "wedge126", "wedge196",
        "wedge288", "wedge405", "wedge550"]


def entity(variant, blocks, n, per_dim=False):
    """dim_tags for the points, geometrical and physical tags for the blocks."""
    ents = []
    for i, (t, m) in enumerate(blocks):
        d = A.DIM[A.base_type(t)]
        ents.append((d, 1 + sum(x[0] == d for x in ents) if per_dim else 10 * (i + 1) + (3 - i)))
    dt = np.zeros((n, 2), dtype=np.int64)
    if variant == "contig":
        order = sorted(ents)
        for j in range(n):
            dt[j] = order[min(j * len(order) // n, len(order) - 1)]
    elif variant == "inter":
        for j in range(n):
            dt[j] = ents[(j * 7 + 1) % len(ents)]
    elif variant == "points":  # some nodes on point entities as well
        for j in range(n):
            dt[j] = (0, 100 + j) if j % 3 == 1 else ents[(j + 1) % len(ents)]
    elif variant == "free":  # nodes on curves, surfaces and volumes without cells
        for j in range(n):
            dt[j] = (j % 4, 200 + j % 3) if j % 3 == 1 else ents[(j + 1) % len(ents)]
    elif variant == "rev":
        order = sorted(ents, reverse=True)
        for j in range(n):
            dt[j] = order[min(j * len(order) // n, len(order) - 1)]
    elif variant == "lack":  # no node is classified on the last block's entity
        for j in range(n):
            dt[j] = (0, 100 + j) if len(ents) == 1 else ents[j % (len(ents) - 1)]
    return ents, dt


def periodic(variant, n):
    a = np.array([[0, 1], [2, n - 1]])
    b = np.array([[1, 3 % n]])
    aff = [1.0, 0, 0, 1.0 / 3.0, 0, 1, 0, -2.5e-7, 0, 0, 1, 0.1, 0, 0, 0, 1]
    return {
        "one": [[0, (3, 1), None, a]],
        "aff": [[1, (2, 1), aff, a]],
        "two": [[1, (2, 1), aff, a], [2, (7, 5), None, b]],
        "mix": [[2, (7, 5), None, b], [1, (2, 1), aff, a], [0, (1, 2), None, a]],
    }[variant]


class Gmsh(Profile):
    name = "gmsh"
    ext = ".msh"
    opts = {
        "22-bin": ("2.2", True), "22-asc": ("2.2", False),
        "40-bin": ("4.0", True), "40-asc": ("4.0", False),
        "41-bin": ("4.1", True), "41-asc": ("4.1", False),
    }
    types = LOW
    core = ["triangle", "line", "vertex", "quad", "hexahedron20"]
    dims = (3, 2)
    tol = 0.0
    pts = ["f8", "f4"]
    npts = [None, 40]
    parts = ("points", "cells", "point_data", "cell_data", "field_data", "cell_sets")
    pds = [[], ["f8"], ["f8:3"], ["f8:9"], ["f8:1"], ["i4"], ["f4:3"], ["f8!tricky"], ["f8!nan"],
           ["f8:3!tricky"], ["a b=f8", "c:d=f8:9"], ["u1"], ["i8:3"], ["f8", "f8:3", "i8"]]
    cds = pds
    fds = [None, {"one": [1, 2]}, {"b name": [2, 1], "a": [1, 2], "vol": [5, 3], "pt": [4, 0]},
           {"l": [1, 1], "s": [1, 2], "t": [2, 2], "v": [1, 3], "p": [1, 0]},
           {"x": [11, 1], "y": [12, 2], "z": [13, 0], "w": [12, 3], "v": [14, 2]}]
    gms = [None, "contig", "inter", "points", "rev", "lack", "inter+be", "contig+be", "contig+np", "inter+np", "inter+sp",
           "inter+st", "points+st+be", "contig+st+sp", "free", "free+be", "free+be+np"]
    pers = [None, "one", "aff", "two", "mix"]
    tgs = [None, "both", "phys", "geom", "percell"]
    base = dict(pd=["f8", "f8:3"], cd=["f8", "f8:3"], gm=None)
    bb = [[["triangle", 2]], [["triangle", 2], ["line", 3]], [["vertex", 1], ["line", 1], ["quad", 2], ["tetra", 1]],
          [["tetra10", 1], ["triangle6", 2]], [["triangle", 1], ["quad", 2], ["triangle", 2]]]
    big = [
        dict(b=[["triangle", 3]], np=70000, pd=["f8"], cd=["f8"]),
        dict(b=[["line", 40000], ["triangle", 33000]], np=70001, cd=["f8:3"], gm="inter"),
    ]

    def blocks(self):
        return seqs(self.types, self.core) + [[[t, 1]] for t in HIGH] + [
            [["line4", 1], ["triangle10", 2]], [["tetra20", 1], ["quad16", 1], ["line4", 2]]]

    def axes(self):
        ax = Profile.axes(self)
        ax["gm"] = self.gms
        ax["per"] = self.pers
        ax["tg"] = self.tgs
        return ax

    def admissible(self, a):
        v = self.opts[a["o"]][0]
        if a.get("gm") and v == "4.0":
            return False
        if a.get("gm") and a.get("tg"):
            return False
        if a.get("tg") and v != "2.2":
            return False
        if v == "4.1" and len(a.get("b", [1])) > 1 and not a.get("gm"):
            a["gm"] = "contig"
        return Profile.admissible(self, a)

    def content(self, case):
        c = A.build(case)
        d = A.full(case)
        n = len(c["points"])
        if case.get("gm"):
            mods = case["gm"].split("+")
            ents, dt = entity(mods[0], d["b"], n, "st" in mods)
            if "be" in mods:
                c["cell_sets"]["gmsh:bounding_entities"] = [
                    None if A.DIM[t] == 0 else np.array([[], [3, -4], [9], [-1, 2, 77]][(i + len(d["b"])) % 4], dtype=int)
                    for i, (t, _) in enumerate(c["cells"])]
            c["point_data"]["gmsh:dim_tags"] = dt
            c["cell_data"]["gmsh:physical"] = [
                np.full(len(x), (ents[i][1] + 1) // 2 if "st" in mods else 11 + i, dtype=int) for i, (_, x) in enumerate(c["cells"])]
            if "np" in mods:
                del c["cell_data"]["gmsh:physical"]
            elif "sp" in mods:
                # only some of the blocks belong to a physical group (0: none)
                c["cell_data"]["gmsh:physical"] = [x * (i % 2) for i, x in enumerate(c["cell_data"]["gmsh:physical"])]
            c["cell_data"]["gmsh:geometrical"] = [
                np.full(len(x), ents[i][1], dtype=int) for i, (_, x) in enumerate(c["cells"])]
        tg = case.get("tg")
        if tg in ("both", "phys", "percell"):
            c["cell_data"]["gmsh:physical"] = [
                (np.arange(len(x)) % 3 + 5 * i + 1 if tg == "percell" else np.full(len(x), i + 3))
                for i, (_, x) in enumerate(c["cells"])]
        if tg in ("both", "geom", "percell"):
            c["cell_data"]["gmsh:geometrical"] = [
                (7 * i + 2 - np.arange(len(x)) % 2 if tg == "percell" else np.full(len(x), i + 20))
                for i, (_, x) in enumerate(c["cells"])]
        c["per"] = periodic(case["per"], n) if case.get("per") else None
        return c

    def mesh(self, meshio, content, case):
        m = Profile.mesh(self, meshio, content, case)
        if content["per"] is not None:
            m.gmsh_periodic = [list(x) for x in content["per"]]
        return m

    def write(self, meshio, path, mesh, case):
        v, binary = self.opts[case["o"]]
        if v == "4.0":
            meshio.gmsh.write(path, mesh, "4.0", binary=binary)
        else:
            meshio.write(path, mesh, {"2.2": "gmsh22", "4.1": "gmsh"}[v], binary=binary)

    def content_of(self, mesh):
        c = A.content_of(mesh)
        c["per"] = mesh.gmsh_periodic
        return c

    def expected(self, content, case):
        v, _ = self.opts[case["o"]]
        c = dict(content)
        tags = ("gmsh:physical", "gmsh:geometrical")
        c["cell_data"] = {k: list(x) for k, x in content["cell_data"].items()}
        c["point_data"] = dict(content["point_data"])
        c["points"] = pad3(content["points"]).astype(float)
        nb = len(c["cells"])
        if v == "2.2":
            for t in tags:
                c["cell_data"].setdefault(t, [np.zeros(len(x), dtype=int) for _, x in c["cells"]])
            c["point_data"].pop("gmsh:dim_tags", None)
            c["cell_sets"] = {}
            c = merge_runs(c)
        elif v == "4.0":
            c["cell_data"]["gmsh:geometrical"] = [np.full(len(x), 1) for _, x in c["cells"]]
            c["cell_sets"] = {}
        else:
            dt = c["point_data"].get("gmsh:dim_tags")
            if dt is None:
                dim = A.DIM[c["cells"][0][0]]
                c["point_data"]["gmsh:dim_tags"] = np.tile([dim, 0], (len(c["points"]), 1))
                c["cell_data"]["gmsh:geometrical"] = [np.zeros(len(x), int) for _, x in c["cells"]]
                c["cell_sets"] = {k: [np.array([], int)] * nb for k in content["field_data"]}
            else:
                # the file groups the nodes by entity, ascending
                order = sorted(range(len(dt)), key=lambda j: (tuple(dt[j]), j))
                inv = np.empty(len(dt), dtype=int)
                inv[order] = np.arange(len(dt))
                c["points"] = c["points"][order]
                c["cells"] = [(t, inv[x.astype(int)]) for t, x in c["cells"]]
                c["point_data"] = {k: x[order] for k, x in c["point_data"].items()}
                if c["per"] is not None:
                    c["per"] = [[a, b, f, inv[np.asarray(s)]] for a, b, f, s in c["per"]]
                phys = [x[0] for x in c["cell_data"].get("gmsh:physical", [[0]] * nb)]
                if not any(phys):
                    c["cell_data"].pop("gmsh:physical", None)
                cs = {}
                for name, (num, dim) in content["field_data"].items():
                    cs[name] = [
                        np.arange(len(x)) if (A.DIM[t] == dim and phys[i] == num) else np.array([], int)
                        for i, (t, x) in enumerate(c["cells"])]
                cs["gmsh:bounding_entities"] = content["cell_sets"].get("gmsh:bounding_entities")
                c["cell_sets"] = cs
        c["point_data"] = {k: x[:, 0] if x.ndim == 2 and x.shape[1] == 1 else x
                           for k, x in c["point_data"].items()}
        c["cell_data"] = {k: [x[:, 0] if x.ndim == 2 and x.shape[1] == 1 else x for x in y]
                          for k, y in c["cell_data"].items()}
        return c

    def judge(self, exp, got, case, ctx):
        if "gmsh:bounding_entities" in exp["cell_sets"]:
            e = exp["cell_sets"].pop("gmsh:bounding_entities")
            g = got["cell_sets"].pop("gmsh:bounding_entities", None)
            if e is not None:
                f = [[] if x is None else [int(v) for v in x] for x in e]
                h = None if g is None else [[] if x is None else [int(v) for v in x] for x in g]
                if f != h:
                    ctx.fail("bounding_entities", f"got {h}, expected {f}")
        for k in exp["field_data"]:
            exp["field_data"][k] = np.asarray(exp["field_data"][k])
        ep, gp = exp.pop("per"), got.pop("per")
        if (ep is None) != (gp is None) or (ep is not None and len(ep) != len(gp)):
            ctx.fail("periodic", f"periodic {gp}, expected {ep}")
        elif ep is not None:
            for e, g in zip(ep, gp):
                if (int(g[0]), tuple(int(x) for x in g[1])) != (e[0], tuple(e[1])):
                    ctx.fail("periodic", f"periodic entity {g[:2]}, expected {e[:2]}")
                ea = [] if e[2] is None else list(e[2])
                ga = [] if g[2] is None else [float(x) for x in g[2]]
                if ea != ga:
                    ctx.fail("periodic", f"affine {ga}, expected {ea}")
                d = A.arr_diff(np.asarray(e[3]), np.asarray(g[3]), 0.0, "periodic nodes")
                if d:
                    ctx.fail("periodic", d)
        Profile.judge(self, exp, got, case, ctx)


PROFILES = [Gmsh()]
