"""Medit, Netgen, TetGen, UGRID, AVS-UCD, DOLFIN XML, SU2, Tecplot, FLAC3D."""

import os

import numpy as np

from .. import alphabet as A
from .base import Profile, pad3, seqs

PV = ["plain", "tricky", "third", "small", "large", "ints"]
CT = ["i8", "i4", "u8", "u4"]


def group_by(content, order):
    """Blocks grouped by type in the given order of types (first appearance kept inside)."""
    groups = []
    for t in order:
        g = [i for i, (u, _) in enumerate(content["cells"]) if u == t]
        if g:
            groups.append(g)
    return A.regroup(content, groups)


def runs(content, order=None):
    """Stable reordering of the blocks by class, then consecutive equal types merged."""
    idx = list(range(len(content["cells"])))
    if order:
        idx.sort(key=lambda i: order(content["cells"][i][0]))
    groups = []
    for i in idx:
        t = content["cells"][i][0]
        if groups and content["cells"][groups[-1][0]][0] == t:
            groups[-1].append(i)
        else:
            groups.append([i])
    return A.regroup(content, groups)


def ref(content, name, src, default):
    """The reference array a reader reports under its own name."""
    v = content["cell_data"].get(src)
    if v is None:
        v = [np.full(len(c), default) for _, c in content["cells"]]
    return {name: v}


def prep_ref(content, src, default):
    """Make sure the reference array exists before blocks are regrouped."""
    return dict(content, cell_data=ref(content, src, src, default))


TRI = [["triangle", 2]]


class Medit(Profile):
    name = "medit"
    ext = ".mesh"
    file_format = "medit"
    opts = {"asc": {}, "bin": {}}
    types = ["triangle", "line", "quad", "tetra", "wedge", "pyramid", "hexahedron"]
    core = ["triangle", "line", "tetra", "hexahedron"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = CT
    pds = [["medit:ref=i8!tags"], [], ["other=i4"], ["u=u2"], ["a=f8", "r=i8"]]
    cds = [["medit:ref=i8!tags"], [], ["other=i4"], ["u=u2"], ["a=f8", "r=i8"]]
    base = dict(pd=pds[0], cd=cds[0])
    bb = [TRI, [["triangle", 3], ["quad", 2], ["triangle", 1]], [["tetra", 2], ["line", 3]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 3000], ["hexahedron", 170]], np=7000)]

    def path(self, d):
        return os.path.join(d, "mesh")

    def write(self, meshio, path, mesh, case):
        meshio.write(self.full(path, case), mesh)

    def full(self, path, case):
        return path + (".meshb" if case["o"] == "bin" else ".mesh")

    def read(self, meshio, path, case=None):
        return meshio.read(self.full(path, case))

    def admissible(self, a):
        if a["o"] == "asc" and A.full(a)["lay"] == "BE":
            return False
        return Profile.admissible(self, a)

    @staticmethod
    def pick(data):
        for k, v in data.items():
            x = v[0] if isinstance(v, list) else v
            if x.dtype.kind in "iu":
                return k
        return None

    def expected(self, content, case):
        c = dict(content)
        k = self.pick(content["point_data"])
        c["point_data"] = {"medit:ref": content["point_data"][k] if k else np.ones(len(c["points"]), dtype=int)}
        k = self.pick(content["cell_data"])
        c["cell_data"] = ref(content, "medit:ref", k, 1)
        return c

    def tolerances(self, case):
        f4 = A.full(case)["pt"] == "f4"
        return dict(tol=1.3e-7 if f4 and case["o"] == "asc" else 0.0, data_tol=0.0)


class Netgen(Profile):
    name = "netgen"
    ext = ".vol"
    file_format = "netgen"
    opts = {"": {}, "gz": {}, "12": dict(float_fmt=".12e")}
    types = ["triangle", "vertex", "line", "triangle6", "quad", "quad8", "tetra", "pyramid", "wedge", "hexahedron", "tetra10",
             "pyramid13", "wedge15", "hexahedron20"]
    core = ["triangle", "line", "tetra", "vertex", "quad8"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = CT
    parts = ("points", "cells", "cell_data", "field_data")
    cds = [["netgen:index=i8!tags"], [], ["other=i4!tags"], ["z=f8", "b=i8!tags"], ["a=i4!tags", "netgen:index=i8!tags"]]
    fds = [{"one": [1, 2], "vol": [2, 3], "seg": [3, 1]}, None, {"a": [5, 0], "b": [2, 2], "c": [1, 2]}]
    base = dict(cd=cds[0], fd=fds[0])
    bb = [TRI, [["triangle", 3], ["quad", 2], ["triangle", 1]], [["line", 2], ["tetra", 2], ["vertex", 3]],
          [["vertex", 1], ["line", 1], ["vertex", 2], ["hexahedron20", 2], ["quad8", 1]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 300], ["hexahedron20", 17]], np=700)]

    def path(self, d):
        return os.path.join(d, "mesh.vol")

    def write(self, meshio, path, mesh, case):
        meshio.write(self.full(path, case), mesh, **self.opts[case["o"]])

    def full(self, path, case):
        return path + (".gz" if case["o"] == "gz" else "")

    def read(self, meshio, path, case=None):
        return meshio.read(self.full(path, case))

    def expected(self, content, case):
        cd = content["cell_data"]
        src = "netgen:index" if "netgen:index" in cd else Medit.pick(cd)
        c = dict(content, cell_data=ref(content, "netgen:index", src, 1))
        rank = {2: 0, 3: 1, 1: 2, 0: 3}
        c = runs(c, lambda t: rank[A.DIM[t]])
        dim = c["points"].shape[1]
        fd = {k: v for k, v in content["field_data"].items() if 0 <= v[1] <= dim}
        if src is not None:
            # codimensions without names get generic ones
            for codim in range(dim + 1):
                if any(v[1] == dim - codim for v in fd.values()):
                    continue
                ids = set()
                for (t, x), v in zip(content["cells"], cd[src]):
                    if A.DIM[t] == dim - codim:
                        ids |= set(int(i) for i in v)
                for i in ids:
                    fd[f"cd{codim}_{i}"] = np.array([i, dim - codim])
        c["field_data"] = fd
        return c

    def tolerances(self, case):
        return dict(tol=(1e-12 if case["o"] == "12" else 0.0), data_tol=0.0)


class TetGen(Profile):
    name = "tetgen"
    ext = ".ele"
    file_format = "tetgen"
    opts = {"ele": {}, "node": {}, "9": dict(float_fmt=".9e")}
    types = ["tetra"]
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = CT
    pds = [["tetgen:ref=i8!tags"], [], ["a=f8"], ["a=f8", "b=i4", "x:ref=i8"], ["a=f8!third", "b=f8"], ["p=i4", "q=f4"]]
    cds = [["tetgen:ref=i8!tags"], [], ["a=f8"], ["a=f8", "b=i4", "x:ref=i8"], ["a=f8!third", "b=f8"], ["p=i4", "q=f4"]]
    base = dict(pd=pds[3], cd=cds[3])
    bb = [[["tetra", 2]], [["tetra", 1], ["tetra", 3]], [["triangle", 2], ["tetra", 2], ["line", 1], ["tetra", 3]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["tetra", 3000]], np=7000)]

    def blocks(self):
        return ([[["tetra", m]] for m in (1, 2, 3, 17)] + [[["tetra", a], ["tetra", b]] for a in (1, 2) for b in (1, 2, 5)]
                + [[["triangle", 2], ["tetra", 2]], [["tetra", 2], ["line", 1]], [["line", 1], ["tetra", 2], ["triangle", 2], ["tetra", 1]]])

    def path(self, d):
        return os.path.join(d, "mesh")

    def write(self, meshio, path, mesh, case):
        meshio.write(path + {"ele": ".ele", "node": ".node", "9": ".ele"}[case["o"]], mesh, **self.opts[case["o"]])

    def read(self, meshio, path, case=None):
        return meshio.read(path + {"ele": ".node", "node": ".ele", "9": ".ele"}[case["o"]])

    def admissible(self, a):
        # rounding to fewer digits may leave the range of doubles
        return not (a["o"] == "9" and A.full(a)["pv"] == "tricky") and Profile.admissible(self, a)

    def expected(self, content, case):
        c = group_by(content, ["tetra"])
        pd = content["point_data"]
        keys = list(pd)
        refs = [k for k in keys if ":ref" in k][:1] or keys[:1]
        attrs = [k for k in keys if k not in refs]
        c["point_data"] = {f"tetgen:attr{i + 1}": pd[k] for i, k in enumerate(attrs)}
        c["point_data"].update({"tetgen:ref": pd[k] for k in refs})
        cd = c["cell_data"]
        keys = list(cd)
        refs = [k for k in keys if ":ref" in k][:1]
        keys = refs + [k for k in keys if k not in refs]
        c["cell_data"] = {"tetgen:ref" + ("" if i == 0 else str(i + 1)): cd[k] for i, k in enumerate(keys)}
        return c

    def tolerances(self, case):
        d = A.full(case)
        f4 = d["pt"] == "f4" or any("f4" in s for s in d["pd"] + d["cd"])
        return dict(tol=1e-9 if case["o"] == "9" else 0.0, data_tol=1e-6 if f4 else (1e-9 if case["o"] == "9" else 0.0))


class UGRID(Profile):
    name = "ugrid"
    ext = ".ugrid"
    file_format = "ugrid"
    opts = {k: {} for k in ("ascii", "b8l", "b8", "b4", "lb8l", "lb8", "lb4", "r8", "r4", "lr8", "lr4")}
    ORDER = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
    types = ORDER
    core = ORDER
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = CT
    parts = ("points", "cells", "cell_data")
    cds = [["ugrid:ref=i8!tags"], [], ["other=i4"], ["a=f8", "r=i8"]]
    base = dict(cd=cds[0])
    bb = [TRI, [["tetra", 2], ["quad", 3], ["triangle", 1]], [["hexahedron", 1], ["pyramid", 2], ["wedge", 3]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 3000], ["hexahedron", 170]], np=7000)]

    def path(self, d):
        return os.path.join(d, "mesh")

    def write(self, meshio, path, mesh, case):
        meshio.write(self.full(path, case), mesh)

    def full(self, path, case):
        return path + ("." + case["o"] if case["o"] != "ascii" else "") + ".ugrid"

    def read(self, meshio, path, case=None):
        return meshio.read(self.full(path, case))

    def admissible(self, a):
        d = A.full(a)
        ts = [t for t, _ in d["b"]]
        if a["o"] in ("b4", "lb4", "r4", "lr4") and d["pv"] == "tricky" and d["pt"] == "f8":
            return False  # beyond single precision
        return len(ts) == len(set(ts)) and Profile.admissible(self, a)

    def expected(self, content, case):
        k = Medit.pick(content["cell_data"])
        c = dict(content, cell_data=ref(content, "ugrid:ref", k, 1))
        c["cell_data"] = {"ugrid:ref": [
            v if A.DIM[t] == 2 else np.zeros(len(v), dtype=int)
            for (t, _), v in zip(c["cells"], c["cell_data"]["ugrid:ref"])]}
        return group_by(c, self.ORDER)

    def tolerances(self, case):
        single = case["o"] in ("b4", "lb4", "r4", "lr4")
        f4 = A.full(case)["pt"] == "f4"
        return dict(tol=1.3e-7 if (single or (f4 and case["o"] == "ascii")) else 0.0, data_tol=0.0)


class AVSUCD(Profile):
    name = "avsucd"
    ext = ".avs"
    file_format = "avsucd"
    types = ["triangle", "vertex", "line", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
    core = ["triangle", "line", "pyramid", "hexahedron"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = CT
    pds = [["f8", "v=f8:3"], [], ["i=i4"], ["f8!third", "f8:2!third", "f4"]]
    cds = [["avsucd:material=i8!tags", "f8", "w=f8:3"], [], ["f8"], ["f8:2!third", "m=i4", "q=f8"], ["m=i4"]]
    base = dict(pd=pds[0], cd=cds[0])
    bb = [TRI, [["triangle", 3], ["quad", 2], ["triangle", 1]], [["tetra", 2], ["line", 3]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 300], ["hexahedron", 170]], np=700, pd=["f8:3"], cd=["f8"])]

    def expected(self, content, case):
        k = Medit.pick(content["cell_data"])
        cd = dict(content["cell_data"])
        mat = cd.pop(k) if k else [np.zeros(len(c), dtype=int) for _, c in content["cells"]]
        cd["avsucd:material"] = mat
        c = runs(dict(content, cell_data=cd))
        c["points"] = pad3(c["points"])
        return c

    def tolerances(self, case):
        return dict(tol=1.3e-7 if A.full(case)["pt"] == "f4" else 0.0, data_tol=1e-14)


class Dolfin(Profile):
    name = "dolfin"
    ext = ".xml"
    file_format = "dolfin-xml"
    types = ["triangle", "tetra"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = CT
    parts = ("points", "cells", "cell_data")
    cds = [["f8", "i=i8"], [], ["u=u4"], ["a_b=f8!third", "f4"], ["f8!tricky"]]
    base = dict(cd=cds[0])
    bb = [TRI, [["triangle", 1], ["triangle", 3]], [["triangle", 2], ["tetra", 2], ["line", 1], ["tetra", 3]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 300]], np=700, cd=["f8"])]

    def blocks(self):
        return ([[[t, m]] for t in self.types for m in (1, 2, 3, 17)]
                + [[[t, a], [t, b]] for t in self.types for a in (1, 2) for b in (1, 2, 5)]
                + [[["triangle", 2], ["tetra", 2]], [["tetra", 2], ["line", 1]], [["line", 1], ["tetra", 2], ["triangle", 2], ["tetra", 1]]])

    def expected(self, content, case):
        ts = [t for t, _ in content["cells"]]
        return group_by(content, ["tetra" if "tetra" in ts else "triangle"])

    def tolerances(self, case):
        f4 = any("f4" in s for s in A.full(case)["cd"])
        return dict(tol=1.3e-7 if A.full(case)["pt"] == "f4" else 0.0, data_tol=1.3e-7 if f4 else 0.0)


class SU2(Profile):
    name = "su2"
    ext = ".su2"
    file_format = "su2"
    types = ["triangle", "line", "quad", "tetra", "hexahedron", "wedge", "pyramid"]
    core = ["line", "triangle", "quad", "tetra"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = CT
    parts = ("points", "cells", "cell_data")
    cds = [["su2:tag=i8!tags"], [], ["other=i4"], ["a=f8", "r=i8!tags"]]
    base = dict(cd=cds[0])
    bb = [[["tetra", 2], ["triangle", 5]], [["quad", 5], ["hexahedron", 2], ["triangle", 3], ["tetra", 1], ["quad", 2]],
          [["line", 4], ["triangle", 2], ["quad", 2], ["line", 3]]]
    bound = {"quick": 4, "thorough": 5}
    big = [dict(b=[["triangle", 300], ["hexahedron", 170]], np=700)]
    CODE = {"line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}

    def cases(self, tier, counted=True):
        for c in Profile.cases(self, tier, counted):
            yield c
            if "d" not in c:
                c = dict(c, d=2)
                if self.admissible(c):
                    yield c

    def admissible(self, a):
        d = A.full(a)
        inner = ("triangle", "quad") if d["d"] == 2 else ("tetra", "hexahedron", "wedge", "pyramid")
        bnd = ("line",) if d["d"] == 2 else ("triangle", "quad")
        if not any(t in inner + bnd for t, _ in d["b"]):
            return False
        return Profile.admissible(self, a)

    def expected(self, content, case):
        dim = content["points"].shape[1]
        inner = ("triangle", "quad") if dim == 2 else ("tetra", "hexahedron", "wedge", "pyramid")
        bnd = ("line",) if dim == 2 else ("triangle", "quad")
        k = Medit.pick(content["cell_data"])
        tag = content["cell_data"].get(k) if k else [np.ones(len(c), dtype=int) for _, c in content["cells"]]
        blocks = []
        for t in sorted(inner, key=self.CODE.get):
            g = [c for u, c in content["cells"] if u == t]
            if g:
                g = np.concatenate(g)
                blocks.append((t, g, np.zeros(len(g), dtype=int)))
        tags = []
        for (t, c), v in zip(content["cells"], tag):
            if t in bnd:
                for x in sorted(set(int(i) for i in v)):
                    if x not in tags:
                        tags.append(x)
        merged = {}
        for x in tags:
            for t in sorted(bnd, key=self.CODE.get):
                rows = [c[np.asarray(v) == x] for (u, c), v in zip(content["cells"], tag) if u == t]
                rows = np.concatenate(rows) if rows else np.zeros((0, 1))
                if len(rows):
                    merged.setdefault(t, []).append((rows, np.full(len(rows), x)))
        for t, parts in merged.items():
            blocks.append((t, np.concatenate([p[0] for p in parts]), np.concatenate([p[1] for p in parts])))
        return dict(content, cells=[(t, c) for t, c, _ in blocks], cell_data={"su2:tag": [v for _, _, v in blocks]})


class Tecplot(Profile):
    name = "tecplot"
    ext = ".dat"
    file_format = "tecplot"
    types = ["triangle", "line", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
    core = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40, 21]
    cts = CT
    pds = [["f8", "v=f8:3"], [], ["i=i4"], ["f8!third", "f8:2!third", "f4"], ["u v=f8"]]
    cds = [["f8", "w=f8:3"], [], ["i=i4"], ["f8:2!third", "q=f8"], ["f8"]]
    base = dict(pd=pds[0], cd=cds[0])
    bb = [TRI, [["triangle", 3], ["quad", 2], ["triangle", 1]], [["tetra", 2], ["hexahedron", 3], ["wedge", 2]], [["quad", 45]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 300]], np=700, pd=["f8:3"], cd=["f8"])]
    # every cell as the degenerate quadrilateral or brick that the format documents
    SELF = {"line": [0, 1], "triangle": [0, 1, 2], "quad": [0, 1, 2, 3], "tetra": [0, 1, 2, 3], "hexahedron": list(range(8)),
            "pyramid": [0, 1, 2, 3, 4, 4, 4, 4], "wedge": [0, 1, 4, 3, 2, 2, 5, 5]}
    MIX = {"triangle": [0, 1, 2, 2], "quad": [0, 1, 2, 3], "tetra": [0, 1, 2, 2, 3, 3, 3, 3], "hexahedron": list(range(8)),
           "pyramid": [0, 1, 2, 3, 4, 4, 4, 4], "wedge": [0, 1, 4, 3, 2, 2, 5, 5]}

    def admissible(self, a):
        d = A.full(a)
        ts = {t for t, _ in d["b"]}
        if "line" in ts and len(ts) > 1:
            return False
        return Profile.admissible(self, a)

    def expected(self, content, case):
        ts = {t for t, _ in content["cells"]}
        keep = list(range(len(content["cells"])))
        if len(ts) == 1:
            perm = self.SELF
            out = {"pyramid": "hexahedron", "wedge": "hexahedron"}.get(list(ts)[0], list(ts)[0])
        else:
            perm = self.MIX
            dims = {A.DIM[t] for t in ts}
            if dims == {2, 3}:
                keep = [i for i in keep if A.DIM[content["cells"][i][0]] == 3]
            out = "quad" if dims == {2} else "hexahedron"
        c = dict(content)
        c["cells"] = [(out, np.concatenate([content["cells"][i][1][:, perm[content["cells"][i][0]]] for i in keep]))]

        def flat(data):
            o = {}
            for k, v in data.items():
                k2 = k.replace(" ", "_")
                if v.ndim == 1:
                    o[k2] = v
                else:
                    for j in range(v.shape[1]):
                        o[f"{k2}_{j}"] = v[:, j]
            return o

        c["point_data"] = flat(content["point_data"])
        c["cell_data"] = {k: [v] for k, v in flat(
            {k: np.concatenate([v[i] for i in keep]) for k, v in content["cell_data"].items()}).items()}
        return c

    def tolerances(self, case):
        d = A.full(case)
        f4 = any("f4" in s for s in d["pd"] + d["cd"])
        return dict(tol=1.3e-7 if d["pt"] == "f4" else 0.0, data_tol=1.3e-7 if f4 else 0.0)


class FLAC3D(Profile):
    name = "flac3d"
    ext = ".f3grid"
    file_format = "flac3d"
    opts = {"asc": dict(binary=False), "bin": dict(binary=True), "9": dict(float_fmt=".9e")}
    types = ["tetra", "triangle", "quad", "pyramid", "wedge", "hexahedron"]
    core = ["tetra", "triangle", "hexahedron", "quad"]
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    cts = CT
    parts = ("points", "cells", "cell_sets")
    css = [None, {"a": [[0]]}, {"a b": [[0, 1]], "c": [[1]]},
           {"a": [[0], [1], [0, 2]], "rest": [[1], [], None]}, {"n": [None, [0], [1]], "m": [[0], None, None]},
           {"p": [[1], [0]]}, {"é": [[1], None], "q": [[], [1, 0]]}]
    bb = [[["tetra", 2]], [["tetra", 3], ["hexahedron", 2], ["tetra", 3]], [["triangle", 2], ["tetra", 3], ["quad", 3]], [["hexahedron", 2], ["quad", 2]],
          [["quad", 2], ["wedge", 2]]]
    bound = {"quick": 4, "thorough": 5}
    big = [dict(b=[["tetra", 300], ["hexahedron", 170], ["triangle", 45]], np=700, cs={"a": [list(range(30)), list(range(160)), list(range(45))]})]
    FIRST4 = {"tetra": [0, 1, 2, 3], "pyramid": [0, 1, 3, 4], "wedge": [0, 1, 3, 2], "hexahedron": [0, 1, 3, 4]}
    # a cell that is turned inside out comes back mirrored, that is with outward normals
    FLIP = {"tetra": [0, 2, 1, 3], "pyramid": [0, 3, 2, 1, 4], "wedge": [0, 2, 1, 3, 5, 4], "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5]}

    def admissible(self, a):
        return not (a["o"] == "9" and A.full(a)["pv"] == "tricky") and Profile.admissible(self, a)

    def orient(self, pts, t, c):
        if A.DIM[t] == 2 or len(c) == 0:
            return c
        with np.errstate(all="ignore"):
            x = pts[c[:, self.FIRST4[t]].astype(int)]
            a, b, d = x[:, 1] - x[:, 0], x[:, 2] - x[:, 0], x[:, 3] - x[:, 0]
            c0 = b[:, 1] * d[:, 2] - b[:, 2] * d[:, 1]
            c1 = b[:, 2] * d[:, 0] - b[:, 0] * d[:, 2]
            c2 = b[:, 0] * d[:, 1] - b[:, 1] * d[:, 0]
            det = a[:, 0] * c0 + a[:, 1] * c1 + a[:, 2] * c2
        return np.where((det > 0)[:, None], c, c[:, self.FLIP[t]])

    def expected(self, content, case):
        c = dict(content)
        c["cells"] = [(t, self.orient(content["points"], t, x)) for t, x in content["cells"]]
        slot = "Default" if case["o"] == "bin" else "1"
        cs = {}
        for k, v in content["cell_sets"].items():
            for flag, dim in (("zone", 3), ("face", 2)):
                part = [x if x is not None and A.DIM[t] == dim else np.array([], dtype=int) for x, (t, _) in zip(v, content["cells"])]
                if any(len(x) for x in part):
                    cs[f"{flag}:{k}:{slot}"] = part
        c["cell_sets"] = cs
        return runs(c, lambda t: A.DIM[t])

    def tolerances(self, case):
        return dict(tol=1e-9 if case["o"] == "9" else 0.0)


PROFILES = [Medit(), Netgen(), TetGen(), UGRID(), AVSUCD(), Dolfin(), SU2(), Tecplot(), FLAC3D()]
