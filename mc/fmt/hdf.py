"""MED, CGNS, H5M, HMF (HDF5) and Exodus (netCDF)."""

import numpy as np

from .. import alphabet as A
from .base import Profile, pad3, seqs

PV = ["plain", "tricky", "third", "small", "large", "ints"]


def by_name(content, names):
    """Files that keep one HDF5 group per type list them by name."""
    order = sorted(range(len(content["cells"])), key=lambda i: names[content["cells"][i][0]])
    return A.regroup(content, [[i] for i in order])


class MED(Profile):
    name = "med"
    ext = ".med"
    file_format = "med"
    MED = {"vertex": "PO1", "line": "SE2", "line3": "SE3", "triangle": "TR3", "triangle6": "TR6", "quad": "QU4",
           "quad8": "QU8", "tetra": "TE4", "tetra10": "T10", "hexahedron": "HE8", "hexahedron20": "H20",
           "pyramid": "PY5", "pyramid13": "P13", "wedge": "PE6", "wedge15": "P15"}
    types = list(MED)
    core = ["line", "triangle", "quad8", "tetra", "hexahedron20"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    tol = "bits"
    dtypes = True
    cts = ["i8", "i4", "u8"]
    pds = [["f8", "v=f8:3", "point_tags=i8"], [], ["f8:6"], ["f8!tricky"], ["i8"], ["f4"], ["f8!nan"], ["v=f8:2", "a=f8", "z=f8:9"],
           ["same=f8:3"]]
    cds = [["f8", "w=f8:3", "cell_tags=i8"], [], ["f8:6"], ["f8!tricky"], ["i8"], ["f4"], ["f8:2", "A=f8"], ["same=f8"], ["f8:3x2!elno"]]
    parts = ("points", "cells", "point_data", "cell_data")
    base = dict(pd=pds[0], cd=cds[0])
    bb = [[["triangle", 2]], [["tetra", 1], ["triangle", 3], ["line", 2]], [["quad8", 3], ["hexahedron20", 2]]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 500], ["hexahedron20", 170], ["line", 1]], np=70000, pd=["f8:3"], cd=["f8:3", "cell_tags=i8"])]
    TAGS = [None, {1: ["left"]}, {-4: ["left", "right"], 0: ["x"], 7: ["a" * 80]}]

    def admissible(self, a):
        ts = [t for t, _ in A.full(a)["b"]]
        if "vertex" in ts and any(s.endswith("!elno") for s in A.full(a)["cd"]):
            return False  # (one node: ELNO and plain data are the same)
        return len(ts) == len(set(ts)) and Profile.admissible(self, a)

    def content(self, case):
        d = A.full(case)
        elno = [s for s in d["cd"] if s.endswith("!elno")]
        if not elno:
            return A.build(case)
        # values per node of the cell (ELNO)
        c = A.build(dict(case, cd=[s for s in d["cd"] if s not in elno]))
        c["cell_data"]["elno"] = [
            A.data_array(len(x), f"f8:{x.shape[1]}x2", i) for i, (_, x) in enumerate(c["cells"])]
        return c

    def tags(self, case):
        k = len(A.full(case)["b"]) + len(A.full(case)["pd"]) + (A.full(case)["pv"] != "plain")
        return self.TAGS[k % 3], self.TAGS[(k + 1) % 3]

    def write(self, meshio, path, mesh, case):
        pt, ct = self.tags(case)
        if pt:
            mesh.point_tags = pt
        if ct:
            mesh.cell_tags = ct
        meshio.write(path, mesh, "med")

    def expected(self, content, case):
        c = by_name(content, self.MED)
        # data with a single component come back as scalars
        return c

    def roundtrip(self, meshio, case, ctx):
        self._back = None
        Profile.roundtrip(self, meshio, case, ctx)
        pt, ct = self.tags(case)
        for what, e, g in (("point", pt, self._back.point_tags), ("cell", ct, self._back.cell_tags)):
            g = {int(k): list(v) for k, v in g.items()}
            if g != (e or {}):
                ctx.fail("family", f"{what} families {g}, expected {e}")

    def read(self, meshio, path, case=None):
        self._back = meshio.read(path)
        return self._back


class CGNS(Profile):
    name = "cgns"
    ext = ".cgns"
    file_format = "cgns"
    opts = {"": {}, "lzf": dict(compression="lzf", compression_opts=None), "none": dict(compression=None, compression_opts=None),
            "gz9": dict(compression_opts=9)}
    types = ["tetra"]
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40, 300]
    tol = "bits"
    dtypes = True
    parts = ("points", "cells")
    cts = ["i8", "i4", "u8", "u4"]
    bb = [[["tetra", 2]], [["tetra", 1]], [["tetra", 7]]]
    bound = {"quick": 6, "thorough": 6}
    big = [dict(b=[["tetra", 30000]], np=70000)]

    def admissible(self, a):
        return len(A.full(a)["b"]) == 1 and Profile.admissible(self, a)

    def blocks(self):
        return [[["tetra", m]] for m in (1, 2, 3, 4, 5, 17)]


class H5M(Profile):
    name = "h5m"
    ext = ".h5m"
    file_format = "h5m"
    opts = {"": {}, "noid": dict(add_global_ids=False), "none": dict(compression=None, compression_opts=None),
            "lzf": dict(compression="lzf", compression_opts=None)}
    H5M = {"line": "Edge2", "triangle": "Tri3", "tetra": "Tet4"}
    types = list(H5M)
    core = types
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    tol = "bits"
    dtypes = True
    cts = ["i8", "i4", "u8", "u4"]
    pds = [["f8", "v=f8:3", "i=i4"], [], ["f4:2"], ["f8!tricky"], ["u8!tricky"], ["i1"], ["f8!nan"], ["GLOBAL_ID=i8"]]
    parts = ("points", "cells", "point_data")
    base = dict(pd=pds[0])
    bb = [[["triangle", 2]], [["tetra", 1], ["triangle", 3], ["line", 2]], [["line", 2], ["tetra", 3]]]
    bound = {"quick": 4, "thorough": 5}
    big = [dict(b=[["triangle", 5000], ["tetra", 170]], np=70000, pd=["f8:3"])]

    def admissible(self, a):
        ts = [t for t, _ in A.full(a)["b"]]
        if "vertex" in ts and any(s.endswith("!elno") for s in A.full(a)["cd"]):
            return False  # (one node: ELNO and plain data are the same)
        return len(ts) == len(set(ts)) and Profile.admissible(self, a)

    def expected(self, content, case):
        c = by_name(content, self.H5M)
        if case["o"] != "noid":
            pd = dict(c["point_data"])
            pd.setdefault("GLOBAL_ID", np.arange(1, len(c["points"]) + 1))
            c["point_data"] = pd
        return c


class HMF(Profile):
    name = "hmf"
    ext = ".hmf"
    file_format = "hmf"
    opts = {"": {}, "none": dict(compression=None, compression_opts=None), "lzf": dict(compression="lzf", compression_opts=None)}
    types = ["triangle", "vertex", "line", "line3", "quad", "quad8", "quad9", "triangle6", "tetra", "tetra10", "pyramid",
             "pyramid13", "wedge", "wedge15", "wedge18", "hexahedron", "hexahedron20", "hexahedron24", "hexahedron27",
             "hexahedron64", "hexahedron125", "hexahedron216", "hexahedron343", "hexahedron512", "hexahedron729", "hexahedron1000"]
    core = ["triangle", "line", "quad", "tetra10"]
    dims = (3, 2, 1)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    tol = "bits"
    dtypes = True
    cts = ["i8", "i4", "u8", "u4"]
    pds = [["f8", "v=f8:3", "i=i4"], [], ["f4:2"], ["f8!tricky"], ["u8!tricky"], ["i1"], ["f8!nan"], ["f8:3x3"]]
    cds = pds
    base = dict(pd=pds[0], cd=pds[0])
    bb = [[["triangle", 2]], [["triangle", 1], ["quad", 3], ["triangle", 2]], [["line", 2], ["tetra", 3]],
          [["triangle", 1 + i % 3] if i % 2 else ["quad", 1 + i % 2] for i in range(13)]]
    bound = {"quick": 3, "thorough": 4}
    big = [dict(b=[["triangle", 5000], ["tetra", 170], ["triangle", 3]], np=70000, pd=["f8:3"], cd=["f8"])]


class Exodus(Profile):
    name = "exodus"
    ext = ".e"
    file_format = "exodus"
    types = ["triangle", "vertex", "line", "line3", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10",
             "hexahedron", "hexahedron20", "hexahedron27", "pyramid", "wedge"]
    core = ["triangle", "line", "quad8", "tetra"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    pvs = PV
    npts = [None, 40]
    tol = "bits"
    dtypes = True
    cts = ["i8", "i4", "u8", "u4"]
    parts = ("points", "cells", "point_data", "point_sets")
    pds = [["f8", "v=f8:3", "i=i4"], [], ["f4:2"], ["f8!tricky"], ["u8!tricky"], ["i1", "u1", "i2", "u2"], ["f8!nan"],
           ["f8"] * 12, ["n" * 33 + "=f8"], ["a b=f8", "u_R=f8", "aX=f8"]]
    pss = [{"left": [0, 2], "r": [1]}, None, {"z": [3, 1, 0], "a": [2], "m": [0, 1, 2, 3]}, {"s%d" % i: [i % 3, 3] for i in range(12)}]
    base = dict(pd=pds[0], ps=pss[0])
    bb = [[["triangle", 2]], [["triangle", 1], ["quad", 3], ["triangle", 2]], [["line", 2], ["tetra", 3]],
          [["triangle", 1 + i % 3] if i % 2 else ["quad", 1 + i % 2] for i in range(13)]]
    bound = {"quick": 2, "thorough": 3}
    big = [dict(b=[["triangle", 5000], ["tetra", 170], ["triangle", 3]], np=70000, pd=["f8:3"])]

    def admissible(self, a):
        d = A.full(a)
        if d["ps"] and A.npoints(a) < 4:
            return False
        return Profile.admissible(self, a)


PROFILES = [MED(), CGNS(), H5M(), HMF(), Exodus()]
