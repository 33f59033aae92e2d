"""XDMF 3, single mesh, the three data formats."""
from .. import alphabet as A
from .base import Profile, seqs
from .vtk import DT, merge_runs

TYPES = ["triangle", "vertex", "line", "quad", "tetra", "pyramid", "wedge", "hexahedron",
         "line3", "quad8", "quad9", "triangle6", "tetra10", "pyramid13", "wedge15",
         "wedge18", "hexahedron20", "hexahedron24", "hexahedron27"]
HIGH = ["hexahedron64", "hexahedron125", "hexahedron216", "hexahedron343",
        "hexahedron512", "hexahedron729", "hexahedron1000"]
PDS = [[], ["f8"], ["f8:3"], ["f8:2"], ["f8:9"], ["f8:6"], ["f8:1"], ["f8:3x3"], ["f8:2x4"], ["i4"],
       ["f8", "f8:3", "i8"]] + [
    [d] for d in DT if d not in ("f8", "i4")] + [
    ["f8!tricky"], ["f8!nan"], ["i8!tricky"], ["u8!tricky"], ["u4!tricky"], ["i1!tricky"], ["u2!tricky"],
    ["f4!tricky"], ["f8:3!tricky"], ["a b=f8", "x<y&z=i4"], ["a=f8", "b=i4", "c=f4:3", "d=u1"]]


class XDMF(Profile):
    name = "xdmf"
    ext = ".xdmf"
    file_format = "xdmf"
    opts = {
        "HDF": {}, "HDF-raw": dict(compression=None), "HDF-9": dict(compression_opts=9),
        "HDF-lzf": dict(compression="lzf", compression_opts=None),
        "XML": dict(data_format="XML"), "Binary": dict(data_format="Binary"),
    }
    types = TYPES
    core = ["triangle", "line", "vertex", "quad", "quad9"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    npts = [None, 40]
    cts = ["i8", "i4", "u8", "u4"]
    dtypes = True
    pds = PDS
    cds = PDS
    base = dict(pd=["f8", "f8:3", "i4"], cd=["f8", "i4:3", "u1"])
    bb = [[["triangle", 2]], [["triangle", 2], ["line", 3], ["vertex", 1]]]
    big = [
        dict(b=[["triangle", 3]], np=70000, pd=["f8"], cd=["i8"]),
        dict(b=[["line", 4000], ["triangle", 33000]], np=70001, cd=["f8:3"], pd=["i4"]),
    ]

    def blocks(self):
        return seqs(self.types, self.core) + [[[t, 1]] for t in HIGH] + [
            [["hexahedron64", 1], ["quad", 2]], [["tetra", 1], ["hexahedron125", 1]]]

    def expected(self, content, case):
        return merge_runs(content)

    def tolerances(self, case):
        if case["o"] == "XML":
            if A.full(case)["pt"] == "f4" or any(
                    "f4" in s for s in A.full(case)["pd"] + A.full(case)["cd"]):
                return dict(tol=1.3e-7, data_tol=1.3e-7, dtypes=True)
            return dict(tol=0.0, data_tol=0.0, dtypes=True)
        return dict(tol="bits", data_tol="bits", dtypes=True)


PROFILES = [XDMF()]
