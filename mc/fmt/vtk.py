import numpy as np

from .. import alphabet as A
from .base import Profile, pad3, seqs

VTK_TYPES = [
    "triangle", "vertex", "line", "quad", "tetra", "hexahedron", "wedge", "pyramid",
    "line3", "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "wedge15",
    "pyramid13", "hexahedron27", "wedge18", "hexahedron24", "line4",
]
POLY = ["polygon:3", "polygon:5", "polygon:4"]
LAGR = ["VTK_LAGRANGE_TRIANGLE:6", "VTK_LAGRANGE_TRIANGLE:10", "VTK_LAGRANGE_CURVE:4",
        "VTK_LAGRANGE_QUADRILATERAL:9", "VTK_LAGRANGE_TETRAHEDRON:10",
        "VTK_LAGRANGE_HEXAHEDRON:27", "VTK_LAGRANGE_WEDGE:18", "VTK_LAGRANGE_PYRAMID:14"]
DT = ["f8", "f4", "i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1"]


def merge_runs(content):
    """Cells are one flat list in the file: consecutive blocks of one type (and one
    number of nodes) come back as one block."""
    cells = content["cells"]
    groups = []
    for i, (t, c) in enumerate(cells):
        if groups and cells[groups[-1][-1]][0] == t and (
                cells[groups[-1][-1]][1].shape[1] == c.shape[1]):
            groups[-1].append(i)
        else:
            groups.append([i])
    return A.regroup(content, groups)


def pad_vec(a):
    if a.ndim == 2 and a.shape[1] == 2:
        return np.column_stack([a, np.zeros(len(a), dtype=a.dtype)])
    return a


class VTK(Profile):
    name = "vtk"
    ext = ".vtk"
    opts = {
        "vtk-bin": ("vtk", dict(binary=True)),
        "vtk-asc": ("vtk", dict(binary=False)),
        "vtk42-bin": ("vtk42", dict(binary=True)),
        "vtk42-asc": ("vtk42", dict(binary=False)),
        "vtk51-bin": ("vtk51", dict(binary=True)),
        "vtk51-asc": ("vtk51", dict(binary=False)),
    }
    types = VTK_TYPES + POLY
    core = ["triangle", "quad", "wedge", "polygon:5", "polygon:4"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    npts = [None, 30]
    dtypes = True
    tol = "bits"
    extra = 2
    pds = [[], ["f8"], ["f8:3"], ["f8:2"], ["f8:9"], ["f8:4"], ["i4"], ["f8", "f8:3", "i8"]] + [
        [d] for d in DT if d not in ("f8", "i4")] + [["f8!tricky"], ["f8!nan"], ["i8!tricky"],
        ["u8!tricky"], ["f4!tricky", "name_with_underscore=i4:3"], ["a=f8", "b=i4", "c=f4:3", "d=u1"]]
    cds = pds
    base = dict(pd=["f8", "f8:3", "i4"], cd=["f8", "i4:3", "u1"])
    bb = [[["triangle", 2]], [["triangle", 2], ["quad", 1], ["triangle", 1]],
          [["polygon:4", 1], ["polygon:5", 2]], [["wedge", 2], ["hexahedron27", 1]]]
    big = [
        dict(b=[["triangle", 3]], np=70000, extra=0, pd=["f8"], cd=["i8"]),
        dict(b=[["line", 40000], ["triangle", 33000]], np=70001, cd=["f8:3"]),
    ]

    def blocks(self):
        return seqs(self.types, self.core) + [[["polygon:300", 2]], [["polygon:256", 1], ["polygon:257", 2]]] + [[[t, 2]] for t in LAGR] + [
            [[a, 1], [b, 2]] for a in LAGR[:3] + ["triangle"] for b in LAGR[:3]]

    def huge(self):  # 70000 cells: see big
        return [[["triangle", 3]]]

    def admissible(self, a):
        # VTK_LAGRANGE is only in the 5.1 layout
        if a["o"].startswith(("vtk42", "vtk51")) and any(
                t.startswith("VTK_") for t, _ in a.get("b", [])):
            return False
        return Profile.admissible(self, a)

    def write(self, meshio, path, mesh, case):
        f, kw = self.opts[case["o"]]
        meshio.write(path, mesh, f, **kw)

    def expected(self, content, case):
        c = merge_runs(content)
        c["points"] = pad3(c["points"])
        c["point_data"] = {k: pad_vec(v) for k, v in c["point_data"].items()}
        c["cell_data"] = {k: [pad_vec(x) for x in v] for k, v in c["cell_data"].items()}
        return c


class VTU(Profile):
    name = "vtu"
    ext = ".vtu"
    file_format = "vtu"
    opts = {
        "bin-zlib": dict(binary=True, compression="zlib"),
        "bin-lzma": dict(binary=True, compression="lzma"),
        "bin-raw": dict(binary=True, compression=None),
        "ascii": dict(binary=False),
        "bin-zlib-u64": dict(binary=True, compression="zlib", header_type="UInt64"),
        "bin-raw-u64": dict(binary=True, compression=None, header_type="UInt64"),
        "bin-lzma-u64": dict(binary=True, compression="lzma", header_type="UInt64"),
        "bin-zlib-u32": dict(binary=True, compression="zlib", header_type="UInt32"),
    }
    types = VTK_TYPES + POLY
    core = VTK.core
    dims = (3, 2)
    pts = ["f8", "f4"]
    npts = [None, 30]
    dtypes = True
    pds = VTK.pds
    cds = VTK.cds
    base, bb = VTK.base, VTK.bb
    # 32768-byte compression blocks: 4096 doubles / 8192 floats
    big = [
        dict(b=[["triangle", 3]], np=n, pd=["f8"]) for n in (4095, 4096, 4097, 8192, 8193)
    ] + [
        dict(b=[["line", m], ["triangle", 5]], np=100, cd=["f8", "i4", "u1"])
        for m in (4090, 4091, 4092, 2048, 8187, 32763)
    ] + [dict(b=[["triangle", 33000]], np=70000, cd=["f8:3"])]

    blocks = VTK.blocks
    huge = VTK.huge

    def expected(self, content, case):
        c = merge_runs(content)
        c["points"] = pad3(c["points"])
        return c

    def tolerances(self, case):
        if case["o"] == "ascii":
            return dict(tol=1e-11, data_tol=1e-11, dtypes=True)
        return dict(tol="bits", data_tol="bits", dtypes=True)


SOLIDS = {
    4: [[0, 1, 2], [0, 1, 3], [1, 2, 3], [0, 2, 3]],
    5: [[0, 1, 2, 3], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
    6: [[0, 1, 2], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]],
    8: [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]],
    10: [[0, 1, 2, 3, 4], [5, 6, 7, 8, 9]] + [[i, (i + 1) % 5, 5 + (i + 1) % 5, 5 + i] for i in range(5)],
}


class VTUPoly(VTU):
    """polyhedra: a cell is a list of faces; the blocks of a file are the cells of one number of nodes each, in the order in which they appear"""

    name = "vtu-poly"
    dims = (3, 2)

    def cases(self, tier):
        import itertools

        one = [[4], [5], [6], [8], [10], [4, 4], [8, 4], [4, 6, 4]]
        seq = [[x] for x in one] + [list(x) for x in itertools.product(one, repeat=2)] + [list(x) for x in itertools.product(one[:4] if tier == "quick" else one, repeat=3)]
        dev = [dict(cd=[]), dict(pd=[]), dict(pd=[], cd=[]), dict(cd=["i4:3"]), dict(cd=["u1", "f4"]), dict(pt="f4"), dict(d=2), dict(np=40), dict(lay="rev")]
        for b in seq:
            for o in self.opts:
                for a in [{}] + (dev if len(b) < 3 else []):
                    yield dict(a, f=self.name, o=o, s=b)
        for o in self.opts:
            for n in (63, 64, 128, 700):
                yield dict(f=self.name, o=o, s=[[4] * n, [6], [8] * 3])

    def content(self, case):
        d = dict({k: v for k, v in case.items() if k != "s"})
        d = dict(dict(pd=["f8"], cd=["f8", "i4"], np=24), **d)
        c = A.build(dict(d, b=[["vertex", len(x)] for x in case["s"]]))
        n = len(c["points"])
        k = 0
        cells = []
        for x in case["s"]:
            block = []
            for v in x:
                # a different start for every cell, faces turned by a different amount
                block.append([[(i * (5 if n % 5 else 7) + 3 * k) % n for i in fc[k % len(fc):] + fc[:k % len(fc)]] for fc in SOLIDS[v]])
                k += 1
            cells.append((f"polyhedron{x[0]}" if len(set(x)) == 1 else "polyhedron", block))
        c["cells"] = cells
        return c

    def mesh(self, meshio, content, case):
        c = dict(content, cells=[("vertex", np.zeros((len(x), 1), dtype=int)) for _, x in content["cells"]])
        m = A.to_mesh(meshio, c, A.full(case)["lay"])
        cells = [(t, [[np.array(fc) for fc in cell] for cell in x]) for t, x in content["cells"]]
        return meshio.Mesh(m.points, cells, point_data=m.point_data, cell_data=m.cell_data)

    def expected(self, content, case):
        c = dict(content, points=pad3(content["points"]))
        flat = [cell for _, x in content["cells"] for cell in x]
        groups = {}
        for i, cell in enumerate(flat):
            groups.setdefault(len({v for fc in cell for v in fc}), []).append(i)
        c["cells"] = [(f"polyhedron{k}", [flat[i] for i in g]) for k, g in groups.items()]
        c["cell_data"] = {n: [np.concatenate(v)[g] for g in groups.values()] for n, v in content["cell_data"].items()}
        return c


PROFILES = [VTK(), VTU()]
POLYHEDRA = [VTUPoly()]
