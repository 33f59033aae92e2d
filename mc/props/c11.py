"""The mesh passed to a writer stays what it was."""
import copy
import os

import numpy as np

from .. import alphabet as A
from ..fmt import decks, gmsh, hdf, misc, surface, vtk, xdmf
from ..fmt.base import Profile

PROP = "C11"
LEVEL = "model_checking"
RULE = (
    "every format and writer option x (a) every case of the format's own space (all block sequences, every single deviation), and (b) every combination of up to two deviations "
    "over content the format may or may not carry (dimension, data of every shape and type, sets, field data, blocks of any type, memory layouts, failing writes "
    "into a missing directory); bytewise snapshot of the mesh, its containers and its arrays before and after"
)
MIN_CASES = 50000
PROFS = [p for m in (vtk, gmsh, xdmf, surface, decks, hdf, misc) for p in m.PROFILES]


class SVG(Profile):
    name = "svg"
    file_format = "svg"
    ext = ".svg"
    types = ["triangle", "quad", "line"]
    dims = (2,)
    opts = {"": {}, "w": {"image_width": None}}


PROFS.append(SVG())
TAB = {}
for _p in PROFS:
    _q = copy.copy(_p)
    _q.bound = {"quick": 1, "thorough": 2}
    _q.big = []
    TAB[_p.name] = _q

AXES = dict(
    b=[[["triangle", 2]], [["tetra", 2], ["triangle", 1]], [["quad", 1], ["triangle", 2], ["quad", 2]], [["line", 2], ["tetra", 1], ["vertex", 1]],
       [["hexahedron", 1]], [["wedge15", 1]], [["polygon:5", 2]], [["triangle", 1], ["triangle", 2]], [["tetra10", 2]], [["quad8", 1], ["hexahedron20", 1]], []],
    d=[3, 2],
    pd=[[], ["f8", "v=f8:2"], ["v=f8:3", "i=i4"], ["m=f8:3x3"], ["gmsh:dim_tags=i8:2!tags"], ["medit:ref=i8!tags"], ["point_tags=i8!tags"], ["b=f4", "a b=f8"]],
    cd=[[], ["f8", "v=f8:2"], ["v=f8:3", "i=i4!tags"], ["m=f8:3x3"], ["gmsh:physical=i4!tags", "gmsh:geometrical=i4!tags"], ["medit:ref=i8!tags"],
        ["cell_tags=i8!tags"], ["avsucd:material=i8!tags", "f8"], ["nastran:ref=i8!tags"]],
    s=[0, 1, 2, 3],
    fd=[None, {"left": [1, 2], "vol": [2, 3]}],
    lay=["C", "F", "ro", "BE", "rev"],
    ct=["i8", "i4", "u8"],
    fail=[0, 1],
)


def cases(tier):
    from ..core import deviations
    only = os.environ.get("MC_ONLY")
    if not only or "ts" in only.split(","):
        yield from ts_cases()
    for n, p in TAB.items():
        if only and n not in only.split(","):
            continue
        for c in p.cases("quick" if tier == "quick" else "thorough"):
            c["k"] = "own"
            yield c
        for a in deviations(AXES, 2 if tier == "quick" else 3, full=()):
            for o in p.opts:
                a2 = {k: v for k, v in a.items() if v != AXES[k][0] or k == "b"}
                yield dict(a2, f=n, o=o, k="any")


def ts_cases():
    """the time series writer: containers of the cells x data format x blocks x shapes and containers of the data"""
    B = [[["triangle", 2]], [["triangle", 2], ["quad", 2]], [["line", 2], ["triangle", 1]], [["vertex", 1], ["line", 1], ["tetra", 1]],
         [["triangle", 1], ["line", 2]], [["line", 1]], [["hexahedron", 1], ["vertex", 2]]]
    for fmt in ("XML", "HDF", "Binary"):
        for b in B:
            for cont in ("tuples", "blocks", "dict", "mesh", "pairs"):
                for dat in ("none", "list", "dict", "vec", "BE", "F"):
                    for dim in (3, 2):
                        yield dict(f="ts", k="ts", o=fmt, b=b, cont=cont, dat=dat, d=dim)


def run_ts(case, ctx):
    import meshio

    c = A.build(dict(b=case["b"], d=case["d"]))
    pts = np.array(c["points"])
    cells = [(t, np.array(x)) for t, x in c["cells"]]
    n, nc = len(pts), [len(x) for _, x in cells]
    arg = {"tuples": list, "pairs": tuple, "dict": dict, "blocks": lambda q: [meshio.CellBlock(t, x) for t, x in q],
           "mesh": lambda q: meshio.Mesh(pts, q).cells}[case["cont"]](cells)
    dat = case["dat"]
    shape = lambda k: (k, 2) if dat == "vec" else (k, 3)
    mk = lambda k, o: (np.arange(np.prod(shape(k)), dtype=float) + o).reshape(shape(k))
    if dat == "BE":
        mk = lambda k, o: np.arange(k).astype(">f8") + o
    if dat == "F":
        mk = lambda k, o: np.asfortranarray((np.arange(3.0 * k) + o).reshape(k, 3))
    pd = {} if dat == "none" else {"a": mk(n, 1), "b": mk(n, 9)}
    cd = {} if dat == "none" else {"c": [mk(k, 5) for k in nc], "d": [mk(k, 7) for k in nc]}
    if dat == "dict":
        cd = {k: {f"t{i}": x for i, x in enumerate(v)} for k, v in cd.items()}

    def look(x):
        if isinstance(x, dict):
            return ["dict", [[k, look(v)] for k, v in x.items()]]
        if isinstance(x, (list, tuple)):
            return [type(x).__name__, [look(v) for v in x]]
        if isinstance(x, np.ndarray):
            return [x.dtype.str, x.shape, x.strides, x.tobytes(), id(x)]
        if hasattr(x, "type"):
            return [type(x).__name__, x.type, look(x.data), id(x)]
        return repr(x)

    before = look([pts, arg, pd, cd])
    path = os.path.join(ctx.dir, "s.xdmf")
    ctx.step()
    try:
        with meshio.xdmf.TimeSeriesWriter(path, data_format=case["o"]) as w:
            w.write_points_cells(pts, arg)
            w.write_data(0.0, point_data=pd, cell_data=cd)
            w.write_data(1.0, point_data=pd, cell_data=cd)
        out = "written"
    except Exception as e:
        out = "raised"
    after = look([pts, arg, pd, cd])
    for nm, x, y in zip(("points", "cells", "point_data", "cell_data"), before[1], after[1]):
        if x != y:
            ctx.fail("changed", f"the {nm} handed to the time series writer were {str(x)[:300]}, are {str(y)[:300]} ({out})")
    ctx.trace()
    ctx.outcome(f"ts:{out}")
    ctx.state("ts" + repr(sorted(case.items())))


def run(case, ctx):
    import meshio

    if case["k"] == "ts":
        return run_ts(case, ctx)
    p = TAB[case["f"]]
    path = p.path(ctx.dir)
    if case["k"] == "own":
        mesh = p.mesh(meshio, p.content(case), case)
    else:
        d = {k: v for k, v in case.items() if k in A.DEFAULTS}
        c = A.build(d)
        s = case.get("s", 0)
        if s:
            c["point_sets"] = {"fix": np.array([0, 2]), "lo": np.array([1])} if s == 1 else {"one set": np.array([0])} if s == 2 else {}
            if s != 2:
                c["cell_sets"] = {"g0": [np.arange(0, len(x), 2) for _, x in c["cells"]], "g1": [np.arange(1, len(x), 2) for _, x in c["cells"]]}
            else:
                c["cell_sets"] = {"a-b": [np.arange(len(x)) if i == 0 else None for i, (_, x) in enumerate(c["cells"])]}
            if s == 3:
                c["cell_sets"]["zone:x:y"] = [np.arange(len(x)) for _, x in c["cells"]]
        mesh = A.to_mesh(meshio, c, case.get("lay", "C"))
        mesh.info = {"x": 1}
        if case.get("fail"):
            path = os.path.join(ctx.dir, "no", "such", os.path.basename(path))
    before = snap(mesh, case)
    ids = idents(mesh)
    ctx.step()
    try:
        p.write(meshio, path, mesh, case)
        out = "written"
    except Exception as e:
        out = "raised"
    if idents(mesh) != ids:
        ctx.fail("replaced", "arrays or containers of the mesh were replaced")
    after = snap(mesh, case)
    if after != before:
        for k in before:
            if before[k] != after[k]:
                ctx.fail("changed", f"{k} was {str(before[k])[:300]}, is {str(after[k])[:300]} ({out})")
    ctx.trace()
    ctx.outcome(f"{case['f']}:{out}")
    ctx.state(A.__name__ + repr(sorted((k, v) for k, v in case.items() if k != "k")))


def snap(mesh, case):
    if case["f"] == "vtk":
        # (the one documented exception: two-component vectors get a third component in place, with a warning;
        # the tests of the repository rely on it)
        mesh = copy.copy(mesh)
        pad = lambda v: np.pad(v, ((0, 0), (0, 1))) if v.ndim == 2 and v.shape[1] == 2 else v
        mesh.point_data = {k: pad(v) for k, v in mesh.point_data.items()}
        mesh.cell_data = {k: [pad(x) for x in v] for k, v in mesh.cell_data.items()}
    return A.snapshot(mesh)


def idents(m):
    """kinds of the containers (a writer may rebind equal objects, but not their types)"""
    return [type(m.points).__name__, type(m.cells).__name__, [type(c).__name__ for c in m.cells], type(m.point_data).__name__,
            [type(v).__name__ for v in m.point_data.values()], [[type(x).__name__ for x in v] for v in m.cell_data.values()],
            type(m.point_sets).__name__, type(m.cell_sets).__name__]
