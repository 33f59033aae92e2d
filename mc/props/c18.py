"""Conversion between formats: what both formats carry arrives."""
import itertools
import os

import numpy as np

from .. import alphabet as A
from ..fmt import decks, gmsh, hdf, misc, surface, vtk, xdmf

PROP = "C18"
LEVEL = "model_checking"
RULE = (
    "every ordered pair of formats (MSH 2.2 and 4.1 apart): every cell type both take alone with and without data, and every ordered pair of the first types both take; "
    "every chain of three formats that take triangles or wedges (thorough: any cell type); point and cell data, scalar and vector; the mesh read at the end of the chain against the mesh at its start"
)
MIN_CASES = 20000
PROFS = {p.name: p for m in (vtk, gmsh, xdmf, surface, decks, hdf, misc) for p in m.PROFILES}
OPT = {n: next(iter(p.opts)) for n, p in PROFS.items()}
OPT["nastran"] = ""
NODES = {n: (n, OPT[n]) for n in PROFS if n != "gmsh"}
NODES["gmsh22"] = ("gmsh", "22-bin")
NODES["gmsh41"] = ("gmsh", "41-bin")
NODES["vtk42"] = ("vtk", "vtk42-bin")
MULTI = {"vtk", "vtk42", "vtu", "gmsh22", "xdmf", "abaqus", "nastran", "permas", "mdpa", "med", "h5m", "hmf", "exodus", "medit", "netgen", "ugrid", "avsucd", "ply", "obj"}
PS = {"vtk", "vtk42", "vtu", "gmsh22", "gmsh41", "xdmf", "hmf", "med", "h5m", "exodus", "tecplot", "avsucd", "ply"}
PV = {"vtk", "vtk42", "vtu", "gmsh22", "gmsh41", "xdmf", "hmf", "med", "h5m", "exodus", "avsucd"}
CS = {"vtk", "vtk42", "vtu", "gmsh22", "gmsh41", "xdmf", "hmf", "med", "tecplot", "avsucd"}
CV = {"vtk", "vtk42", "vtu", "gmsh22", "gmsh41", "xdmf", "hmf", "med", "avsucd"}
QUICK3 = ["triangle", "wedge"]


def types(n):
    p = PROFS[NODES[n][0]]
    if n == "su2":
        return ["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"]
    if n == "flac3d":
        return ["tetra", "pyramid", "wedge", "hexahedron"]
    if n == "tecplot":
        return ["triangle", "line", "quad", "tetra", "hexahedron"]  # (the others become degenerate hexahedra)
    return [t for t in p.types if ":" not in t and t in A.NN]


def cases(tier):
    only = os.environ.get("MC_ONLY")
    names = sorted(NODES)
    for a in names:
        for b in names:
            if only and not ({a, b} & set(only.split(","))):
                continue
            common = [t for t in types(a) if t in types(b)]
            for t in common:
                for d in (3, 2):
                    if d == 2 and A.DIM[t] > 2:
                        continue
                    if d == 2 and not all(2 in PROFS[NODES[x][0]].dims for x in (a, b)):
                        continue
                    yield {"c": [a, b], "b": [[t, 3]], "d": d}
                    yield {"c": [a, b], "b": [[t, 3]], "d": d, "nd": 1}
            if a in MULTI and b in MULTI:
                for x, y in itertools.permutations(common[:5], 2):
                    yield {"c": [a, b], "b": [[x, 2], [y, 3]], "d": 3}
    long = sorted({t for n in names for t in types(n)}) if tier == "thorough" else QUICK3
    for ch in itertools.product(names, repeat=3):
        if only and not (set(ch) & set(only.split(","))):
            continue
        for t in long:
            if all(t in types(n) for n in ch):
                yield {"c": list(ch), "b": [[t, 3]], "d": 3}


def start(case):
    # every cell has its own nodes, no node lies in two cells of different blocks
    c = A.build(dict(b=case["b"], d=case["d"], pd=["ps=f8", "pv=f8:3"], cd=["cs=f8", "cv=f8:3"]))
    return c


def run(case, ctx):
    import meshio

    c0 = start(case)
    pd = {k for k, s in (("ps", PS), ("pv", PV)) if all(n in s for n in case["c"])}
    cd = {k for k, s in (("cs", CS), ("cv", CV)) if all(n in s for n in case["c"])}
    c = dict(c0)
    first = case["c"][0]
    c["point_data"] = {k: v for k, v in c0["point_data"].items() if first in (PS if k == "ps" else PV)}
    c["cell_data"] = {k: v for k, v in c0["cell_data"].items() if first in (CS if k == "cs" else CV)}
    if case.get("nd"):
        c["point_data"], c["cell_data"], pd, cd = {}, {}, set(), set()
    m = A.to_mesh(meshio, c, "C")
    for i, n in enumerate(case["c"]):
        f, o = NODES[n]
        p = PROFS[f]
        os.makedirs(str(i))
        path = p.path(os.path.join(ctx.dir, str(i)))
        p.write(meshio, path, m, dict(f=f, o=o))
        m = p.read(meshio, path, dict(f=f, o=o))
        ctx.step(2)
    got = A.content_of(m)
    judge(case, c0, got, pd, cd, ctx)
    ctx.trace()
    ctx.outcome("->".join(case["c"]))
    ctx.state(repr(sorted((x, str(y)) for x, y in case.items())))


def pad(x):
    x = np.asarray(x, dtype=float)
    return np.column_stack([x, np.zeros((len(x), 3 - x.shape[1]))]) if x.shape[1] < 3 else x


def per_type(c):
    """type -> (coordinates of the nodes of all cells, cell data, node indices)"""
    out = {}
    pts = pad(c["points"])
    for i, (t, x) in enumerate(c["cells"]):
        x = np.asarray(x).astype(int)
        if not len(x):
            continue
        e = out.setdefault(t, [[], {}, []])
        e[0].append(pts[x])
        e[2].append(x)
        for k, v in c["cell_data"].items():
            e[1].setdefault(k, []).append(np.asarray(v[i], dtype=float))
    return {t: (np.concatenate(a), {k: np.concatenate(v) for k, v in d.items()}, np.concatenate(x)) for t, (a, d, x) in out.items()}


def judge(case, e, g, pd, cd, ctx):
    ee, gg = per_type(e), per_type(g)
    if set(ee) != set(gg):
        ctx.fail("types", f"cell types {sorted(gg)}, expected {sorted(ee)}")
        return
    free = "flac3d" in case["c"]  # orders the nodes of a cell by orientation
    for t in ee:
        a, b = ee[t][0], gg[t][0]
        if a.shape != b.shape:
            ctx.fail("cells", f"{len(b)} {t} cells, expected {len(a)}")
            return
        if free:
            a, b = (np.array([sorted(map(tuple, np.round(c, 6).tolist())) for c in x]) for x in (a, b))
        if not np.allclose(a, b, rtol=2e-6, atol=1e-9):
            i = int(np.argmax(np.abs(a - b).reshape(len(a), -1).max(1)))
            ctx.fail("cells", f"{t} cell {i} has its nodes at {b[i].tolist()}, expected {a[i].tolist()}")
            return
        for k in cd:
            x, y = ee[t][1][k], gg[t][1].get(k)
            if y is None or x.shape != y.shape or not np.allclose(x, y, rtol=2e-6, atol=1e-9):
                ctx.fail("cell_data", f"cell data {k} of {t}: {None if y is None else y.tolist()}, expected {x.tolist()}")
        for k in pd:
            x = np.asarray(e["point_data"][k], float)[ee[t][2]]
            y = g["point_data"].get(k)
            y = None if y is None else np.asarray(y, float)[gg[t][2]]
            if y is None or x.shape != y.shape or not np.allclose(x, y, rtol=2e-6, atol=1e-9):
                ctx.fail("point_data", f"point data {k} at the nodes of {t}: {None if y is None else y.tolist()}, expected {x.tolist()}")
