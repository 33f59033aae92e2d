"""What a format cannot hold is rejected or announced, never lost silently."""
import contextlib
import io
import os
import warnings

import numpy as np

from .. import alphabet as A
from .. import core
from . import c17, c18, c21

PROP = "C19"
LEVEL = "model_checking"
RULE = (
    "every format and option x every cell type of meshio alone and after a block the format takes; x every kind of content (point, cell and field data of every type and shape, point and cell sets, 2-D points, unused points); "
    "outcomes: the write raises, or it tells the user something, or the file reads back with everything that was given"
)
MIN_CASES = 5000
PROFS = c17.PROFS
TYPES = [t for t in A.NN if A.NN[t] <= 64 and t not in ("triangle7", "wedge12")] + ["polygon:5"]
DATA = ["f8", "f8:3", "f8:2", "f8:9", "f8:3x3", "f4", "i8", "i4", "u8", "u1", "i2", "b1", "f2", "f8!nan", "i8!big", "u8!big"]
NATIVE = {"su2": "triangle", "flac3d": "tetra", "tetgen": "tetra", "cgns": "tetra", "ansys": "triangle"}
OWN = {"svg": ".svg"}


def native(n):
    p = PROFS[n]
    return NATIVE.get(n) or next(t for t in p.types if t in A.NN)


def names():
    only = os.environ.get("MC_ONLY")
    return [n for n in PROFS if not only or n in only.split(",")]


def opts(n, tier):
    o = [x for x in PROFS[n].opts if not x.startswith("40-")]
    if n == "nastran" and tier == "quick":
        o = ["", "ffree/ffree", "fsmall/flarge"]
    return o


def cases(tier):
    for n in names():
        for o in opts(n, tier):
            base = {"f": n, "o": o}
            for t in TYPES:
                yield dict(base, b=[[t, 2]])
                yield dict(base, b=[[native(n), 2], [t, 2]])
                yield dict(base, b=[[t, 2], [native(n), 2]])
                if tier == "thorough":
                    yield dict(base, b=[[t, 2], [native(n), 2], [t, 1]])
            for t in (native(n), "vertex", "line", "triangle", "quad", "tetra", "hexahedron"):
                for s in DATA:
                    for k in ("pd", "cd"):
                        if n == "netgen" and s.endswith("big"):
                            continue  # (these are the numbers of regions, and the file lists all regions up to the last)
                        yield dict(base, b=[[t, 3]], **{k: [s]})
                for k in ("pd2", "cd2", "fd", "fdv", "ps", "cs", "ps2", "cs2", "fdr"):
                    yield dict(base, b=[[t, 3]], kind=k)
                yield dict(base, b=[[t, 3]], d=2)
                yield dict(base, b=[[t, 3]], kind="unused")
                yield dict(base, b=[[t, 0]], kind="empty")
                yield dict(base, b=[[t, 3]], kind="wrong")
            yield dict(base, b=[], kind="nocells")


BIG = {"i8!big": np.array([2**62, -(2**61), 5, 2**33 + 1, -7], "i8"), "u8!big": np.array([2**64 - 1, 2**63, 5, 2**33 + 1, 7], "u8")}


def values(n, s, salt):
    if s in BIG:
        return np.resize(BIG[s], n)
    if s == "b1":
        return (np.arange(n) * 3 + salt) % 2 == 0
    if s == "c16":
        return np.arange(n) + 1j * (salt + 1.0)
    if s == "f2":
        return (np.arange(n) * 0.5 + salt).astype("f2")
    if s == "U3":
        return np.array([f"s{i}" for i in range(n)])
    return A.data_array(n, s, salt)


def conn(t, m, off):
    k = A.nn_of(t)
    return off + np.arange(m * k).reshape(m, k)


def build(meshio, case):
    off = 0
    cells = []
    for t, m in case["b"]:
        x = conn(t, m, off)
        off += x.size
        cells.append([t.split(":")[0], x])
    npts = max(off, 4)
    kind = case.get("kind")
    if kind == "unused":
        npts += 3
    d = case.get("d", 3)
    i = np.arange(npts, dtype=float)
    # generic positions, so that a cell is known by the coordinates of its nodes, and cells keep a positive volume
    pts = np.column_stack([np.cos(i * 1.7) + i, np.sin(i * 2.3) - 0.25 * i, 0.5 * i + np.cos(i * i)])[:, :d]
    if kind == "wrong":
        t, x = cells[0]
        cells[0] = [t, np.column_stack([x, x[:, :1]])]
    blocks = [meshio.CellBlock(t, x) for t, x in cells]
    m = meshio.Mesh(pts, blocks)
    nc = [len(x) for _, x in cells]
    pd = {"p%d" % j: values(npts, s, 3 + j) for j, s in enumerate(case.get("pd", []))}
    cd = {"c%d" % j: [values(q, s, 5 + j) for q in nc] for j, s in enumerate(case.get("cd", []))}
    if kind == "pd2":
        pd = {"p0": values(npts, "f8", 1), "p1": values(npts, "i4", 2), "p2": values(npts, "i4", 9)}
    if kind == "cd2":
        cd = {"c0": [values(q, "f8", 1) for q in nc], "c1": [values(q, "i4", 2) for q in nc], "c2": [values(q, "i4", 9) for q in nc]}
    m.point_data, m.cell_data = pd, cd
    if kind == "fd":
        m.field_data = {"bnd": np.array([4, 2])}
    if kind == "fdv":
        m.field_data = {"time": np.array([0.5])}
    if kind == "fdr":
        m.field_data = {"tab": np.array([[1.5, 2.5], [3.5, 4.5]])}
    if kind == "ps":
        m.point_sets = {"left": np.array([0, 2])}
    if kind == "ps2":
        m.point_sets = {"left": np.array([0, 2]), "right": np.array([1, 2, 3])}
    if kind == "cs":
        m.cell_sets = {"grp": [np.array([0, 2])]}
    if kind == "cs2":
        m.cell_sets = {"grp": [np.array([0, 2])], "all": [np.array([0, 1, 2])]}
    return m


def lost(m, r, n):
    """what is missing in the mesh read back: yields descriptions"""
    c, g = A.content_of(m), A.content_of(r)
    free = n == "flac3d"

    def key(pts, t, x):
        q = np.round(c18.pad(pts)[np.asarray(x).astype(int)], 3).tolist()
        if n == "tecplot":  # (one zone has one type: other cells become degenerate ones of it)
            return "cell", str(sorted(set(map(tuple, q))))
        return t, str(sorted(map(tuple, q)) if free else q)

    want, have = {}, {}
    for cc, out in ((c, want), (g, have)):
        for t, x in cc["cells"]:
            for row in x if not isinstance(x, list) else []:
                k = key(cc["points"], t, row)
                out[k] = out.get(k, 0) + 1
    for k, v in want.items():
        if have.get(k, 0) < v:
            yield f"cells of type {k[0]} (read back: {[(t, len(x)) for t, x in g['cells']]})"
            break
    else:
        if sum(have.values()) > sum(want.values()):
            yield f"more cells than written: {[(t, len(x)) for t, x in g['cells']]}"
    # points that no cell uses
    have = {str(p) for p in np.round(c18.pad(g["points"]), 3).tolist()} if g["points"].size else set()
    miss = [i for i, p in enumerate(np.round(c18.pad(c["points"]), 3).tolist()) if str(p) not in have]
    if miss and n not in ("stl", "wkt"):
        yield f"points {miss[:5]}"

    def flat(v):
        a = np.concatenate([np.asarray(y).reshape(len(y), -1) for y in v]) if isinstance(v, list) else np.asarray(v)
        return np.sort(a.ravel().astype(complex if a.dtype.kind == "c" else a.dtype)) if a.dtype.kind != "U" else np.sort(a.ravel())

    def same(a, b):
        a, b = flat(a), flat(b)
        if a.dtype.kind == "U" or b.dtype.kind not in "iufcb":
            return a.dtype.kind == b.dtype.kind and a.shape == b.shape and (a == b).all()
        if a.size != b.size:
            # a zero third component may be added
            a2, b2 = a[a != 0], b[b != 0]
            if a2.size != b2.size or b.size < a.size:
                return False
            a, b = a2, b2
        if a.dtype.kind in "iu" and b.dtype.kind in "iu":
            return [int(x) for x in a] == [int(x) for x in b]
        return np.allclose(a.astype(complex), b.astype(complex), rtol=1e-4, atol=1e-5, equal_nan=True)

    # a format need not hold data and sets, but what comes back under its name is what was given
    for what in ("point_data", "cell_data"):
        for k, v in c[what].items():
            if k in g[what] and not same(v, g[what][k]):
                yield f"{what} {k}: read back {flat(g[what][k]).tolist()[:8]}, given {flat(v).tolist()[:8]}"
    for k, v in c["field_data"].items():
        if k in g["field_data"] and not same(v, g["field_data"][k]):
            yield f"field_data {k} (read back: {g['field_data']})"
    for k, v in c["point_sets"].items():
        if k in g["point_sets"] and sorted(np.asarray(g["point_sets"][k]).tolist()) != sorted(v.tolist()):
            yield f"point_sets {k} (read back: {g['point_sets']})"
    for k, v in c["cell_sets"].items():
        if k in g["cell_sets"] and [x for y in g["cell_sets"][k] if y is not None for x in np.asarray(y).tolist()] != [x for y in v for x in y.tolist()]:
            yield f"cell_sets {k} (read back: {g['cell_sets']})"


def run(case, ctx):
    import meshio

    n, o = case["f"], case["o"]
    m = build(meshio, case)
    fmt, kw = c21.call(n, o)
    f = os.path.join(ctx.dir, "mesh" + c21.tail(n, o))
    out = io.StringIO()
    core.CONSOLE.clear()
    lab = f"{n}:{case.get('kind', 'types' if 'pd' not in case and 'cd' not in case else 'data')}"
    ctx.state(repr(sorted((k, str(v)) for k, v in case.items())))
    ctx.step()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            meshio.write(f, m, fmt, **kw)
    except (Exception, SystemExit) as e:
        ctx.outcome(lab + ":raised")
        if isinstance(e, SystemExit) and not e.code:
            ctx.fail("exit", "the write ended the process")
        ctx.trace()
        return
    told = bool(core.CONSOLE or out.getvalue() or any(issubclass(w.category, (UserWarning, RuntimeWarning)) for w in ws))
    if case.get("kind") == "wrong":
        ctx.fail("node-count", f"cells with {m.cells[0].data.shape[1]} nodes were written as {m.cells[0].type}")
        return
    if told:
        ctx.outcome(lab + ":told")
        ctx.trace()
        return
    try:
        with contextlib.redirect_stdout(out):
            r = meshio.read(f, c21.rfmt(n))
    except (Exception, SystemExit) as e:
        ctx.fail("unreadable", f"written without a word, but the file cannot be read: {type(e).__name__}: {e}")
        return
    ctx.step()
    for w in lost(build(meshio, case), r, n):
        ctx.fail("lost:" + w.split(" ")[0], "written without a word, but the file does not hold " + w)
        return
    ctx.outcome(lab + ":held")
    ctx.trace()
