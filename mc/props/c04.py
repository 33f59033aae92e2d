"""XDMF time series: every short history of writer and reader operations against a
list of (time, point data, cell data)."""
import itertools
import os

import numpy as np

from .. import alphabet as A
from ..fmt.vtk import merge_runs

PROP = "C04"
LEVEL = "model_checking"
RULE = (
    "enumerate every writer history (premature steps, the mesh, then 0-3 steps over a menu "
    "of data variants and time values), every data format, mesh, directory and way to pass "
    "the cells, long series, two writers interleaved in every order or with similar names; then every reader history of "
    "length 0-3 over the steps; compare each answer with the reference list"
)
MIN_CASES = 3000
DF = ["HDF", "XML", "Binary"]
# step menu: point specs, cell specs
MENU = {
    "n": ([], []), "p": (["f8"], []), "c": ([], ["f8"]), "b": (["f8"], ["f8"]),
    "v": (["f8:3", "f4"], ["i4:3"]), "i": (["i4", "u1", "i8"], ["i8", "u4"]),
    "t": (["f8:9!tricky"], ["f8!tricky"]), "x": (["f8:3x3"], ["f8:2"]),
}
NAMES = ["ts0", "ts1", "ts10", "ts.1", "t", "TS", "ts_", "sub/ts"]
TIMES = [0.0, 0.1, 1.0 / 3.0, 12, -1e-300, 1e16, 123456.78901234567, 2.0 ** 0.5, np.float64(0.7)]
MESHES = {
    "tri": dict(b=[["triangle", 2]]),
    "mix": dict(b=[["triangle", 2], ["quad", 1]]),
    "lines": dict(b=[["line", 3], ["triangle", 2], ["line", 1]]),
    "vert": dict(b=[["vertex", 2], ["tetra", 1]]),
    "quad": dict(b=[["triangle6", 2], ["quad9", 1], ["hexahedron20", 1]]),
    "d2": dict(b=[["triangle", 2], ["line", 1]], d=2),
    "same": dict(b=[["triangle", 2], ["triangle", 1]]),
    "i4": dict(b=[["triangle", 2], ["line", 2]], ct="i4", pt="f4"),
    "u8": dict(b=[["line", 2], ["quad", 2]], ct="u8"),
    "oneline": dict(b=[["line", 3]]),
    "onevert": dict(b=[["vertex", 3]]),
}


def cases(tier):
    deep = tier == "thorough"
    # A: every menu sequence up to length 2 (3), each format
    for df in DF:
        for n in range(5 if deep else 4):
            for h in itertools.product(MENU, repeat=n):
                yield dict(df=df, m="mix", h=["M"] + list(h), t=n)
        for h in itertools.product("pbv", repeat=3):
            yield dict(df=df, m="lines", h=["M"] + list(h), t=2)
    # B: every mesh x directory x form x small histories
    for df in DF:
        for m in MESHES:
            for sub in ("", "sub", "abs", "cd"):
                for form in ("tuples", "dict", "blocks", "mesh"):
                    for h in (["M"], ["M", "b"], ["M", "p", "c"], ["M", "n", "b", "x"]):
                        if form == "dict" and m in ("lines", "same"):
                            continue
                        yield dict(df=df, m=m, h=h, sub=sub, form=form)
    # C: premature data steps anywhere before the mesh
    for df in DF:
        for pre in range(1, 3):
            for h in itertools.product("npcb", repeat=pre):
                for post in itertools.product("pb", repeat=2):
                    yield dict(df=df, m="mix", h=list(h) + ["M"] + list(post))
    # D: reader histories (r<k>: read step k, P: points and cells again)
    rops = ["P", "0", "1", "2"]
    for df in DF:
        for n in range(0, 5 if deep else 4):
            for r in itertools.product(rops, repeat=n):
                yield dict(df=df, m="lines", h=["M", "b", "c", "v"], r=list(r))
    # E: two writers, every interleaving of their operations
    for df in DF:
        for df2 in DF:
            for k in range(3 if not deep else 4):
                for inter in sorted(set(itertools.permutations([0] * (2 + k) + [1] * 3))):
                    yield dict(df=df, df2=df2, inter=list(inter), m="mix", m2="lines",
                               h=["M"] + ["b", "p", "v"][: k + 1], h2=["M", "c", "b"])
    # F: times
    for df in DF:
        for t in range(len(TIMES)):
            yield dict(df=df, m="tri", h=["M", "p", "p"], t=t)
    # G: an exception inside the with-block after k complete steps
    for df in DF:
        for k in range(3):
            yield dict(df=df, m="mix", h=["M"] + ["b"] * k, boom=1)
    # H: a later step with larger data (70000 points)
    for df in DF:
        yield dict(df=df, m="tri", big=70000, h=["M", "b", "v", "p"])
    # I: long series (numbers of data sets with several digits)
    for df in DF:
        for a in MENU:
            yield dict(df=df, m="mix", h=["M"] + [a] * (40 if deep else 13))
        for a, b in itertools.permutations("pcv", 2):
            for n in (11, 26):
                yield dict(df=df, m="lines", h=["M"] + ([a, b] * n)[:n])
        yield dict(df=df, m="tri", h=["M"] + ["b"] * 130)
    # J: two series side by side, whose names resemble each other
    for df in DF:
        for df2 in DF:
            for n2 in NAMES:
                for k in (1, 7):
                    for first in (0, 1):
                        inter = [first] * 8 + [1 - first] * 8
                        yield dict(df=df, df2=df2, inter=inter, n2=n2, m="tri", m2="lines", h=["M"] + ["b"] * k, h2=["M", "c", "b"])


def mesh_of(name, big=None):
    d = dict(MESHES[name])
    if big:
        d["np"] = big
    return A.build(d)


def step_data(c, op, salt):
    ps, cs = MENU[op]
    n = len(c["points"])
    pd = {f"p{i}": A.data_array(n, s, salt + i) for i, s in enumerate(ps)}
    cd = {f"c{i}": [A.data_array(len(x), s, salt + i + 2 * b) for b, (_, x) in enumerate(c["cells"])]
          for i, s in enumerate(cs)}
    return pd, cd


class Boom(Exception):
    pass


def apply(meshio, w, op, content, form, model, salt, t, ctx):
    ctx.step()
    if op == "M":
        pts = np.array(content["points"])
        cells = [(k, np.array(v)) for k, v in content["cells"]]
        if form == "dict":
            arg = dict(cells)
        elif form == "blocks":
            arg = [meshio.CellBlock(k, v) for k, v in cells]
        elif form == "mesh":
            arg = meshio.Mesh(pts, cells).cells
        else:
            arg = cells
        w.write_points_cells(pts, arg)
        model["mesh"] = True
        for (k, v), (_, v0) in zip(cells, content["cells"]):
            if v.shape != v0.shape or not np.array_equal(v, v0):
                ctx.fail("mutated", "write_points_cells changed the caller's cells")
        return
    pd, cd = step_data(content, op, salt)
    if not model["mesh"]:
        try:
            w.write_data(t, point_data=pd, cell_data=cd)
        except meshio.WriteError:
            return
        ctx.fail("premature", "write_data before the mesh did not raise WriteError")
        return
    w.write_data(t, point_data=dict(pd), cell_data={k: list(v) for k, v in cd.items()})
    model["steps"].append((float(t), pd, cd))


def verify(meshio, path, model, content, case, df, ctx):
    exp = merge_runs(dict(content, cell_data={}))
    f4 = df == "XML"
    ptol = "bits" if df != "XML" else (1.3e-7 if content["points"].dtype == np.float32 else 0.0)

    def ok_mesh(points, cells):
        got = dict(points=np.array(points), cells=[(c.type, np.array(c.data)) for c in cells])
        for s, m in A.compare(exp, got, ptol, parts=("points", "cells"), dtypes=True):
            ctx.fail("mesh-" + s, m)

    def ok_step(k, ans):
        t, pd, cd = ans
        et, epd, ecd = model["steps"][k]
        if t != et:
            ctx.fail("time", f"step {k}: time {t!r}, expected {et!r}")
        e = merge_runs(dict(content, cell_data=ecd))
        want = dict(point_data=epd, cell_data=e["cell_data"])
        got = dict(point_data={a: np.array(b) for a, b in pd.items()},
                   cell_data={a: [np.array(x) for x in b] for a, b in cd.items()})
        isf4 = f4 and any(v.dtype == np.float32 for v in epd.values())
        tol = 1.3e-7 if isf4 else (0.0 if f4 else "bits")
        for s, m in A.compare(want, got, tol, parts=("point_data", "cell_data"), dtypes=True):
            ctx.fail("step-" + s, f"step {k}: {m}")

    with meshio.xdmf.TimeSeriesReader(path) as r:
        ctx.step()
        if r.num_steps != len(model["steps"]):
            ctx.fail("num_steps", f"{r.num_steps} steps, expected {len(model['steps'])}")
            return
        ok_mesh(*r.read_points_cells())
        seq = case.get("r")
        if seq is None:
            for k in range(r.num_steps):
                ok_step(k, r.read_data(k))
                ctx.step()
        else:
            for op in seq:
                ctx.step()
                if op == "P":
                    ok_mesh(*r.read_points_cells())
                else:
                    ok_step(int(op), r.read_data(int(op)))
    ctx.trace()


def run(case, ctx):
    import meshio

    sub = case.get("sub", "")
    form = case.get("form", "tuples")
    d = ctx.dir
    t0 = case.get("t", 0)
    if sub in ("sub", "abs"):
        os.mkdir(os.path.join(d, "out.dir"))
    path = {"": "ts.xdmf", "sub": os.path.join("out.dir", "ts.xdmf"),
            "abs": os.path.join(d, "out.dir", "ts.xdmf"), "cd": "ts.xdmf"}[sub]
    content = mesh_of(case["m"], case.get("big"))
    model = {"mesh": False, "steps": []}

    def time(i):
        return TIMES[(t0 + i) % len(TIMES)]

    if "inter" in case:
        content2 = mesh_of(case["m2"])
        model2 = {"mesh": False, "steps": []}
        ops = [list(enumerate(case["h"])), list(enumerate(case["h2"]))]
        other = case.get("n2", "other") + ".xdmf"
        os.makedirs("sub", exist_ok=True)
        with meshio.xdmf.TimeSeriesWriter("ts.xdmf", case["df"]) as w1, \
                meshio.xdmf.TimeSeriesWriter(other, case["df2"]) as w2:
            for which in case["inter"]:
                if not ops[which]:
                    continue
                i, op = ops[which].pop(0)
                if which == 0:
                    apply(meshio, w1, op, content, form, model, i, time(i), ctx)
                else:
                    apply(meshio, w2, op, content2, form, model2, 50 + i, time(3 + i), ctx)
        verify(meshio, other, model2, content2, case, case["df2"], ctx)
    else:
        try:
            with meshio.xdmf.TimeSeriesWriter(path, case["df"]) as w:
                for i, op in enumerate(case["h"]):
                    apply(meshio, w, op, content, form, model, i, time(i), ctx)
                if case.get("boom"):
                    raise Boom()
        except Boom:
            pass
    if sub == "cd":
        # the reader must find its data from any working directory
        os.mkdir("elsewhere")
        os.chdir("elsewhere")
        path = os.path.join("..", path)
    verify(meshio, path, model, content, case, case["df"], ctx)
    ctx.state([case["m"], case["df"], [s[0] for s in model["steps"]], case["h"], case.get("r")])
    ctx.outcome(f"{case['df']}:{len(model['steps'])} steps")
