"""Mesh construction and the views of a mesh."""
import itertools

import numpy as np

from .. import alphabet as A

PROP = "C13"
LEVEL = "model_checking"
RULE = (
    "construction: every block sequence up to length 3 over three types and sizes 0..2 x ways to pass the cells (tuples, CellBlocks, "
    "dictionary, lists) x every single defect at every position of point data and cell data; views: every block sequence up to "
    "length 3 (thorough: 4) x every assignment of members (None, empty, first, last, all) to every block, checked against a direct model"
)
MIN_CASES = 30000
TYPES = ["triangle", "line", "quad"]
MEM = ["none", "empty", "first", "last", "all"]
HOW = ["arrays", "lists", "blocks", "mixed", "dict"]


def seqs(n, sizes, types=TYPES):
    for k in range(n + 1):
        for ts in itertools.product(types, repeat=k):
            for ss in itertools.product(sizes, repeat=k):
                yield [[t, m] for t, m in zip(ts, ss)]


def cases(tier):
    deep = tier == "thorough"
    # -- construction
    for b in seqs(3 if deep else 2, (0, 1, 2)):
        for how in HOW:
            if how == "dict" and len({t for t, _ in b}) != len(b):
                continue
            for n in (5, 0) if not any(m for _, m in b) else (5,):
                base = {"k": "ctor", "b": b, "how": how, "n": n}
                yield dict(base, bad=None)
                for j in range(2):
                    for delta in (-1, 1, 3):
                        if n + delta >= 0:
                            yield dict(base, bad=["pd", j, delta])
                    for delta in (-1, 1):
                        if len(b) + delta >= 0:
                            yield dict(base, bad=["cdn", j, delta])
                    for k, (t, m) in enumerate(b):
                        for delta in (-1, 1, 4):
                            if m + delta >= 0:
                                yield dict(base, bad=["cd", j, k, delta])
    # -- views
    for b in seqs(3, (1, 2)):
        for mem in itertools.product(MEM, repeat=len(b)):
            yield {"k": "view", "b": b, "mem": list(mem), "ml": "arrays"}
            if len(b) <= 2:
                yield {"k": "view", "b": b, "mem": list(mem), "ml": "lists"}
    for b in seqs(2, (0, 1)):
        for mem in itertools.product(MEM[:2] + MEM[4:], repeat=len(b)):
            yield {"k": "view", "b": b, "mem": list(mem), "ml": "lists"}
    for t in sorted(set(A.NN) - {"triangle7", "wedge12"}):
        yield {"k": "view", "b": [[t, 2], ["triangle", 1], [t, 1]], "mem": ["first", "all", "all"], "ml": "arrays"}
    if deep:
        for b in seqs(4, (1, 2), TYPES[:2]):
            if len(b) == 4:
                for mem in itertools.product(MEM, repeat=4):
                    yield {"k": "view", "b": b, "mem": list(mem), "ml": "arrays"}


def blocks(b, n):
    return [(t, A.conn(t, m, n, i) if n else np.empty((0, A.NN[t]), dtype=int)) for i, (t, m) in enumerate(b)]


def ctor(case, ctx):
    import meshio

    n = case["n"]
    cells = blocks(case["b"], n)
    how = case["how"]
    L = (lambda a: a.tolist()) if how in ("lists", "mixed") else (lambda a: a)
    pts = A.points(n, 3)
    pd = {"s": A.data_array(n, "f8"), "v": A.data_array(n, "i4:3", 1)}
    cd = {"a": [A.data_array(len(c), "i8", i) for i, (_, c) in enumerate(cells)],
          "b": [A.data_array(len(c), "f8:2", i) for i, (_, c) in enumerate(cells)]}
    bad = case["bad"]
    if bad:
        key = list(pd if bad[0] == "pd" else cd)[bad[1]]
        if bad[0] == "pd":
            pd[key] = A.data_array(n + bad[2], ["f8", "i4:3"][bad[1]])
        elif bad[0] == "cdn":
            spec = ["i8", "f8:2"][bad[1]]
            cd[key] = cd[key][:-1] if bad[2] < 0 else cd[key] + [A.data_array(1, spec)]
        else:
            _, j, k, delta = bad
            cd[key][k] = A.data_array(len(cells[k][1]) + delta, ["i8", "f8:2"][j])
    if how == "dict":
        arg = dict(cells)
    elif how == "blocks":
        arg = [meshio.CellBlock(t, c) for t, c in cells]
    elif how == "mixed":
        arg = [meshio.CellBlock(t, c) if i % 2 else (t, c) for i, (t, c) in enumerate(cells)]
    else:
        arg = [(t, L(c) if len(c) else c) for t, c in cells]
    ctx.step()
    try:
        m = meshio.Mesh(L(pts) if n else pts, arg,
                        point_data={k: L(v) if v.size else v for k, v in pd.items()},
                        cell_data={k: [L(x) if x.size else x for x in v] for k, v in cd.items()})
    except Exception as e:
        if not bad:
            ctx.fail("rejected", f"a consistent mesh was rejected: {e!r}")
        ctx.outcome(f"{type(e).__name__}:{bad[0] if bad else ''}")
        ctx.trace()
        return
    ctx.outcome("constructed")
    if bad:
        ctx.fail("accepted", f"an inconsistent mesh was accepted: {bad}")
        return
    got = A.content_of(m)
    exp = dict(points=pts, cells=cells, point_data=pd, cell_data=cd, field_data={}, point_sets={}, cell_sets={})
    for sig, msg in A.compare(exp, got, parts=("points", "cells", "point_data", "cell_data", "point_sets", "cell_sets")):
        ctx.fail(sig, msg)
    for c, (t, x) in zip(m.cells, cells):
        if len(c) != len(x) or c.dim != A.DIM[t]:
            ctx.fail("block", f"len {len(c)}, dim {c.dim} of a {t} block of {len(x)}")
    ctx.trace()
    ctx.state(repr(case["b"]) + how + str(n))


def members(kind, m):
    return {"none": None, "empty": [], "first": [0] if m else [], "last": [m - 1] if m else [], "all": list(range(m))}[kind]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def view(case, ctx):
    import meshio

    b = case["b"]
    n = max([A.NN[t] for t, _ in b] + [4]) + 2
    cells = blocks(b, n)
    pts = A.points(n, 3)
    ints = [A.data_array(len(c), "i8", i) for i, (_, c) in enumerate(cells)]
    vec = [A.data_array(len(c), "f8:2", i) for i, (_, c) in enumerate(cells)]
    mem = [members(k, m) for k, (_, m) in zip(case["mem"], b)]
    inv = [None if x is None else [y for y in range(m) if y not in x] for x, (_, m) in zip(mem, b)]
    L = (lambda x: x) if case["ml"] == "lists" else (lambda x: None if x is None else np.array(x, dtype=int))
    m = meshio.Mesh(pts.copy(), [(t, c.copy()) for t, c in cells], point_data={"p": pts[:, 0].copy()},
                    cell_data={"i": [x.copy() for x in ints], "v": [x.copy() for x in vec]},
                    field_data={"fd": np.array([1, 2])}, point_sets={"ps": np.array([0, 2])},
                    cell_sets={"in": [L(x) for x in mem], "out": [L(x) for x in inv]})
    before = A.snapshot(m)

    order = list(dict.fromkeys(t for t, _ in b))

    def pick(lst):
        out = {}
        for t in order:
            out[t] = np.concatenate([x for (u, _), x in zip(b, lst) if u == t])
        return out

    ctx.step()
    e = pick([c for _, c in cells])
    g = m.cells_dict
    if sorted(g) != sorted(e) or any(not same(g[t], e[t]) for t in e):
        ctx.fail("cells_dict", f"{g}, expected {e}")
    ctx.step()
    g = m.cell_data_dict
    for name, lst in (("i", ints), ("v", vec)):
        e = pick(lst)
        if name not in g or sorted(g[name]) != sorted(e) or any(not same(g[name][t], e[t]) for t in e):
            ctx.fail("cell_data_dict", f"{name}: {g.get(name)}, expected {e}")
        for t in order:
            ctx.step()
            x = m.get_cell_data(name, t)
            if not same(x, e[t]):
                ctx.fail("get_cell_data", f"{name}, {t}: {x}, expected {e[t]}")
    for t in list(dict.fromkeys(TYPES + order)):
        ctx.step()
        x = m.get_cells_type(t)
        e = np.concatenate([c for u, c in cells if u == t]) if t in order else np.empty((0, A.NN[t]), dtype=int)
        if not same(x, e) or np.asarray(x).dtype.kind not in "iu":
            ctx.fail("get_cells_type", f"{t}: {x}, expected {e}")
    ctx.step()
    g = m.cell_sets_dict
    for name, lst in (("in", mem), ("out", inv)):
        e = {}
        off = {}
        for (t, k), x in zip(b, lst):
            if x:
                e.setdefault(t, []).extend(off.get(t, 0) + y for y in x)
            off[t] = off.get(t, 0) + k
        gg = {t: [int(y) for y in v] for t, v in g.get(name, {}).items() if len(v)}
        if gg != e:
            ctx.fail("cell_sets_dict", f"{name}: {gg}, expected {e}")
        if any(np.asarray(v).dtype.kind not in "iu" for v in g.get(name, {}).values()):
            ctx.fail("cell_sets_dict-dtype", f"{name}: {g[name]}")
    # text
    ctx.step()
    s = repr(m)
    if str(len(pts)) not in s.split("\n")[1]:
        ctx.fail("repr", s)
    got = [x.strip() for x in s.split("\n") if x.startswith("    ")]
    if got != [f"{t}: {k}" for t, k in b]:
        ctx.fail("repr", f"{got}, expected {b}")
    for word in ("ps", "in, out", "p", "i, v", "fd"):
        if word not in s:
            ctx.fail("repr", f"{word} not in {s}")
    # copies
    ctx.step()
    c = m.copy()
    if A.snapshot(c) != before:
        ctx.fail("copy", "the copy differs")
    arrs = lambda z: ([z.points] + [x.data for x in z.cells] + list(z.point_data.values()) + [y for v in z.cell_data.values() for y in v]
                      + list(z.point_sets.values()) + list(z.field_data.values())
                      + [y for v in z.cell_sets.values() for y in v if isinstance(y, np.ndarray)])
    for x, y in zip(arrs(m), arrs(c)):
        if x.size and np.shares_memory(x, y):
            ctx.fail("copy", "the copy shares memory")
    for x in arrs(c):
        x[...] = 0
    c.cells.append(None)
    c.point_data["new"] = None
    c.cell_data["new"] = None
    c.cell_sets["new"] = None
    for v in list(c.cell_data.values())[:2]:
        v.append(None)
    c.cell_sets["in"].append(3)
    if A.snapshot(m) != before:
        ctx.fail("view-mutates", "a view or a change of the copy changed the mesh")
    ctx.trace()
    ctx.state(repr(case))
    ctx.outcome("view")


def run(case, ctx):
    (ctor if case["k"] == "ctor" else view)(case, ctx)
