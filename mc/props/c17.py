"""Reading a file that was cut off anywhere."""
import copy
import os
import signal

import numpy as np

from .. import alphabet as A
from ..core import CaseTimeout
from ..fmt import decks, gmsh, hdf, misc, surface, vtk, xdmf

PROP = "C17"
LEVEL = "fault_enumeration"
RULE = (
    "every format and writer option x a menu of meshes (the format's own menu of block sequences, with data): every file the writer produced (side files included) cut after every "
    "byte (files over 12 kB: all of the first 6 kB, the last 2 kB and every 7th byte between; thorough: every byte), read by the real reader under a time limit; outcomes: an error, or a mesh that is consistent in itself"
)
MIN_CASES = 400
CASE_LIMIT = 240
K = 16
PROFS = {p.name: p for m in (vtk, gmsh, xdmf, surface, decks, hdf, misc) for p in m.PROFILES}


def menu(p, tier):
    q = copy.copy(p)
    q.bound = {"quick": 0, "thorough": 1}
    q.big = []
    seen = {}
    n = 2 if tier == "quick" else 6
    for c in q.cases("quick"):
        # the cases of stage B: the format's own menu of block sequences, base data
        if q.bb is not None and c.get("b", A.DEFAULTS["b"]) not in q.bb:
            continue
        seen.setdefault(c["o"], [])
        if len(seen[c["o"]]) < n:
            seen[c["o"]].append(c)
    for o in p.opts:
        yield from seen.get(o, [])


def cases(tier):
    only = os.environ.get("MC_ONLY")
    for n, p in PROFS.items():
        if only and n not in only.split(","):
            continue
        for c in menu(p, tier):
            for k in range(K):
                yield dict(c, k=k)


def files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def positions(n, tier, k):
    for i in range(k, n, K):
        if tier == "thorough" or n <= 12000 or i < 6000 or i >= n - 2000 or (i // K) % 7 == 0:
            yield i


def run(case, ctx):
    import meshio

    p = PROFS[case["f"]]
    os.makedirs("w")
    path = p.path(os.path.join(ctx.dir, "w"))
    p.write(meshio, path, p.mesh(meshio, p.content(case), case), case)
    fs = files(os.path.join(ctx.dir, "w"))
    data = {f: open(os.path.join(ctx.dir, "w", f), "rb").read() for f in fs}
    for f in fs:
        for n in positions(len(data[f]), ctx.tier, case["k"]):
            with open(os.path.join(ctx.dir, "w", f), "wb") as h:
                h.write(data[f][:n])
            ctx.step()
            signal.setitimer(signal.ITIMER_REAL, 5)
            try:
                m = p.read(meshio, path, case)
                out = "mesh"
            except CaseTimeout:
                ctx.fail("hang", f"{f} cut after {n} of {len(data[f])} bytes: the reader does not finish")
                return
            except SystemExit as e:
                out = "ReadError" if e.code else "exit0"
            except Exception as e:
                out = type(e).__name__
                m = None
            if out == "exit0":
                ctx.fail("exit", f"{f} cut after {n} bytes: the reader exits with status 0")
            if out == "mesh":
                bad = inconsistent(m)
                if bad:
                    ctx.fail("inconsistent", f"{f} cut after {n} of {len(data[f])} bytes: {bad}")
                    return
            ctx.outcome(f"{case['f']}:{out}")
        with open(os.path.join(ctx.dir, "w", f), "wb") as h:
            h.write(data[f])
    signal.setitimer(signal.ITIMER_REAL, 60)
    m = p.read(meshio, path, case)
    bad = inconsistent(m)
    if bad:
        ctx.fail("inconsistent", f"complete file: {bad}")
    ctx.trace()
    ctx.state(repr(sorted((a, b) for a, b in case.items() if a != "k")))


def inconsistent(m):
    if m.points.dtype.kind not in "fiu":
        return f"points are {m.points!r}"
    n = len(m.points)
    if m.points.ndim != 2 and n:
        return f"points of shape {m.points.shape}"
    for i, c in enumerate(m.cells):
        rows = []
        if c.type.startswith("polyhedron"):
            rows = [np.asarray(f) for cell in c.data for f in cell]
        else:
            rows = [np.asarray(c.data)]
        for x in rows:
            if x.size and (x.dtype.kind not in "iu" or x.min() < 0 or x.max() >= n):
                return f"block {i} ({c.type}) refers to points {x.min()}..{x.max()} of {n}"
    for k, v in m.point_data.items():
        if len(v) != n:
            return f"point data {k} has {len(v)} entries for {n} points"
    for k, v in m.cell_data.items():
        if len(v) != len(m.cells) or any(len(x) != len(c) for x, c in zip(v, m.cells)):
            return f"cell data {k} has {[len(x) for x in v]} entries for blocks of {[len(c) for c in m.cells]}"
    for k, v in m.point_sets.items():
        x = np.asarray(v)
        if x.size and (x.min() < 0 or x.max() >= n):
            return f"point set {k} refers to points {x.min()}..{x.max()} of {n}"
    for k, v in m.cell_sets.items():
        if k == "gmsh:bounding_entities":
            continue
        if len(v) != len(m.cells):
            return f"cell set {k} has {len(v)} entries for {len(m.cells)} blocks"
        for x, c in zip(v, m.cells):
            if x is None:
                continue
            x = np.asarray(x)
            if x.size and (x.min() < 0 or x.max() >= len(c)):
                return f"cell set {k} refers to cells {x.min()}..{x.max()} of {len(c)}"
    return None
