"""A mesh that was read can be written again, in any encoding, without losing more."""
import copy
import os

import numpy as np

from .. import alphabet as A
from ..fmt import decks, gmsh, hdf, misc, surface, vtk, xdmf
from ..fmt.base import _fingerprint

PROP = "C12"
LEVEL = "model_checking"
RULE = (
    "every format: every block sequence and every single deviation of the mesh, written in every encoding, read, written again in every "
    "encoding of the format (quick: a quarter of the pairs of two non-default encodings), read again and compared with the first mesh read"
)
MIN_CASES = 30000
PROFS = [p for m in (vtk, gmsh, xdmf, surface, decks, hdf, misc) for p in m.PROFILES]
ALL = ("points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets")
TAB = {}
for _p in PROFS:
    _q = copy.copy(_p)
    _q.bound = {"quick": 1, "thorough": 1}
    _q.big = []
    TAB[_p.name] = _q
# options of one case that only pick another file name or precision of the same encoding are paired as well


def cases(tier):
    only = os.environ.get("MC_ONLY")
    for n, p in TAB.items():
        if only and n not in only.split(","):
            continue
        o0 = next(iter(p.opts))
        for i, c in enumerate(p.cases("quick", counted=tier != "quick")):
            if c.get("pv") == "tricky":
                continue  # (extreme values round differently at other precisions: the round-trip checks have them)
            for o2 in p.opts:
                if tier == "quick" and o2 not in (o0, c["o"]) and c["o"] != o0 and i % 4:
                    continue
                if p.admissible(dict(c, o=o2)):
                    yield dict(c, o2=o2)


def run(case, ctx):
    import meshio

    p = TAB[case["f"]]
    content = p.content(case)
    mesh = p.mesh(meshio, content, case)
    os.makedirs("1")
    os.makedirs("2")
    f1 = p.path(os.path.join(ctx.dir, "1"))
    p.write(meshio, f1, mesh, case)
    r1 = p.read(meshio, f1, case)
    c1 = A.content_of(r1)
    ctx.step(2)
    case2 = dict(case, o=case["o2"])
    f2 = p.path(os.path.join(ctx.dir, "2"))
    lab = f"{case['f']}:{case['o']}:{case['o2']}"
    try:
        p.write(meshio, f2, r1, case2)
    except meshio.WriteError:
        # MSH 4.1 wants the entities of the nodes as soon as there are several blocks: only a 4.1 file has them
        if case["f"] == "gmsh" and case["o2"][:2] == "41" != case["o"][:2] and len(r1.cells) > 1:
            ctx.outcome(lab + ":no-entities")
            return
        raise
    r2 = p.read(meshio, f2, case2)
    c2 = A.content_of(r2)
    ctx.step(2)
    if case["f"] == "gmsh":
        same = case["o"][:2] == case["o2"][:2]
        ref = dict(c1)
        if not same:
            # tags and entities differ from version to version
            for c in (ref, c2):
                for k in ("point_data", "cell_data"):
                    c[k] = {n: v for n, v in c[k].items() if not n.startswith("gmsh:")}
        if case["o2"][:2] == "22":
            ref = gmsh.merge_runs(ref)
        parts = ("points", "cells", "point_data", "cell_data", "field_data")
    else:
        if case["f"] == "stl":
            for c in (c1, c2):
                c["cell_data"].pop("facet_normals", None)
        ref = p.expected(c1, case2)
        parts = p.parts
    tol = p.tolerances(case2)
    if c1["points"].dtype.itemsize == 4 and not tol["tol"]:
        tol["tol"] = 1e-7  # single precision, printed with its own shortest digits
    for sig, msg in A.compare(ref, c2, parts=parts, extra_ok=p.extra_ok, **tol):
        ctx.fail(sig, msg + f" ({case['o']} -> {case['o2']})")
    ctx.trace()
    ctx.state(_fingerprint(c1, case["f"]))
    ctx.outcome(lab)
