"""Files as other programs spell them."""
import os

import numpy as np

from .. import alphabet as A
from ..core import deviations
from ..enc import ENCODERS

PROP = "C10"
LEVEL = "model_checking"
RULE = (
    "every format with a reference encoder: a menu of meshes x every combination of at most two (thorough: three) deviations from the plain spelling "
    "(numbering, spacing, letter case, comments, sections in other orders, optional fields, line breaks, number notations, byte orders, scalar types, type aliases, ...), "
    "encoded from the published description, read by the real reader and compared with the mesh that was encoded"
)
MIN_CASES = 160000
TAB = {e.name: e for e in ENCODERS}


for _e in TAB.values():
    if _e.late:
        # most points, and the first and the last one among them, belong to no cell
        _e.menu = dict(_e.menu, late=dict(_e.menu[_e.late if _e.late in _e.menu else next(iter(_e.menu))], np=73))


def cases(tier):
    only = os.environ.get("MC_ONLY")
    for n, e in TAB.items():
        if only and n.split("-")[0] not in only.split(",") and n not in only.split(","):
            continue
        ax = dict({"b": list(e.menu)}, **e.axes)
        for a in deviations(ax, e.bound[tier], full=e.full):
            if e.admissible(a):
                yield dict(a, f=n)


def deviating(case):
    e = TAB[case["f"]]
    return {k: v for k, v in case.items() if k in e.axes and v != e.axes[k][0]}


_seen = []


def key(case):
    """for the display: leave out cases that only add deviations to one that was shown"""
    d = {(case["f"], k, v) for k, v in deviating(case).items()}
    for k in _seen:
        if k <= d and (k or not d):
            return str(sorted(k, key=str))
    _seen.append(d)
    return str(sorted(d, key=str))


def run(case, ctx):
    import meshio

    e = TAB[case["f"]]
    out = e.encode(e.content(case), case)
    path = e.path(ctx.dir)
    if not isinstance(out, dict):
        out = {os.path.basename(path): out} if out is not None else {}
    for k, v in out.items():
        if callable(v):
            v(os.path.join(ctx.dir, k))
            continue
        with open(os.path.join(ctx.dir, k), "wb") as h:
            h.write(v)
    try:
        m = e.read(meshio, path, case)
    except (Exception, SystemExit) as x:
        if e.may_refuse(case):
            ctx.outcome(f"{case['f']}:refused")
            ctx.step()
            ctx.trace()
            return
        raise
    ctx.step()
    got = A.content_of(m)
    got["point_sets"] = {k: np.unique(v) for k, v in got["point_sets"].items()}
    got["cell_sets"] = {k: v for k, v in got["cell_sets"].items() if k not in e.extra_ok}
    got["cell_sets"] = {k: [None if x is None else np.unique(x) for x in v] for k, v in got["cell_sets"].items()}
    for sig, msg in A.compare(e.expected(case), got, parts=e.parts, extra_ok=e.extra_ok, tol=e.tol):
        ctx.fail(sig, msg + f" {deviating(case)}")
    for sig, msg in e.check(m, case):
        ctx.fail(sig, msg + f" {deviating(case)}")
    ctx.trace()
    ctx.state(repr(sorted(case.items(), key=str)))
    ctx.outcome(f"{case['f']}:read")
