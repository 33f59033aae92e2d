"""Writes and reads do not depend on what the process did before, nor on the run."""
import gzip
import itertools
import os
import pickle
import re
import subprocess
import sys

import numpy as np

from .. import alphabet as A
from .. import core
from ..fmt import decks, gmsh, hdf, misc, surface, vtk, xdmf
from . import c17

PROP = "C16"
LEVEL = "model_checking"
RULE = (
    "operations: write, read (then overwrite everything in the mesh in place), a failing write and a failing read, for every format and option with two meshes; "
    "histories: every operation of the same format, and of every other format at its default option, before every observed write or read; every pair of operations of the format before it; "
    "every kind of old file at the destination; fresh interpreters with other hash seeds; each observation is compared with the same operation in a process that did nothing before"
)
MIN_CASES = 10000
PROFS = c17.PROFS
OPS = ("W", "R", "wx", "rx")
DEST = ("other", "same", "garbage", "dir", "rich")
STAMPS = [
    rb"\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d{6})?",
    rb"(Mon|Tue|Wed|Thu|Fri|Sat|Sun) [A-Z][a-z]{2} [ \d]\d \d\d:\d\d:\d\d (UTC )?\d{4}",
]
_menu = {}


def menu(n):
    if n not in _menu:
        out = {}
        for c in c17.menu(PROFS[n], "quick"):
            out.setdefault(c["o"], []).append(c)
        _menu[n] = out
    return _menu[n]


def ops(n, full):
    for o in (menu(n) if full else list(menu(n))[:1]):
        for i in range(len(menu(n)[o])):
            for k in OPS if i == 0 else OPS[:2]:
                yield [n, o, i, k]


def cases(tier):
    only = os.environ.get("MC_ONLY")
    names = [n for n in PROFS if not only or n in only.split(",")]
    for n in names:
        for seed in (1, 2, 3):
            yield {"f": n, "seed": seed}
        obs = [x for x in ops(n, True) if x[3] in "WR"]
        for x in obs:
            for y in ops(n, True):
                yield {"f": n, "h": [y], "x": x}
            if x[3] == "W":
                for d in DEST:
                    yield {"f": n, "dest": d, "x": x}
        for m in PROFS:
            if m != n:
                for x in obs:
                    if tier == "quick" and x[1] != next(iter(menu(n))):
                        continue
                    for y in ops(m, False):
                        yield {"f": n, "h": [y], "x": x}
        two = list(ops(n, tier == "thorough"))
        for x in obs:
            if tier == "quick" and x[1] != next(iter(menu(n))):
                continue
            for y, z in itertools.product(two, repeat=2):
                yield {"f": n, "h": [y, z], "x": x}


def mesh(meshio, op):
    p = PROFS[op[0]]
    c = menu(op[0])[op[1]][op[2]]
    return p, c, p.mesh(meshio, p.content(c), c)


def grab(d):
    out = {}
    for f in c17.files(d):
        b = open(os.path.join(d, f), "rb").read()
        if f.endswith(".gz"):
            b = gzip.decompress(b)
        if f.endswith(".e"):
            b = dump(os.path.join(d, f))  # (the time in the title changes check sums in the bytes)
        for s in STAMPS:
            b = re.sub(s, b"STAMP", b)
        out[f] = b
    return out


def dump(path):
    import netCDF4

    with netCDF4.Dataset(path) as ds:
        ds.set_auto_mask(False)
        out = [repr([(k, str(ds.getncattr(k))) for k in ds.ncattrs()]), repr([(k, len(v)) for k, v in ds.dimensions.items()])]
        for k, v in ds.variables.items():
            x = np.asarray(v[...])
            out.append(repr((k, v.dimensions, str(x.dtype), [(a, str(v.getncattr(a))) for a in v.ncattrs()], x.tobytes())))
    return "\n".join(out).encode()


def scribble(m):
    def zap(x):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "iuf":
            x[...] = 77
        elif isinstance(x, (list, tuple)):
            for y in x:
                zap(y)
        elif isinstance(x, dict):
            for y in list(x.values()):
                zap(y)
            x["scribble"] = np.zeros(1)

    zap(m.points)
    for c in m.cells:
        zap(c.data)
    for x in (m.point_data, m.cell_data, m.field_data, m.point_sets, m.cell_sets):
        zap(x)
    m.cells.append(m.cells[0] if m.cells else None)


def do(meshio, op, d, src):
    """one operation in directory d; src: where the file to be read lies"""
    p, c, m = mesh(meshio, op)
    k = op[3]
    if k == "W":
        p.write(meshio, p.path(d), m, c)
        out = grab(d)
        scribble(m)
        return out
    if k == "R":
        before = grab(src)
        m = p.read(meshio, p.path(src), c)
        out = A.content_of(m)
        if grab(src) != before:
            raise AssertionError("reading changed the file")
        scribble(m)
        return out
    if k == "wx":
        m.cells.append(meshio.CellBlock("triangle", np.zeros((1, 3), int)))
        m.cells[-1].type = "no_such_cell"
        try:
            p.write(meshio, p.path(d), m, c)
        except BaseException:
            pass
        try:
            p.write(meshio, os.path.join(d, "no", os.path.basename(p.path(d))), m, c)
        except BaseException:
            pass
    if k == "rx":
        for cut in (0.4, 0.8):
            for f in c17.files(src):
                b = open(os.path.join(src, f), "rb").read()
                t = os.path.join(d, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                with open(t, "wb") as h:
                    h.write(b[: int(cut * len(b))])
            try:
                p.read(meshio, p.path(d), c)
            except BaseException:
                pass


def child(fn):
    """fn() in a forked child; its result or the exception text"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("raised", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as h:
                pickle.dump(res, h)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", "")


SRC = {}  # op -> directory with its file
REF = {}


def source(meshio, op, ctx):
    key = tuple(op[:3])
    if key not in SRC:
        d = os.path.join(ctx.root, f"src{len(SRC)}")
        os.mkdir(d)
        SRC[key] = d
        res = child(lambda: do(meshio, [*op[:3], "W"], d, None))
        if res[0] != "ok":
            raise AssertionError(f"baseline write: {res}")
        ctx.step()
    return SRC[key]


def ref(meshio, op, ctx):
    key = tuple(op)
    if key not in REF:
        src = source(meshio, op, ctx)
        d = os.path.join(ctx.root, f"ref{len(REF)}")
        os.mkdir(d)
        # the same file name as in the history, so that embedded names agree
        REF[key] = child(lambda: do(meshio, op, d, src))
        ctx.step()
    return REF[key]


def same(a, b):
    if a[0] != b[0]:
        return f"{a[0]} {str(a[1])[:200] if a[0] != 'ok' else ''} / {b[0]} {str(b[1])[:300] if b[0] != 'ok' else ''}"
    if a[0] != "ok":
        return None if a == b else f"{a[1]} / {b[1]}"
    a, b = a[1], b[1]
    if a is None:
        return None
    if "points" not in a:
        if set(a) != set(b):
            return f"files {sorted(b)} instead of {sorted(a)}"
        for f in a:
            if a[f] != b[f]:
                i = next((i for i in range(min(len(a[f]), len(b[f]))) if a[f][i] != b[f][i]), min(len(a[f]), len(b[f])))
                return f"{f} differs from byte {i}: {b[f][max(0, i - 20):i + 40]!r} instead of {a[f][max(0, i - 20):i + 40]!r} (lengths {len(b[f])}, {len(a[f])})"
        return None
    diffs = A.compare(a, b, parts=("points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets"), tol=0.0, dtypes=True)
    return "; ".join(m for _, m in diffs) or None


def run(case, ctx):
    import meshio

    if "seed" in case:
        env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]), MC_C16=case["f"])
        out = subprocess.run([sys.executable, "-W", "ignore", "-c", "import mc.props.c16 as c; c.fresh()"], cwd=core.VERIF, env=env, capture_output=True)
        if out.returncode:
            raise RuntimeError("fresh interpreter: " + out.stderr.decode()[-500:])
        got = pickle.loads(out.stdout)
        for key, g in got.items():
            ctx.step()
            d = same(ref(meshio, list(key), ctx), g)
            if d:
                ctx.fail("seed", f"{key} with hash seed {case['seed']}: {d}")
        ctx.trace()
        ctx.state(repr(case))
        ctx.outcome("seed")
        return
    x = case["x"]
    want = ref(meshio, x, ctx)
    if want[0] != "ok":
        ctx.fail("baseline", f"{x}: {want}")
        return
    src = source(meshio, x, ctx)
    if "dest" in case:
        dest(meshio, case, want, src, ctx)
    else:
        srcs = [source(meshio, y, ctx) for y in case["h"]]

        def go():
            for i, (y, s) in enumerate(zip(case["h"], srcs)):
                d = os.path.join(ctx.dir, f"h{i}")
                os.mkdir(d)
                do(meshio, y, d, s)
            d = os.path.join(ctx.dir, "x")
            os.mkdir(d)
            return do(meshio, x, d, src)

        got = child(go)
        d = same(want, got)
        if d:
            ctx.fail("history", f"{x} after {case['h']}: {d}")
        ctx.step(1 + len(case["h"]))
        ctx.outcome(f"{len(case['h'])}:{x[3]}")
    ctx.trace()
    ctx.state(repr(case))


def dest(meshio, case, want, src, ctx):
    x = case["x"]
    d = os.path.join(ctx.dir, "x")
    os.mkdir(d)
    names = list(want[1])

    def go():
        k = case["dest"]
        if k == "same":
            do(meshio, x, d, None)
        elif k == "other":
            o = [x[0], x[1], 1 - x[2] if len(menu(x[0])[x[1]]) > 1 else 0, "W"]
            do(meshio, o, d, None)
        elif k == "rich":
            p, c, m = mesh(meshio, x)
            m.point_data["stale"] = np.arange(1.0, len(m.points) + 1)
            m.cell_data["stale"] = [np.arange(1.0, len(b) + 1) for b in m.cells]
            try:
                p.write(meshio, p.path(d), m, c)
            except Exception:
                pass
        elif k == "garbage":
            for f in names:
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                with open(os.path.join(d, f), "wb") as h:
                    h.write(b"not a mesh\n" * 5000)
        else:
            # other files around
            for f in ("mesh.bak", "other.txt", "a.dat"):
                with open(os.path.join(d, f), "wb") as h:
                    h.write(b"keep\n")
        out = do(meshio, x, d, None)
        p, c, _ = mesh(meshio, x)
        return out, A.content_of(p.read(meshio, p.path(d), c))

    got = child(go)
    ctx.step(3)
    ctx.outcome("dest:" + case["dest"])
    if got[0] != "ok":
        ctx.fail("dest", f"{x} over {case['dest']}: {got}")
        return
    files, content = got[1]
    if case["dest"] == "dir":
        for f in ("mesh.bak", "other.txt", "a.dat"):
            if f not in names and files.pop(f, None) != b"keep\n":
                ctx.fail("dest", f"{x}: {f} in the same directory was changed or removed")
    if case["dest"] in ("other", "rich"):
        files = {k: v for k, v in files.items() if k in want[1]}
    e = same(want, ("ok", files)) or same(ref(meshio, [*x[:3], "R"], ctx), ("ok", content))
    if e:
        ctx.fail("dest", f"{x} over {case['dest']}: {e}")


def fresh():
    meshio = core.setup_import()
    import shutil
    import tempfile

    n = os.environ["MC_C16"]
    stdout = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    root = core.scratch_root()
    out = {}
    try:
        for i, op in enumerate(o for o in ops(n, True) if o[3] in "WR"):
            s = os.path.join(root, f"s{i}")
            d = os.path.join(root, f"d{i}")
            os.mkdir(s)
            os.mkdir(d)
            if op[3] == "R":
                child(lambda: do(meshio, [*op[:3], "W"], s, None))
            out[tuple(op)] = child(lambda: do(meshio, op, d, s))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    with os.fdopen(stdout, "wb") as h:
        h.write(pickle.dumps(out))
