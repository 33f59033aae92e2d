"""Command-line operations keep the mesh."""
import contextlib
import io
import itertools
import os
import re
import shutil

import numpy as np

from .. import alphabet as A
from .. import core
from . import c16, c17

PROP = "C22"
LEVEL = "model_checking"
RULE = (
    "every sequence of up to two (for one mesh: three) operations out of ascii, binary, compress, compress --max, decompress and convert (with and without --ascii) on every format that has them, "
    "from every encoding of the start, with the format named and not named, mesh and encoding compared after every operation; every operation on every other format (error, file untouched); "
    "convert over every pair of formats and set of flags against the library; info on every format x consistent / unused points / nonexistent points"
)
MIN_CASES = 10000
PROFS = c17.PROFS
OPS = ["ascii", "binary", "compress", "max", "decompress", "conv", "conva"]
# format -> operation -> the writer option that describes the encoding asked for
TAB = {
    "vtk": dict(ascii="vtk-asc", binary="vtk-bin", compress="vtk-bin", max="vtk-bin", conv="vtk-bin", conva="vtk-asc"),
    "vtu": dict(ascii="ascii", binary="bin-zlib", compress="bin-zlib", max="bin-lzma", decompress="bin-raw", conv="bin-zlib", conva="ascii"),
    "xdmf": dict(ascii="XML", binary="HDF", compress="HDF", max="HDF-9", decompress="HDF-raw", conv="HDF"),
    "gmsh": dict(ascii="41-asc", binary="41-bin", compress="41-bin", max="41-bin", conv="41-bin", conva="41-asc"),
    "ply": dict(ascii="asc", binary="bin", compress="bin", max="bin", conv="bin", conva="asc"),
    "stl": dict(ascii="asc", binary="bin", compress="bin", max="bin", conv="asc", conva="asc"),
    "ansys": dict(ascii="asc", binary="bin", compress="bin", max="bin", conv="bin", conva="asc"),
    "flac3d": dict(ascii="asc", binary="bin", conv="asc", conva="asc"),
    "cgns": dict(compress="", max="gz9", decompress="none", conv=""),
    "h5m": dict(compress="", max="", decompress="none", conv=""),
    "mdpa": dict(ascii="", conv="", conva=""),
}


def names():
    only = os.environ.get("MC_ONLY")
    return [n for n in PROFS if not only or n in only.split(",")]


_menu = {}


def menu(n):
    if n not in _menu:
        _menu[n] = list(c17.menu(PROFS[n], "quick"))
    return _menu[n]


def start_ok(n, c):
    # (MSH 4.1 wants the entities of the nodes as soon as there are several blocks: only a 4.1 file has them)
    return n != "gmsh" or c["o"].startswith("41") or len(c.get("b", [1])) == 1


def cases(tier):
    for n in names():
        if n in TAB:
            for i, c in enumerate(menu(n)):
                if not start_ok(n, c):
                    continue
                for how in ("i", ""):
                    for s in itertools.product(OPS, repeat=2):
                        yield {"f": n, "m": i, "seq": list(s), "how": how}
            done = set()
            for i, c in enumerate(menu(n)):
                if start_ok(n, c) and (tier == "thorough" or c["o"] not in done):
                    done.add(c["o"])
                    for s in itertools.product([x for x in OPS if x in TAB[n]], repeat=3):
                        if len(set(s)) > 1:
                            yield {"f": n, "m": i, "seq": list(s), "how": "i"}
        else:
            for i, c in enumerate(menu(n)):
                for op in OPS[:5]:
                    for how in ("i", ""):
                        yield {"f": n, "m": i, "seq": [op], "how": how}
        for i, c in enumerate(menu(n)):
            for k in ("ok", "unused", "range", "neg", "both"):
                for how in ("i", ""):
                    yield {"f": n, "m": i, "info": k, "how": how}
        for n2 in PROFS:
            for fl in FLAGS:
                yield {"f": n, "g": n2, "fl": fl}


FLAGS = [[], ["-a"], ["-s"], ["-d"], ["-f", ".9e"], ["-s", "-d"], ["-a", "-f", ".5e"]]


def cli(argv):
    """-> (exit code, exception or None, text)"""
    from meshio._cli import main

    out = io.StringIO()
    n0 = len(core.CONSOLE)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            rc = main(argv)
        exc = None
        rc = 0 if rc is None else rc
    except SystemExit as e:
        rc, exc = (0 if e.code is None else e.code), None
    except Exception as e:
        rc, exc = 1, e
    return rc, exc, out.getvalue() + "\n".join(core.CONSOLE[n0:])


def texty(path):
    b = open(path, "rb").read()
    return all(32 <= x < 127 or x in (9, 10, 13) for x in b)


def encoding(n, path, op, ctx):
    """is the file in the encoding that was asked for?"""
    import h5py

    t = TAB[n]
    bad = None
    raw = open(path, "rb").read()
    if n == "vtu":
        comp = b"vtkLZMADataCompressor" if op == "max" else b"vtkZLibDataCompressor" if op == "compress" else None
        if op == "ascii":
            bad = b'format="binary"' in raw or b'format="appended"' in raw
        elif op == "decompress":
            bad = b"compressor=" in raw or b'format="ascii"' in raw
        elif comp:
            bad = comp not in raw or b'format="ascii"' in raw
    elif n in ("xdmf", "cgns", "h5m"):
        if n == "xdmf" and op == "ascii":
            bad = b'"HDF"' in raw or b'"Binary"' in raw
        elif op in ("compress", "max", "decompress", "binary"):
            if n == "xdmf" and b'"HDF"' not in raw:
                bad = True
            else:
                seen = set()

                def visit(_, x):
                    if isinstance(x, h5py.Dataset) and x.size > 1 and x.dtype.kind in "iuf":
                        seen.add((x.compression, x.compression_opts))

                with h5py.File(os.path.splitext(path)[0] + ".h5" if n == "xdmf" else path, "r") as h:
                    h.visititems(visit)
                if op == "decompress":
                    bad = any(c for c, _ in seen)
                elif op != "binary":
                    bad = ("gzip", 9 if op == "max" else 4) not in seen
    elif op in ("ascii", "conva") and op in t:
        bad = not texty(path)
    elif op in ("binary", "compress", "max") and op in t:
        bad = texty(path)
    if bad:
        ctx.fail("encoding", f"{op}: the file is not in the encoding that was asked for")


def compare(n, c1, c2, o2, case, first):
    p = PROFS[n]
    case2 = dict(case, o=o2 if o2 in p.opts else first)
    if n == "gmsh":
        ref = c1
        if "gmsh:dim_tags" not in c1["point_data"]:  # (only a 4.1 file has them)
            ref, c2 = dict(c1), dict(c2)
            for c in (ref, c2):
                for k in ("point_data", "cell_data"):
                    c[k] = {a: v for a, v in c[k].items() if not a.startswith("gmsh:")}
        parts = ("points", "cells", "point_data", "cell_data", "field_data")
    else:
        if n == "stl":
            for c in (c1, c2):
                c["cell_data"].pop("facet_normals", None)
        ref = p.expected(c1, case2)
        parts = p.parts
    tol = p.tolerances(case2)
    if c1["points"].dtype.itemsize == 4 and not tol["tol"]:
        tol["tol"] = 1e-7
    return A.compare(ref, c2, parts=parts, extra_ok=p.extra_ok, **tol)


def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in c17.files(d)}


def put(meshio, n, case, d, mesh=None):
    p = PROFS[n]
    os.makedirs(d)
    path = p.path(d)
    p.write(meshio, path, p.mesh(meshio, p.content(case), case) if mesh is None else mesh, case)
    return path if os.path.exists(path) else os.path.join(d, c17.files(d)[0])


def target(n, d):
    p = PROFS[n].path(d)
    return p if p.endswith(PROFS[n].ext) else p + PROFS[n].ext


def fmt(n):
    """meshio's name of the format"""
    return PROFS[n].file_format or n


def named(n, path):
    """the format is not named on the command line: can it be deduced?"""
    from meshio._helpers import _filetypes_from_path
    import pathlib

    try:
        return _filetypes_from_path(pathlib.Path(path))
    except Exception:
        return []


def run_seq(meshio, case, ctx):
    n = case["f"]
    c = menu(n)[case["m"]]
    p = PROFS[n]
    d = os.path.join(ctx.dir, "w")
    path = put(meshio, n, c, d)
    inn = ["-i", fmt(n)] if case["how"] else []
    if not inn and fmt(n) not in named(n, path):
        ctx.outcome("not-deduced")
        return
    before = A.content_of(p.read(meshio, path, c)) if n in TAB else None
    for op in case["seq"]:
        snap = snapshot(d)
        if op in ("conv", "conva"):
            e = os.path.join(ctx.dir, "x")
            shutil.rmtree(e, ignore_errors=True)
            os.makedirs(e)
            new = os.path.join(e, os.path.basename(path))
            rc, exc, text = cli(["convert"] + inn + ["-o", fmt(n), path, new] + (["--ascii"] if op == "conva" else []))
        else:
            rc, exc, text = cli([op if op != "max" else "compress"] + inn + ([] if op != "max" else ["--max"]) + [path])
        ctx.step()
        if op not in TAB.get(n, {}):
            if rc == 0:
                ctx.fail("accepted", f"{op} on a {n} file succeeded")
                return
            if snapshot(d) != snap:
                ctx.fail("touched", f"{op} is not for {n}, but changed the file")
                return
            continue
        if rc != 0:
            ctx.fail("refused", f"{op} on {n} after {case['seq']}: exit {rc} {type(exc).__name__}: {exc} {text[-300:]}")
            return
        if op in ("conv", "conva"):
            if snapshot(d) != snap:
                ctx.fail("touched", "convert changed its input")
                return
            shutil.rmtree(d)
            os.rename(e, d)
        encoding(n, path, op, ctx)
        now = A.content_of(p.read(meshio, path, c))
        for sig, msg in compare(n, before, now, TAB[n][op], c, c["o"]):
            ctx.fail(sig, f"after {op} in {case['seq']}: {msg}")
            return
        before = now
        ctx.trace()
    ctx.outcome(f"{n}:{len(case['seq'])}")


def run_info(meshio, case, ctx):
    n = case["f"]
    c = menu(n)[case["m"]]
    p = PROFS[n]
    content = p.content(c)
    k = case["info"]
    m = p.mesh(meshio, content, c)
    npts = len(m.points)
    if k in ("unused", "both"):
        # the last node of the last block is not used any more
        x = np.array(m.cells[-1].data)
        last = x.max()
        for b in m.cells:
            y = np.array(b.data)
            y[y == last] = y.min()
            b.data = y
    if k in ("range", "both", "neg"):
        x = np.array(m.cells[-1].data).astype(int)
        x[-1, -1] = npts + 2 if k != "neg" else -1
        m.cells[-1].data = x
    try:
        path = put(meshio, n, c, os.path.join(ctx.dir, "w"), m)
    except Exception:
        ctx.outcome(f"{n}:info:not-written")
        return
    inn = ["-i", fmt(n)] if case["how"] else []
    if not inn and fmt(n) not in named(n, path):
        ctx.outcome("not-deduced")
        return
    try:
        r = meshio.read(path, fmt(n) if inn else None)
    except (Exception, SystemExit):
        ctx.outcome(f"{n}:info:not-read")
        return
    ctx.step(2)
    rc, exc, text = cli(["info"] + inn + [path])
    if rc != 0:
        ctx.fail("info", f"exit {rc} {type(exc).__name__}: {exc} {text[-200:]}")
        return
    N = len(r.points)
    idx = np.concatenate([np.asarray(b.data).astype(int).ravel() for b in r.cells]) if r.cells else np.zeros(0, int)
    wild = bool(((idx < 0) | (idx >= N)).any())
    lonely = not wild and len(np.unique(idx)) < N
    says_wild = "nonexistent points" in text
    says_lonely = "not part of any cell" in text
    if says_wild != wild:
        ctx.fail("info-range", f"cells refer to nonexistent points: {wild}, reported: {says_wild}")
    if says_lonely != lonely:
        ctx.fail("info-unused", f"points that are not part of any cell: {lonely}, reported: {says_lonely}")
    want = [rf"Number of points: {N}\b"] + [rf"\b{b.type}(\(\d+\))?: {len(b.data)}\b" for b in r.cells]
    for w in want + [re.escape(k) for k in [*r.point_data, *r.cell_data, *r.field_data]]:
        if not re.search(w, text):
            ctx.fail("info-text", f"'{w}' is not reported: {text[:400]}")
    ctx.trace()
    ctx.outcome(f"{n}:info:{wild}:{lonely}")


def run_conv(meshio, case, ctx):
    """convert against read, the same conversions of sets, and write with the library"""
    n, g, fl = case["f"], case["g"], case["fl"]
    c = menu(n)[-1]
    src = put(meshio, n, c, os.path.join(ctx.dir, "w"))
    d1, d2 = os.path.join(ctx.dir, "1"), os.path.join(ctx.dir, "2")
    os.mkdir(d1)
    os.mkdir(d2)
    o1, o2 = target(g, d1), target(g, d2)

    def ref():
        m = meshio.read(src, fmt(n))
        if "-s" in fl:
            m.point_sets_to_data()
            m.cell_sets_to_data()
        if "-d" in fl:
            for key in [k for k, v in m.point_data.items() if v.dtype.kind in "iu"]:
                m.point_data_to_sets(key)
            for key in [k for k, v in m.cell_data.items() if all(x.dtype.kind in "iu" for x in v)]:
                m.cell_data_to_sets(key)
        kw = {}
        if "-f" in fl:
            kw["float_fmt"] = fl[fl.index("-f") + 1]
        if "-a" in fl:
            kw["binary"] = False
        meshio.write(o2, m, fmt(g), **kw)

    try:
        ref()
        ok = True
    except (Exception, SystemExit) as e:
        ok = False
        why = e
    rc, exc, text = cli(["convert", "-i", fmt(n), "-o", fmt(g), src, o1] + fl)
    ctx.step(2)
    if (rc == 0) != ok:
        ctx.fail("convert-outcome", f"convert {n}->{g} {fl}: exit {rc} ({exc}), the library: {'fine' if ok else repr(why)}")
    elif ok:
        a, b = c16.grab(d1), c16.grab(d2)
        if a != b:
            f = next((x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)))
            ctx.fail("convert-bytes", f"convert {n}->{g} {fl}: {f} differs from what the library writes")
        ctx.trace()
    ctx.outcome(f"convert:{ok}")


def run(case, ctx):
    import meshio

    if "seq" in case:
        run_seq(meshio, case, ctx)
    elif "info" in case:
        run_info(meshio, case, ctx)
    else:
        run_conv(meshio, case, ctx)
    ctx.state(repr(sorted((k, str(v)) for k, v in case.items())))
