"""Paths, path objects and open buffers are interchangeable."""
import contextlib
import io
import os
import pathlib

from .. import alphabet as A
from . import c16, c17

PROP = "C21"
LEVEL = "model_checking"
RULE = (
    "every format, option and mesh of the menu x every way to name the file (string, relative, path object, path-like, through the methods of Mesh and the format's module) x a menu of file names and directories, "
    "writing and reading; every open buffer (bytes or text, in memory or a file, from the start or from a later position) for writing and reading: formats that support it give the same bytes and mesh and leave the "
    "buffer open, all others raise; compared with the plain string path"
)
MIN_CASES = 5000
PROFS = c17.PROFS
HOWS = ["abs", "rel", "path", "relpath", "like", "dot"]
NAMES = ["mesh", "a b", "a.b", "v1.0.2", "MESH", "\u00fcml\u00e4ut", "x" * 60, "-dash", "a.vtk", "p%d", "k'q", "(1)", "é.h5", "[x]", "a:b", "m#1", "~t"]
DIRS = ["", "sub dir", "d.h5", "d.e"]
BUFS = ["bytes", "text", "fileb", "filet"]
_menu = {}
# buffers the readers and writers support (format, option -> ways), as found in the code
from .c21_table import READ, WRITE  # noqa: E402


class Like:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def menu(n):
    if n not in _menu:
        _menu[n] = [c for c in c17.menu(PROFS[n], "quick") if not c["o"].startswith("40-")]  # (MSH 4.0 has no format name)
    return _menu[n]


def tail(n, o):
    """extension of the file"""
    p = PROFS[n]
    if n == "medit":
        return ".meshb" if o == "bin" else ".mesh"
    if n == "netgen":
        return ".vol.gz" if o == "gz" else ".vol"
    if n == "ugrid":
        return ("." + o if o != "ascii" else "") + ".ugrid"
    if n == "tetgen":
        return ".node" if o == "node" else ".ele"
    return p.ext


def call(n, o):
    """format name and writer arguments"""
    p = PROFS[n]
    if n == "vtk":
        return p.opts[o]
    if n == "gmsh":
        v, b = p.opts[o]
        return {"2.2": "gmsh22", "4.1": "gmsh"}[v], dict(binary=b)
    if n in ("medit", "ugrid"):
        return p.file_format, {}
    return p.file_format, p.opts[o]


def cases(tier):
    only = os.environ.get("MC_ONLY")
    for n, p in PROFS.items():
        if only and n not in only.split(","):
            continue
        seen = set()
        for i, c in enumerate(menu(n)):
            first = c["o"] not in seen
            seen.add(c["o"])
            if n == "med" and c.get("ff"):
                continue
            for h in HOWS:
                yield {"f": n, "m": i, "how": h}
            if first or tier == "thorough":
                for name in NAMES:
                    for d in DIRS if name in NAMES[:2] or tier == "thorough" else [""]:
                        for up in (0, 1):
                            if up and n in ("ugrid", "tetgen"):
                                continue  # (their extensions are case-sensitive)
                            yield {"f": n, "m": i, "how": "abs", "name": name, "dir": d, "up": up}
            for b in BUFS if c["o"] in BUFOPT.get(n, [c["o"]]) else []:
                for off in (0, 37):
                    yield {"f": n, "m": i, "buf": b, "off": off, "k": "W"}
                    yield {"f": n, "m": i, "buf": b, "off": off, "k": "R"}
            for v in ("mesh.write", "module", "wpc"):
                yield {"f": n, "m": i, "via": v}


def mesh(meshio, n, c):
    p = PROFS[n]
    return p.mesh(meshio, p.content(c), c)


def reference(meshio, n, c, d):
    os.makedirs(d)
    f = os.path.join(d, "mesh" + tail(n, c["o"]))
    fmt, kw = call(n, c["o"])
    meshio.write(f, mesh(meshio, n, c), fmt, **kw)
    return f


def rfmt(n):
    return PROFS[n].file_format or n


def read(meshio, f, n):
    with contextlib.redirect_stdout(io.StringIO()):
        return A.content_of(meshio.read(f, rfmt(n)))


def same(a, b):
    out = list(A.compare(a, b, parts=("points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets"), tol="bits", data_tol="bits", dtypes=True))
    return out[0] if out else None


def passed(f, how, base):
    if how in ("rel", "relpath"):
        f = os.path.relpath(f)
    if how == "dot":
        return os.path.join(os.path.dirname(f), ".", os.path.basename(f))
    if how in ("path", "relpath"):
        return pathlib.Path(f)
    if how == "like":
        return Like(f)
    return f


def run_path(meshio, case, ctx):
    n = case["f"]
    c = menu(n)[case["m"]]
    f1 = reference(meshio, n, c, os.path.join(ctx.dir, "1"))
    ref = read(meshio, f1, n)
    name, up = case.get("name", "mesh"), case.get("up", 0)
    d = os.path.join(ctx.dir, "2", case.get("dir", ""))
    os.makedirs(d)
    t = tail(n, c["o"])
    f2 = os.path.join(d, name + (t.upper() if up else t))
    fmt, kw = call(n, c["o"])
    x = passed(f2, case["how"], ctx.dir)
    # for reading, the format is found by the extension; gmsh and ansys share one, and vtk has several versions
    meshio.write(x, mesh(meshio, n, c), fmt, **kw)
    ctx.step()
    if name == "mesh" and not case.get("dir") and not up:
        a, b = c16.grab(os.path.dirname(f1)), c16.grab(d)
        if a != b:
            w = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
            ctx.fail("bytes", f"the files {w} differ from those written to a string path")
            return
    elif not os.path.exists(f2):
        ctx.fail("name", f"wrote {c17.files(os.path.join(ctx.dir, '2'))} instead of {os.path.relpath(f2, ctx.dir)}")
        return
    for ff in (rfmt(n), None) if n != "neuroglancer" else (rfmt(n),):
        with contextlib.redirect_stdout(io.StringIO()):
            got = A.content_of(meshio.read(passed(f2, case["how"], ctx.dir), ff))
        ctx.step()
        s = same(ref, got)
        if s:
            ctx.fail(s[0], f"read with format {ff}: {s[1]}")
            return
    ctx.trace()


def run_via(meshio, case, ctx):
    n = case["f"]
    c = menu(n)[case["m"]]
    f1 = reference(meshio, n, c, os.path.join(ctx.dir, "1"))
    d = os.path.join(ctx.dir, "2")
    os.makedirs(d)
    f2 = os.path.join(d, "mesh" + tail(n, c["o"]))
    fmt, kw = call(n, c["o"])
    m = mesh(meshio, n, c)
    v = case["via"]
    got = None
    if v == "mesh.write":
        m.write(f2, fmt, **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            got = A.content_of(meshio.Mesh.read(f2, rfmt(n)))
    elif v == "wpc":
        if m.gmsh_periodic is not None or getattr(m, "cell_tags", None) or n in ("med", "permas"):
            ctx.outcome("more-than-arguments")
            return
        meshio.write_points_cells(f2, m.points, m.cells, m.point_data, m.cell_data, m.field_data, m.point_sets, m.cell_sets, fmt, **kw)
    else:
        mod = getattr(meshio, {"dolfin-xml": "dolfin"}.get(rfmt(n), rfmt(n)))
        if n == "vtk":
            kw = dict(kw, fmt_version={"vtk": "5.1", "vtk42": "4.2", "vtk51": "5.1"}[fmt])
        if n == "gmsh":
            kw = dict(kw, fmt_version={"gmsh22": "2.2", "gmsh": "4.1"}[fmt])
        mod.write(f2, m, **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            got = A.content_of(mod.read(f2))
    ctx.step()
    a, b = c16.grab(os.path.dirname(f1)), c16.grab(d)
    if a != b:
        w = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        ctx.fail("bytes", f"{v}: the files {w} differ from those of meshio.write")
        return
    if got is not None:
        s = same(read(meshio, f1, n), got)
        if s:
            ctx.fail(s[0], f"{v}: {s[1]}")
    ctx.trace()


PREFIX = b"# 2345678901234567890123456789012345\n"


def buffer(kind, data, path, mode):
    """an open buffer that holds data, at its start"""
    if kind == "bytes":
        return io.BytesIO(data)
    if kind == "text":
        return io.StringIO(data.decode("utf-8"))
    with open(path, "wb") as h:
        h.write(data)
    if kind == "fileb":
        return open(path, "r+b")
    return open(path, "r+", encoding="utf-8", newline="" if mode == "W" else None)


def attempt(meshio, n, c, kind, off, k, dirname):
    """-> ("raised", text) | ("wrong", text) | ("ok", None)"""
    f1 = reference(meshio, n, c, os.path.join(dirname, "1"))
    raw = open(f1, "rb").read()
    d = os.path.join(dirname, "2")
    os.makedirs(d)
    old = os.getcwd()
    os.chdir(d)
    pre = PREFIX[:off]
    try:
        if k == "R":
            ref = read(meshio, f1, n)
            try:
                data = pre + raw
                b = buffer(kind, data, os.path.join(dirname, "buf"), k)
                if off:
                    b.read(off)
                r = read(meshio, b, n)
            except (Exception, SystemExit) as e:
                return "raised", f"{type(e).__name__}: {e}"
            if b.closed:
                return "wrong", "the buffer was closed"
            b.close()
            s = same(ref, r)
            return ("wrong", f"{s[0]}: {s[1]}") if s else ("ok", None)
        fmt, kw = call(n, c["o"])
        try:
            b = buffer(kind, pre, os.path.join(dirname, "buf"), k)
            b.read()
            if kind == "filet":
                b.seek(0, 2)
            meshio.write(b, mesh(meshio, n, c), fmt, **kw)
        except (Exception, SystemExit) as e:
            return "raised", f"{type(e).__name__}: {e}"
        if b.closed:
            return "wrong", "the buffer was closed"
        b.flush()
        if kind in ("bytes", "text"):
            got = b.getvalue()
            got = got if kind == "bytes" else got.encode()
        else:
            b.close()
            got = open(os.path.join(dirname, "buf"), "rb").read()
        if os.listdir(d):
            return "wrong", f"a buffer was given, but the files {os.listdir(d)} were written"
        os.chdir(old)
        os.makedirs(os.path.join(dirname, "3"))
        os.makedirs(os.path.join(dirname, "4"))
        name = os.path.basename(f1)
        with open(os.path.join(dirname, "3", name), "wb") as h:
            h.write(got[len(pre):])
        with open(os.path.join(dirname, "4", name), "wb") as h:
            h.write(raw)
        if not got.startswith(pre):
            return "wrong", "what the buffer held before was overwritten"
        if n in HDF:
            s = same(read(meshio, f1, n), read(meshio, os.path.join(dirname, "3", name), n))
            return ("wrong", f"{s[0]}: {s[1]}") if s else ("ok", None)
        a, e = c16.grab(os.path.join(dirname, "3")), c16.grab(os.path.join(dirname, "4"))
        return ("ok", None) if a == e else ("wrong", f"{len(got)} bytes differ from those written to a path ({len(raw)})")
    finally:
        os.chdir(old)


def run_buf(meshio, case, ctx):
    n, k = case["f"], case["k"]
    c = menu(n)[case["m"]]
    if n in HDF and (case["off"] or case["buf"] in ("text", "filet")):
        ctx.outcome("hdf5-positions")  # (h5py addresses from the start of the file)
        return
    res, why = attempt(meshio, n, c, case["buf"], case["off"], k, ctx.dir)
    ctx.step(2)
    tab = READ if k == "R" else WRITE
    sup = case["buf"] + ("+" if case["off"] else "") in tab.get((n, c["o"]), "").split()
    if res == "wrong":
        ctx.fail("buffer-wrong", f"{k} {case['buf']} at {case['off']}: {why}")
    elif sup and res != "ok":
        ctx.fail("buffer-refused", f"{k} {case['buf']} at {case['off']}: {why}")
    ctx.outcome(f"{k}:{res}")
    ctx.trace()


# the name of the file decides the encoding of these; a buffer has none
BUFOPT = {"medit": ["asc"], "ugrid": ["ascii"], "netgen": ["", "12"]}
HDF = ("med", "cgns", "h5m", "hmf")


def run(case, ctx):
    import meshio

    if "how" in case:
        run_path(meshio, case, ctx)
    elif "via" in case:
        run_via(meshio, case, ctx)
    else:
        run_buf(meshio, case, ctx)
    ctx.state(repr(sorted((k, str(v)) for k, v in case.items())))
