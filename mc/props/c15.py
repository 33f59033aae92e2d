"""The registry of formats: all histories of registering and deregistering, and the built-in table."""
import io
import itertools
import os
import pathlib

import numpy as np

from .. import alphabet as A
from ..fmt import decks, gmsh, hdf, misc, surface, vtk, xdmf

PROP = "C15"
LEVEL = "model_checking"
RULE = (
    "every history of up to four (thorough: five) registrations, deregistrations and uses over six registrations with overlapping extensions, replaced readers, several "
    "writers and failing readers; in the state reached, every read and write query (extensions in several spellings, explicit formats, buffers) on the real "
    "registry is compared with the model; then every built-in format and extension"
)
MIN_CASES = 22000

# name, extensions, reader, writers. reader/writer ids are looked up in the model
REG = {
    "A": ("A", [".a", ".x"], "rA", ["A", "A2"]),
    "A'": ("A", [".a", ".x"], "rA'", ["A"]),
    "B": ("B", [".x", ".b.gz"], "rB", ["B"]),
    "C": ("C", [".c"], None, ["C", "C9"]),
    "D": ("D", [".x", ".gz"], "rD", []),
    "E": ("E", [], "rE", ["E", "A2"]),
}
DER = ["A", "B", "C", "D", "E", "nope"]
# contents each reader rejects with ReadError
REJECT = {"rA": "23", "rA'": "3", "rB": "13", "rD": "2", "rE": ""}
ACTIONS = [["r", k] for k in REG] + [["d", k] for k in DER] + [["u", ""]]
# what the user gets without naming a format
BUILTIN = {
    ".msh": ["ansys", "gmsh"], ".f3grid": ["flac3d"], ".mdpa": ["mdpa"], ".ply": ["ply"], ".stl": ["stl"], ".vtk": ["vtk"], ".vtu": ["vtu"],
    ".xdmf": ["xdmf"], ".xmf": ["xdmf"], ".cgns": ["cgns"], ".h5m": ["h5m"], ".inp": ["abaqus"], ".avs": ["avsucd"], ".xml": ["dolfin-xml"],
    ".e": ["exodus"], ".exo": ["exodus"], ".ex2": ["exodus"], ".hmf": ["hmf"], ".med": ["med"], ".mesh": ["medit"], ".meshb": ["medit"],
    ".bdf": ["nastran"], ".fem": ["nastran"], ".nas": ["nastran"], ".vol": ["netgen"], ".vol.gz": ["netgen"], ".obj": ["obj"], ".off": ["off"],
    ".post": ["permas"], ".post.gz": ["permas"], ".dato": ["permas"], ".dato.gz": ["permas"], ".su2": ["su2"], ".svg": ["svg"],
    ".dat": ["tecplot"], ".tec": ["tecplot"], ".ele": ["tetgen"], ".node": ["tetgen"], ".ugrid": ["ugrid"], ".wkt": ["wkt"],
}
MAGIC = {  # how a file of the format starts
    "vtk": b"# vtk DataFile Version 5.1", "vtk42": b"# vtk DataFile Version 4.2", "vtk51": b"# vtk DataFile Version 5.1",
    "gmsh": b"$MeshFormat\n4.1 ", "gmsh22": b"$MeshFormat\n2.2 ", "vtu": b"<VTKFile", "xdmf": b"<Xdmf", "ply": b"ply\n", "off": b"OFF",
    "cgns": b"\x89HDF", "h5m": b"\x89HDF", "hmf": b"\x89HDF", "med": b"\x89HDF", "exodus": b"\x89HDF", "svg": b"<svg", "dolfin-xml": b"<dolfin",
    "wkt": b"TIN", "ansys": b"(2 ", "mdpa": b"Begin ModelPartData", "nastran": b"BEGIN BULK", "su2": b"NDIME", "netgen": b"mesh3d",
    "flac3d": None, "abaqus": b"*NODE", "permas": b"$", "avsucd": None, "tecplot": b"VARIABLES", "obj": b"v ", "medit": None, "stl": None,
    "tetgen": None, "ugrid": None, "neuroglancer": None,
}
PROFS = {p.name: p for m in (vtk, gmsh, xdmf, surface, decks, hdf, misc) for p in m.PROFILES}
PNAME = {"dolfin-xml": "dolfin", "vtk42": "vtk", "vtk51": "vtk", "gmsh22": "gmsh"}


def cases(tier):
    for n in range(5 if tier == "quick" else 6):
        for h in itertools.product(range(len(ACTIONS)), repeat=n):
            yield {"k": "hist", "h": list(h)}
    for ext, fmts in BUILTIN.items():
        for stem in ("mesh", "m.e.s.h", "UPPER"):
            yield {"k": "ext", "ext": ext, "stem": stem}
    for f in MAGIC:
        yield {"k": "name", "fmt": f}


class Model:
    def __init__(self):
        self.ext = {}
        self.readers = {}
        self.writers = {}

    def register(self, name, exts, reader, writers, rid):
        for e in exts:
            lst = self.ext.setdefault(e, [])
            if name not in lst:
                lst.append(name)
        if reader is not None:
            self.readers[name] = reader
        for w in writers:
            self.writers[w] = (f"w:{rid}:{w}", name)

    def deregister(self, name):
        for lst in self.ext.values():
            if name in lst:
                lst.remove(name)
        self.readers.pop(name, None)
        for w in [w for w, (_, o) in self.writers.items() if o == name]:
            del self.writers[w]

    def candidates(self, fname):
        sufs = pathlib.PurePath(fname).suffixes
        out = []
        ext = ""
        for s in reversed(sufs):
            ext = (s + ext).lower()
            out += [x for x in self.ext.get(ext, []) if x not in out]
        return out


def hist(case, ctx):
    import meshio

    uid = f"q{os.getpid()}"
    log = []

    def rd(rid):
        def read(f):
            log.append(rid)
            if hasattr(f, "read"):
                c = f.read()
            else:
                with open(f) as fh:
                    c = fh.read()
            if c in REJECT[rid]:
                raise meshio.ReadError(rid)
            return meshio.Mesh(np.zeros((1, 3)), [], info=rid)
        return read

    def wr(wid):
        def write(f, mesh, **kw):
            log.append((wid, str(f) if not hasattr(f, "write") else "buf", kw))
        return write

    # built-in names must not interfere: everything gets a suffix of its own
    N = lambda n: n + uid
    X = lambda e: "".join("." + p + uid for p in e[1:].split("."))
    M = Model()
    mesh = meshio.Mesh(np.zeros((3, 3)), [("triangle", np.array([[0, 1, 2]]))])
    builtin = {e: list(v) for e, v in meshio.extension_to_filetypes.items() if uid not in e and v}
    try:
        for a in case["h"]:
            op, k = ACTIONS[a]
            ctx.step()
            if op == "r":
                name, exts, reader, writers = REG[k]
                meshio.register_format(N(name), [X(e) for e in exts], None if reader is None else rd(reader),
                                       {N(w): wr(f"w:{k}:{w}") for w in writers})
                M.register(name, exts, reader, writers, k)
            elif op == "d":
                meshio.deregister_format(N(k))
                M.deregister(k)
            else:  # use the registry: that leaves it as it is
                for ext in (".b.gz", ".x", ".a"):
                    with open("u" + X(ext), "w") as f:
                        f.write("2")
                    check_read(ctx, meshio, M, log, "u" + X(ext), None, M.candidates("f" + ext), "2")
                    c = M.candidates("f" + ext)
                    check_write(ctx, meshio, log, mesh, "out" + X(ext), None, M.writers.get(c[0]) if c else None)
        # reading
        for cont in "123":
            for stem, ext in (("f", ".a"), ("f", ".x"), ("f.q", ".x"), ("g", ".b.gz"), ("g", ".gz"), ("h", ".c"), ("h", ".none"), ("h", "")):
                for up in (False, True):
                    e = X(ext) if ext else ""
                    fn = stem + cont + (e.upper() if up else e)
                    with open(fn, "w") as f:
                        f.write(cont)
                    cands = [c for c in M.candidates("f" + ext)]
                    check_read(ctx, meshio, M, log, fn, None, cands, cont)
                os.remove(fn)
        with open("plain", "w") as f:
            f.write("2")
        for n in "ABCDE":
            check_read(ctx, meshio, M, log, "plain", N(n), [n], "2")
        check_read(ctx, meshio, M, log, "plain", N("zzz"), ["zzz"], "2")
        for n in "ABE":
            for cont in "12":
                del log[:]
                ctx.step()
                try:
                    got = meshio.read(io.StringIO(cont), N(n)).info
                except meshio.ReadError:
                    got = None
                r = M.readers.get(n)
                exp = r if r and cont not in REJECT[r] else None
                if got != exp:
                    ctx.fail("read-buffer", f"buffer as {n}: {got}, expected {exp}")
        # writing
        for ext in (".a", ".x", ".b.gz", ".gz", ".c", ".none"):
            for up in (False, True):
                e = X(ext)
                fn = "out" + (e.upper() if up else e)
                c = M.candidates("f" + ext)
                w = M.writers.get(c[0]) if c else None
                for arg in (fn, pathlib.Path(fn)):
                    check_write(ctx, meshio, log, mesh, arg, None, w)
        for n in ("A", "A2", "B", "C", "C9", "D", "E", "zzz"):
            w = M.writers.get(n)
            check_write(ctx, meshio, log, mesh, "out.vtk", N(n), w)
            check_write(ctx, meshio, log, mesh, io.BytesIO(), N(n), w)
        for call in (lambda: meshio.read(io.StringIO("1")), lambda: meshio.write(io.BytesIO(), mesh), lambda: meshio.read("absent" + X(".a"))):
            try:
                call()
                ctx.fail("no-error", "a buffer without a format or an absent file was accepted")
            except (meshio.ReadError, meshio.WriteError):
                pass
        now = {e: list(v) for e, v in meshio.extension_to_filetypes.items() if uid not in e and v}
        if now != builtin:
            ctx.fail("builtin", f"other formats changed: {now}, expected {builtin}")
    finally:
        for n in "ABCDE":
            for _ in range(2):
                meshio.deregister_format(N(n))
    ctx.trace()
    ctx.state(repr((sorted((k, tuple(v)) for k, v in M.ext.items() if v), sorted(M.readers.items()), sorted(M.writers.items()))))
    ctx.outcome("history")


def check_read(ctx, meshio, M, log, fn, fmt, cands, cont):
    del log[:]
    ctx.step()
    try:
        got = ("mesh", meshio.read(fn, fmt).info)
    except meshio.ReadError:
        got = ("error", None)
    except SystemExit:
        got = ("error", None)
    calls = list(dict.fromkeys(log))
    exp = None
    ecalls = []
    for c in cands:
        r = M.readers.get(c)
        if r is None:
            # (a candidate that cannot read: whether the next one is tried is not laid down)
            if got[0] == "error":
                return
            continue
        ecalls.append(r)
        if cont not in REJECT[r]:
            exp = r
            break
    e = ("mesh", exp) if exp else ("error", None)
    if got != e or calls != ecalls:
        ctx.fail("read", f"{fn} as {fmt}: {got} after trying {calls}, expected {e} after {ecalls}")


def check_write(ctx, meshio, log, mesh, arg, fmt, w):
    del log[:]
    ctx.step()
    try:
        meshio.write(arg, mesh, fmt, opt=17)
        got = log[0] if len(log) == 1 else tuple(log)
    except (meshio.WriteError, meshio.ReadError):
        got = None if not log else tuple(log)
    exp = None if w is None else (w[0], "buf" if hasattr(arg, "write") else str(arg), {"opt": 17})
    if got != exp:
        ctx.fail("write", f"{arg} as {fmt}: {got}, expected {exp}")


def content(f):
    p = PROFS.get(PNAME.get(f, f))
    if f == "svg":
        return p, A.build({"d": 2, "b": [["triangle", 2]]})
    bb = p.bb or [p.blocks()[0]]
    for b in bb:
        c = {"b": b, "o": list(p.opts)[0]}
        for k, v in p.base.items():
            c.setdefault(k, v)
        if p.admissible(c):
            return p, A.build(c)
    raise AssertionError(f)


def kinds(m):
    return dict(points=np.asarray(m.points), cells=[(c.type, c.data if isinstance(c.data, list) else np.asarray(c.data)) for c in m.cells],
                point_data=dict(m.point_data), cell_data=dict(m.cell_data), field_data={}, point_sets={}, cell_sets={})


def sniff(ctx, fn, fmt):
    mg = MAGIC[fmt]
    raw = open(fn, "rb").read()
    if raw[:2] == b"\x1f\x8b":
        import gzip
        raw = gzip.decompress(raw)
    if mg is not None and mg not in raw[:400]:
        ctx.fail("format", f"{fn} starts with {raw[:40]!r}, expected {fmt}")


def ext(case, ctx):
    import meshio

    e = case["ext"]
    names = BUILTIN[e]
    got = list(meshio.extension_to_filetypes.get(e, []))
    if got != names:
        ctx.fail("table", f"{e}: {got}, expected {names}")
        return
    up = case["stem"] == "UPPER" and e not in (".meshb", ".vol.gz", ".post.gz", ".dato.gz", ".ele", ".node")
    fn = case["stem"] + (e.upper() if up else e)
    _, c = content(names[0])
    ctx.step(2)
    meshio.write(fn, A.to_mesh(meshio, c))
    if not (names[0] == "permas" or e in (".node",)):
        sniff(ctx, fn, names[0])
    os.makedirs("ref")
    ref = os.path.join("ref", fn)
    meshio.write(ref, A.to_mesh(meshio, c), names[0])
    if names[0] == "svg":
        if open(fn, "rb").read() != open(ref, "rb").read():
            ctx.fail("write", "by extension and by name differ")
        ctx.trace()
        ctx.outcome("ext")
        return
    a = kinds(meshio.read(fn))
    b = kinds(meshio.read(ref, names[0]))
    for sig, msg in A.compare(a, b, tol=0.0):
        ctx.fail(sig, f"{fn}: by extension and by name differ: {msg}")
    # the other formats of the extension are read as well
    for f in names[1:]:
        os.makedirs(f, exist_ok=True)
        o = os.path.join(f, fn)
        meshio.write(o, A.to_mesh(meshio, content(f)[1]), f)
        x, y = kinds(meshio.read(o)), kinds(meshio.read(o, f))
        for sig, msg in A.compare(x, y, tol=0.0):
            ctx.fail(sig, f"{fn}: by extension and by name {f} differ: {msg}")
    ctx.trace()
    ctx.state(fn)
    ctx.outcome("ext")


def name(case, ctx):
    import meshio

    f = case["fmt"]
    _, c = content(f)
    e = {"tetgen": ".ele", "ugrid": ".ugrid", "medit": ".mesh"}.get(f, ".anything")
    meshio.write("m" + e, A.to_mesh(meshio, c), f)
    sniff(ctx, "m" + e, f)
    ctx.step()
    ctx.trace()
    ctx.state(f)
    ctx.outcome("name")


def run(case, ctx):
    {"hist": hist, "ext": ext, "name": name}[case["k"]](case, ctx)
