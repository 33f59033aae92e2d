"""A write that cannot store all bytes raises."""
import os
import resource
import signal

from .. import alphabet as A
from ..fmt import decks, gmsh, hdf, misc, surface, vtk, xdmf
from .c11 import SVG
from .c17 import files, menu

PROP = "C20"
LEVEL = "fault_enumeration"
RULE = (
    "every format and writer option x two meshes (HDF5-based formats: one; thorough: six): the write is repeated with the storage refusing to grow any file beyond n bytes, for every n below the size of the largest "
    "file it produces (files over 12 kB: all n below 600, the last 600 and 1 in 23 between; thorough: 1 in 5 between); the write has to raise"
)
MIN_CASES = 400
CASE_LIMIT = 300
K = 16
PROFS = {p.name: p for m in (vtk, gmsh, xdmf, surface, decks, hdf, misc) for p in m.PROFILES}
PROFS["svg"] = SVG()
FORK = ("xdmf", "med", "cgns", "h5m", "hmf", "exodus")  # libraries with state of their own: one process per write


def cases(tier):
    only = os.environ.get("MC_ONLY")
    for n, p in PROFS.items():
        if only and n not in only.split(","):
            continue
        last = None
        for c in menu(p, tier):
            if tier == "quick" and n in FORK and c["o"] == last:
                continue  # (one mesh)
            last = c["o"]
            for k in range(K):
                yield dict(c, k=k)


def limited(n, f):
    """run f with every file limited to n bytes; name of the exception or None"""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        f()
        return None
    except Exception as e:
        return type(e).__name__
    except SystemExit as e:
        return "SystemExit" if e.code else None
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def forked(n, f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            out = limited(n, f) or ""
            os.write(w, b"=" + out.encode())
        finally:
            os._exit(0)
    os.close(w)
    got = b""
    while True:
        b = os.read(r, 100)
        if not b:
            break
        got += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st or not got:
        return f"died {st}"
    return got[1:].decode() or None


def run(case, ctx):
    import meshio

    p = PROFS[case["f"]]
    os.makedirs("w")
    mesh = p.mesh(meshio, p.content(case), case)
    p.write(meshio, p.path(os.path.join(ctx.dir, "w")), mesh, case)
    d = os.path.join(ctx.dir, "w")
    size = max(os.path.getsize(os.path.join(d, f)) for f in files(d))
    if case["f"] in ("netgen",) and case["o"] == "gz":
        size -= 16  # the size of the compressed file depends on the time of day
    go = forked if case["f"] in FORK else limited
    step = 23 if ctx.tier == "quick" else 5
    for n in range(case["k"], size, K):
        if size > 12000 and 600 <= n < size - 600 and (n // K) % step:
            continue
        for f in files(d):
            os.unlink(os.path.join(d, f))
        ctx.step()
        out = go(n, lambda: p.write(meshio, p.path(d), mesh, case))
        if out is None:
            ctx.fail("silent", f"no file could grow beyond {n} bytes ({size} are needed), but the write returned normally; sizes "
                     + str({f: os.path.getsize(os.path.join(d, f)) for f in files(d)}))
            break
        ctx.outcome(f"{case['f']}:{out}")
    ctx.trace()
    ctx.state(repr(sorted((a, b) for a, b in case.items() if a != "k")))
