"""Format profiles: what a format claims to carry, and the reference model of
write-then-read for it."""

import os

import numpy as np

from .. import alphabet as A
from ..core import deviations


def pad3(p):
    return np.column_stack([p, np.zeros(len(p), dtype=p.dtype)]) if p.shape[1] == 2 else p


def seqs(types, core=None, triples=True, merge_sizes=((2, 1),), singles=(2, 1, 3)):
    """Block sequences, simplest first: every type alone (several sizes), every
    ordered pair of types (repeats included), every ordered triple of `core`."""
    out = [[[t, singles[0]]] for t in types]
    for m in singles[1:]:
        out += [[[t, m]] for t in types]
    for m1, m2 in merge_sizes:
        for a in types:
            for b in types:
                out.append([[a, m1], [b, m2]])
    if triples and core:
        for a in core:
            for b in core:
                for c in core:
                    out.append([[a, 1], [b, 2], [c, 1]])
    return out


SIZES = [*range(4, 23), 24, 25, 30, 31, 32, 33, 39, 40, 41, 48, 49, 50, 51, 60, 61, 63, 64, 65, 80, 81, 84, 85, 86, 99, 100, 101, 127, 128, 129, 160, 161,
         255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]


def autosets(b, j):
    """cell sets for any blocks: first and last cells / whole blocks / every second cell over all blocks"""
    if j == 0:
        return {"ends": [sorted({0, m - 1}) if m else [] for _, m in b]}
    if j == 1:
        return {f"k{i}": [list(range(m)) if q == i else None for q, (_, m) in enumerate(b)] for i in range(len(b))}
    off, odd, even = 0, [], []
    for _, m in b:
        odd.append([i for i in range(m) if (i + off) % 2])
        even.append([i for i in range(m) if not (i + off) % 2])
        off += m
    return {k: v for k, v in (("odd", odd), ("even", even)) if any(v)}


class Profile:
    name = None          # label
    file_format = None   # meshio's format name
    ext = None
    opts = {"": {}}      # option label -> writer kwargs
    types = ["triangle"]
    core = None
    dims = (3,)
    tol = 0.0
    data_tol = None
    dtypes = False       # read-back dtypes must be those written
    parts = ("points", "cells", "point_data", "cell_data")
    extra_ok = ()        # names the reader adds on its own
    npts = [None]
    pvs = ["plain", "tricky", "third", "small", "large", "ints"]
    pts = ["f8"]
    cts = ["i8", "i4", "u8"]
    lays = ["C", "F", "strided", "rev", "ro", "BE"]
    pds = [[]]
    cds = [[]]
    fds = [None]
    pss = [None]
    css = [None]
    bound = {"quick": 2, "thorough": 3}
    big = []             # list of descriptors of large meshes
    base = {}            # defaults of this format's descriptors (rich data)
    bb = None            # the few block sequences of stage B

    huge_np = 100003

    def huge(self):
        t = self.types[0]
        out = [[[t, 100001]]]
        pair = next((b for b in self.blocks() if len(b) == 2 and b[0][0] == t and b[1][0] != t), None)
        return out + [[[pair[1][0], 1002], [t, 66000]]] if pair else out

    def blocks(self):
        return seqs(self.types, self.core)

    def axes(self):
        return dict(
            d=list(self.dims), pv=self.pvs, pt=self.pts, np=self.npts, ct=self.cts,
            lay=self.lays, pd=self.pds, cd=self.cds, fd=self.fds, ps=self.pss,
            cs=self.css,
        )

    def cases(self, tier, counted=True):
        """Stage A: every block sequence x every option, with the base data.
        Stage B: every combination of at most `bound` deviations from the base over
        all other axes, for a few block sequences, x every option.
        Stage C (thorough): every block sequence x every single deviation.
        Stage D: every number of cells, points, blocks and arrays from a list that
        includes the neighbours of every round number. Then the large meshes."""
        seen = set()

        def emit(a):
            a = {k: v for k, v in a.items()
                 if k == "o" or v != A.DEFAULTS.get(k)}
            a["f"] = self.name
            if not self.admissible(a):
                return None
            key = repr(sorted(a.items(), key=str))
            if key in seen:
                return None
            seen.add(key)
            return a

        def gen():
            blocks = self.blocks()
            ax = {k: v for k, v in self.axes().items()}
            for k, v in self.base.items():
                if k in ax:
                    ax[k] = [v] + [x for x in ax[k] if x != v]
            root = {k: v[0] for k, v in ax.items()}
            for k, v in self.base.items():
                root[k] = v
            for b in blocks:
                for o in self.opts:
                    yield dict(root, b=b, o=o)
            bb = self.bb or ([blocks[0]] + [[[t, 2] for t in self.types[:3]]])
            for a in deviations(ax, self.bound[tier]):
                for b in bb:
                    for o in self.opts:
                        yield dict(root, **dict(a, b=b, o=o))
            if tier == "thorough":
                for b in blocks:
                    for a in deviations(ax, 1):
                        for o in self.opts:
                            yield dict(root, **dict(a, b=b, o=o))

        def counts():
            root = {k: v[0] for k, v in self.axes().items()}
            root.update(self.base)
            t = self.types[0]
            u = next((x for x in self.types if x != t and A.NN.get(x, 9) < 5), t)
            sizes = SIZES if tier == "thorough" or len(self.opts) < 8 else SIZES[::2] + [64, 100, 128, 256, 1000, 1024]
            for o in self.opts:
                for m in sizes:
                    for b in ([[t, m]], [[t, m], [u, 3]], [[u, 3], [t, m]], [[u, m], [t, m]]):
                        yield dict(root, b=b, o=o)
                    if m % 3 == 1:
                        for ct in ("u1", "i1", "i2"):
                            yield dict(root, b=[[t, m], [u, 3]], o=o, ct=ct, np=100)
                    for b in self.bb or [[[t, 2]]]:
                        yield dict(root, b=b, o=o, np=m)
                for k in range(2, 14):
                    yield dict(root, b=[[[t, u][i % 2], 1 + i % 3] for i in range(k)], o=o)
                    yield dict(root, b=[[x, 1] for x in self.types[:k]], o=o)
                    yield dict(root, b=[[x, 1] for x in self.types[:k][::-1]], o=o)
                    for key, vals in (("pd", self.pds), ("cd", self.cds)):
                        vals = [x for x in vals if x and not set("=!") & set("".join(x))]
                        if vals:
                            sp = vals[-1]
                            yield dict(root, b=[[t, 3], [u, 2]], o=o, **{key: [sp[i % len(sp)].split("=")[-1] for i in range(k)]})

        def rich():
            """every block sequence with data and sets on it"""
            root = {k: v[0] for k, v in self.axes().items()}
            root.update(self.base)
            last = lambda v: next((x for x in reversed(v) if x), v[0])
            extra = [("pd", last(self.pds)), ("cd", last(self.cds))]
            more = [[["tetra", "triangle", "hexahedron", "quad", "line"][i % 5], 1 + i % 3] for i in range(7)]
            more = [[b for b in more[:k] if b[0] in self.types] for k in range(2, 8)] + [[[t, 2] for t in self.types], [[t, 1] for t in self.types[::-1]]]
            for o in self.opts:
                for b in self.blocks() + more:
                    for k, v in extra:
                        yield dict(root, b=b, o=o, **{k: v})
                    if len(self.css) > 1:
                        for j in range(3):
                            yield dict(root, b=b, o=o, cs=autosets(b, j))
                            if last(self.cds):
                                yield dict(root, b=b, o=o, cs=autosets(b, j), cd=last(self.cds))

        def both():
            yield from gen()
            if counted:
                yield from counts()
            yield from rich()

        for a in both():
            c = emit(a)
            if c is not None:
                yield c
        for o in self.opts:
            for b in self.big:
                c = dict(b, f=self.name, o=o)
                if self.admissible(c):
                    yield c
            if counted:
                # numbers of six digits, and beyond 16 bits
                # the last point has the largest number its integer type holds
                t = self.types[0]
                for ct, n in (("u1", 256), ("i1", 128), ("i2", 32768), ("u2", 65536)):
                    c = emit(dict(self.base, b=[[t, n // 2 + 1]], np=n, ct=ct, o=o))
                    if c is not None:
                        yield c
                for b in self.huge():
                    c = emit(dict(self.base, b=b, np=self.huge_np, o=o))
                    if c is not None:
                        yield c

    def admissible(self, a):
        d = A.full(a)
        return self.fits_sets(d)

    def fits_sets(self, d):
        """cell sets are given per block: only keep them for matching blocks"""
        if d["cs"]:
            for v in d["cs"].values():
                if len(v) != len(d["b"]):
                    return False
                for mem, (t, m) in zip(v, d["b"]):
                    if mem is not None and len(mem) and max(mem) >= m:
                        return False
        return True

    # -- driving the real code -------------------------------------------
    def path(self, d):
        return os.path.join(d, "mesh" + self.ext)

    def write(self, meshio, path, mesh, case):
        meshio.write(path, mesh, self.file_format, **self.opts[case["o"]])

    def read(self, meshio, path, case=None):
        return meshio.read(path, self.read_format())

    def read_format(self):
        return None

    def content(self, case):
        return A.build(case)

    def mesh(self, meshio, content, case):
        return A.to_mesh(meshio, content, A.full(case)["lay"])

    # -- reference model ---------------------------------------------------
    def expected(self, content, case):
        return content

    def tolerances(self, case):
        return dict(tol=self.tol, data_tol=self.data_tol, dtypes=self.dtypes)

    def roundtrip(self, meshio, case, ctx):
        content = self.content(case)
        mesh = self.mesh(meshio, content, case)
        p = self.path(ctx.dir)
        self.write(meshio, p, mesh, case)
        ctx.step()
        back = self.read(meshio, p, case)
        ctx.step()
        exp = self.expected(content, case)
        got = self.content_of(back)
        self.judge(exp, got, case, ctx)

    def content_of(self, mesh):
        return A.content_of(mesh)

    def judge(self, exp, got, case, ctx):
        diffs = A.compare(exp, got, parts=self.parts, extra_ok=self.extra_ok,
                          **self.tolerances(case))
        for sig, msg in diffs:
            ctx.fail(sig, msg)
        ctx.trace()
        ctx.state(_fingerprint(exp, case.get("f")))
        ctx.outcome("roundtrip:" + case["f"] + ":" + str(case["o"]))


def _fingerprint(c, f):
    import hashlib

    h = hashlib.sha1(str(f).encode())
    h.update(np.ascontiguousarray(c["points"]).tobytes())
    for t, x in c["cells"]:
        h.update(t.encode())
        if isinstance(x, list):
            h.update(repr(x).encode())
        else:
            h.update(repr(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes())
    for k in ("point_data", "cell_data", "field_data", "point_sets", "cell_sets"):
        for n, v in sorted(c[k].items()):
            h.update(n.encode())
            for y in v if isinstance(v, list) else [v]:
                if y is not None:
                    h.update(str(y.dtype).encode() + repr(y.shape).encode())
                    h.update(np.ascontiguousarray(y).tobytes())
    return h.hexdigest()[:16]
