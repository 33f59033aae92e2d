import numpy as np

from .. import alphabet as A
from ..dec import spec
from .base import NUM, Enc, ids, inverse, lines, num

CODE = {v: k for k, v in spec.GMSH.items()}
DIM = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2}


def dim_of(t):
    for k, v in DIM.items():
        if t.startswith(k):
            return v
    return 3


class Gmsh(Enc):
    """MSH 2.2, 4.0 and 4.1, ASCII and binary"""

    name = "gmsh"
    ext = ".msh"
    fmt = "gmsh"
    full = ("b", "v", "enc")
    parts = ("points", "cells", "point_data", "cell_data", "field_data", "cell_sets")
    menu = {
        "tri": dict(b=[["line", 2], ["triangle", 3]]),
        "mix": dict(b=[["vertex", 1], ["quad", 2], ["triangle", 2], ["quad", 1]]),
        "vol": dict(b=[["tetra10", 2], ["hexahedron20", 1], ["wedge15", 1], ["pyramid13", 2], ["hexahedron27", 1]]),
        "ho": dict(b=[["line4", 2], ["quad9", 1], ["triangle10", 1], ["wedge18", 1], ["pyramid14", 1], ["quad8", 2], ["tetra20", 1]]),
    }
    axes = dict(
        v=["2.2", "4.0", "4.1"],
        enc=["asc", "bin"],
        ver=[0, 1],           # another way to name the version
        nid=["seq", "sparse", "big", "rev", "shuffle"],
        eid=["seq", "sparse", "big", "rev", "shuffle"],
        did=["file", "rev", "shuffle"],      # order of the rows of the data sections
        ent=["none", "plain", "phys", "two", "some"],
        names=["no", "yes", "space", "wide"],
        per=["no", "plain", "affine", "two"],
        data=["none", "node", "elem", "both", "vec", "nine"],
        head=["plain", "strings", "noreal", "ints"],
        other=["no", "front", "middle", "end", "unknown"],
        blank=[0, 1],
        split=[1, 2, 3],      # entity blocks of nodes
        num=NUM,
        sp=[" ", "  ", "tab", "trail"],
        nl=["\n", "\r\n"],
        final=[1, 0],
        tags=["two", "none", "phys", "parts", "vary"],   # 2.2: number of tags per element
        size=[8, 4],
    )
    extra_ok = ("gmsh:bounding_entities",)

    def admissible(self, a):
        v, b = a["v"], a["enc"] == "bin"
        if b and (a["num"] != "r" or a["sp"] != " " or a["nl"] != "\n"):
            return False
        if v == "2.2" and (a["ent"] != "none" or a["split"] != 1):
            return False
        if v != "2.2" and a["tags"] != "two":
            return False
        if v == "4.0" and a["ver"]:
            return False
        if v == "4.1" and a["ent"] == "none" and a["names"] != "no":
            return True
        if a["size"] == 4 and (v != "4.1" or not b):
            return False
        if a["size"] == 4 and a["nid"] == "big":
            return True
        return True

    # ---- model ----
    def values(self, n, kind, salt):
        k = {"vec": 3, "nine": 9}.get(kind, 1)
        x = np.arange(n * k, dtype=float).reshape(n, k) * 0.5 - salt
        return x[:, 0] if k == 1 else x

    def content(self, case):
        c = A.build(self.menu[case["b"]])
        d = case["data"]
        n = len(c["points"])
        if d in ("node", "both", "vec", "nine"):
            c["point_data"] = {"temp": self.values(n, d, 3)}
        if d in ("elem", "both", "vec", "nine"):
            cd, off = [], 0
            m = sum(len(x) for _, x in c["cells"])
            v = self.values(m, d, 7)
            for _, x in c["cells"]:
                cd.append(v[off:off + len(x)])
                off += len(x)
            c["cell_data"] = {"stress": cd}
        return c

    def phys(self, case, b):
        """physical tags of block b"""
        e = case["ent"]
        return {"phys": [b + 11], "two": [b + 11, b + 51], "some": [b + 11] if b == 1 else []}.get(e, [])

    def rowtags(self, case, b, i):
        t = case["tags"]
        return {"two": [b + 11, b + 1], "none": [], "phys": [b + 11], "parts": [b + 11, b + 1, 2, 1, -3], "vary": [[b + 11, b + 1], [b + 11], []][(b + i) % 3]}[t]

    def names(self, case, c):
        k = case["names"]
        if k == "no":
            return []
        nm = {"yes": "reg{}", "space": "a region {}", "wide": "reg-{}.x"}[k]
        return [(dim_of(t), b + 11, nm.format(b)) for b, (t, x) in enumerate(c["cells"])]

    def expected(self, case):
        c = self.content(case)
        c["cell_data"] = dict(c["cell_data"])
        v = case["v"]
        names = self.names(case, c)
        c["field_data"] = {k: np.array([t, d]) for d, t, k in names}
        L = [len(x) for _, x in c["cells"]]
        if v == "2.2":
            rt = [[self.rowtags(case, b, i) for i in range(m)] for b, m in enumerate(L)]
            for k, nm in enumerate(["gmsh:physical", "gmsh:geometrical"]):
                if any(len(r) > k for x in rt for r in x):
                    c["cell_data"][nm] = [np.array([r[k] if len(r) > k else 0 for r in x]) for x in rt]
        else:
            ph = [self.phys(case, b) for b in range(len(L))]
            if any(ph):
                c["cell_data"]["gmsh:physical"] = [np.full(m, p[0] if p else 0) for m, p in zip(L, ph)]
            c["cell_data"]["gmsh:geometrical"] = [np.full(m, b + 1) for b, m in enumerate(L)]
            if v == "4.1":
                n = len(c["points"])
                c["point_data"]["gmsh:dim_tags"] = np.concatenate([np.tile([d, t], (m, 1)) for d, t, m in self.nblocks(case, n)])
                c["cell_sets"] = {}
                for d, t, k in names:
                    c["cell_sets"][k] = [np.arange(m) if dim_of(ty) == d and t in ph[b] else np.array([], int) for b, (m, (ty, _)) in enumerate(zip(L, c["cells"]))]
        return c

    def nblocks(self, case, n):
        s = case["split"]
        cut = [n * i // s for i in range(s + 1)]
        return [(2, i + 1, b - a) for i, (a, b) in enumerate(zip(cut, cut[1:]))]

    def periodic(self, case, n):
        p = case["per"]
        if p == "no":
            return []
        aff = np.array([1, 0, 0, 0.5, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1.0])
        out = [[1, (2, 1), aff if p != "plain" else None, np.array([[n - 1, 0], [1, 2]])]]
        if p == "two":
            out.append([0, (4, 3), None, np.array([[2, 0]])])
        return out

    def check(self, m, case):
        exp = self.periodic(case, len(m.points))
        got = m.gmsh_periodic
        if not exp:
            if got:
                yield "periodic", f"periodic {got}"
            return
        if got is None or len(got) != len(exp):
            yield "periodic", f"periodic {got}, expected {exp}"
            return
        for e, g in zip(exp, got):
            if int(g[0]) != e[0] or tuple(map(int, g[1])) != e[1] or not np.array_equal(np.asarray(g[3]), e[3]):
                yield "periodic", f"periodic {g}, expected {e}"
            if e[2] is not None and not np.array_equal(np.asarray(g[2]).ravel(), e[2]):
                yield "periodic", f"affine {g[2]}"

    # ---- file ----
    def encode(self, c, case):
        v, b = case["v"], case["enc"] == "bin"
        f = num(case["num"])
        sep = {" ": " ", "  ": "   ", "tab": "\t", "trail": " "}[case["sp"]]
        end = " \n" if case["sp"] == "trail" else "\n"
        out = bytearray()
        size = case["size"]
        st = {"2.2": "<i4", "4.0": "<u8", "4.1": f"<u{size}"}[v]
        i4 = lambda *a: out.extend(np.array(a, "<i4").tobytes())
        sz = lambda *a: out.extend(np.array(a, st).tobytes())
        f8 = lambda *a: out.extend(np.array(a, "<f8").tobytes())

        def text(*w):
            out.extend((sep.join(str(x) for x in w) + end).encode())

        def sec(name):
            if case["blank"]:
                out.extend(b"\n")
            out.extend(f"${name}\n".encode())

        def fin(name, binary=False):
            if binary:
                out.extend(b"\n")
            out.extend(f"$End{name}\n".encode())

        def comment(name="Comments"):
            sec(name)
            out.extend(b"something else\n1 2 3 4\n")
            fin(name)

        if case["other"] == "front":
            out.extend(b"$Comments\nmade by hand\n$EndComments\n")
        vs = v if not case["ver"] else {"2.2": "2", "4.1": "4"}[v]
        out.extend(f"$MeshFormat\n{vs} {int(b)} {size}\n".encode())
        if b:
            i4(1)
            out.extend(b"\n")
        out.extend(b"$EndMeshFormat\n")
        names = self.names(case, c)
        if names:
            sec("PhysicalNames")
            text(len(names))
            for d, t, k in names:
                text(d, t, f'"{k}"')
            fin("PhysicalNames")
        if case["other"] == "middle":
            comment()
        if case["other"] == "unknown":
            comment("InterpolationScheme")
        n = len(c["points"])
        nid = ids(n, case["nid"])
        m = sum(len(x) for _, x in c["cells"])
        eid = ids(m, case["eid"])
        if case["ent"] != "none":
            self.entities(case, c, sec, fin, text, out, i4, sz, f8, b, v)
        sec("Nodes")
        P = c["points"]
        if v == "2.2":
            text(n)
            for i, p in zip(nid, P):
                if b:
                    i4(i), f8(*p)
                else:
                    text(i, *map(f, p))
        else:
            blocks = self.nblocks(case, n)
            head = [len(blocks), n] + ([min(nid), max(nid)] if v == "4.1" else [])
            sz(*head) if b else text(*head)
            o = 0
            for d, t, k in blocks:
                h = [d, t, 0] if v == "4.1" else [t, d, 0]
                if b:
                    i4(*h), sz(k)
                else:
                    text(*h, k)
                r = range(o, o + k)
                if v == "4.1":
                    if b:
                        sz(*[nid[i] for i in r])
                        f8(*P[o:o + k].ravel())
                    else:
                        for i in r:
                            text(nid[i])
                        for i in r:
                            text(*map(f, P[i]))
                else:
                    for i in r:
                        if b:
                            i4(nid[i]), f8(*P[i])
                        else:
                            text(nid[i], *map(f, P[i]))
                o += k
        fin("Nodes", b)
        sec("Elements")
        e = 0
        if v == "2.2":
            text(m)
        else:
            head = [len(c["cells"]), m] + ([min(eid), max(eid)] if v == "4.1" else [])
            sz(*head) if b else text(*head)
        for k, (t, x) in enumerate(c["cells"]):
            q = inverse(t, spec.GMSH_EDGES)
            if v != "2.2":
                h = [dim_of(t), k + 1, CODE[t]] if v == "4.1" else [k + 1, dim_of(t), CODE[t]]
                if b:
                    i4(*h), sz(len(x))
                else:
                    text(*h, len(x))
            for i, row in enumerate(x):
                nodes = [nid[row[j]] for j in q]
                if v == "2.2":
                    tg = self.rowtags(case, k, i)
                    if b:
                        i4(CODE[t], 1, len(tg), eid[e], *tg, *nodes)
                    else:
                        text(eid[e], CODE[t], len(tg), *tg, *nodes)
                elif b:
                    (sz if v == "4.1" else i4)(eid[e], *nodes)
                else:
                    text(eid[e], *nodes)
                e += 1
        fin("Elements", b)
        per = self.periodic(case, n)
        if per:
            sec("Periodic")
            self.put_periodic(per, case, nid, text, out, i4, sz, f8, f, b, v, st)
            fin("Periodic", b and v != "2.2")
        for k, val in c["point_data"].items():
            self.data("NodeData", k, val, nid, case, sec, fin, text, i4, f8, f, b)
        for k, val in c["cell_data"].items():
            self.data("ElementData", k, np.concatenate(val), eid, case, sec, fin, text, i4, f8, f, b)
        if case["other"] == "end":
            comment()
        if b:
            r = bytes(out)
            return r[:-1] if not case["final"] else r
        return lines(out.decode(), case["nl"], case["final"])

    def data(self, tag, name, val, idl, case, sec, fin, text, i4, f8, f, b):
        h = case["head"]
        val = val.reshape(len(val), -1)
        sec(tag)
        strings = [name] + (["scheme"] if h == "strings" else [])
        text(len(strings))
        for s in strings:
            text(f'"{s}"')
        reals = [] if h == "noreal" else [0.5]
        text(len(reals))
        for r in reals:
            text(r)
        ints = [0, val.shape[1], len(val)] + ([1] if h == "ints" else [])
        text(len(ints))
        for i in ints:
            text(i)
        n = len(val)
        order = {"file": range(n), "rev": range(n)[::-1], "shuffle": np.argsort(ids(n, "shuffle"))}[case["did"]]
        for i in order:
            if b:
                i4(idl[i]), f8(*val[i])
            else:
                text(idl[i], *map(f, val[i]))
        fin(tag, b)

    def entities(self, case, c, sec, fin, text, out, i4, sz, f8, b, v):
        sec("Entities")
        ents = {d: [] for d in range(4)}
        for k, (t, x) in enumerate(c["cells"]):
            ents[dim_of(t)].append((k + 1, self.phys(case, k)))
        for i in range(case["split"]):  # entities of the nodes
            if i + 1 not in [e[0] for e in ents[2]]:
                ents[2].append((i + 1, []))
        cnt = [len(ents[d]) for d in range(4)]
        sz(*cnt) if b else text(*cnt)
        for d in range(4):
            for tag, ph in ents[d]:
                box = [0.0] * (3 if d == 0 and v == "4.1" else 6)
                brep = [1, -2][: 2 if d else 0]
                if b:
                    i4(tag), f8(*box), sz(len(ph)), i4(*ph)
                    if d:
                        sz(len(brep)), i4(*brep)
                else:
                    text(tag, *box, len(ph), *ph, *([len(brep)] + brep if d else []))
        fin("Entities", b)

    def put_periodic(self, per, case, nid, text, out, i4, sz, f8, f, b, v, st):
        binary = b and v != "2.2"
        if binary:
            (sz if v == "4.1" else i4)(len(per))
        else:
            text(len(per))
        for d, (s, m), aff, sm in per:
            pairs = [(nid[i], nid[j]) for i, j in sm]
            if binary:
                i4(d, s, m)
                if v == "4.1":
                    a = [] if aff is None else aff
                    sz(len(a)), f8(*a), sz(len(pairs))
                    sz(*[x for p in pairs for x in p])
                else:
                    if aff is not None:
                        out.extend(np.array([-1], "<i8").tobytes())
                        f8(*aff)
                    sz(len(pairs))
                    i4(*[x for p in pairs for x in p])
                continue
            text(d, s, m)
            if v == "4.1":
                text(*([0] if aff is None else [16] + [f(x) for x in aff]))
            elif aff is not None:
                text("Affine", *[f(x) for x in aff])
            text(len(pairs))
            for p in pairs:
                text(*p)


ENCODERS = [Gmsh()]
