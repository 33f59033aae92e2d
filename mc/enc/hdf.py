"""Exodus II, MED, H5M and CGNS files as other programs spell them."""
import numpy as np

from .. import alphabet as A
from ..dec.hdf import EXO_ORDER as EXO
from ..dec.hdf import MED as MEDN
from .base import Enc

EXON = {
    "vertex": ["SPHERE"], "line": ["BEAM", "BAR2", "BEAM2"], "line3": ["BEAM3"], "triangle": ["TRI3", "TRI", "TRIANGLE"], "triangle6": ["TRI6"],
    "quad": ["QUAD", "QUAD4", "SHELL4", "SHELL"], "quad8": ["QUAD8", "SHELL8"], "quad9": ["QUAD9", "SHELL9"], "tetra": ["TETRA", "TET4", "TETRA4"],
    "tetra10": ["TETRA10"], "hexahedron": ["HEX8", "HEX", "HEXAHEDRON"], "hexahedron20": ["HEX20"], "hexahedron27": ["HEX27"], "pyramid": ["PYRAMID"], "wedge": ["WEDGE"],
}


class Exodus(Enc):
    name = "exodus"
    ext = ".e"
    parts = ("points", "cells", "point_data", "cell_data", "point_sets")
    menu = {
        "tri": dict(b=[["triangle", 3]]),
        "mix": dict(b=[["tetra", 2], ["hexahedron", 1], ["wedge", 2], ["pyramid", 1]]),
        "ho": dict(b=[["triangle6", 1], ["quad8", 2], ["quad9", 1], ["tetra10", 1], ["hexahedron20", 2], ["hexahedron27", 1], ["line3", 1]]),
        "same": dict(b=[["quad", 1], ["quad", 3], ["line", 2], ["vertex", 1]]),
        "d2": dict(b=[["quad", 2], ["triangle", 1]], d=2),
        "many": dict(b=[["triangle", 1 + i % 2] for i in range(12)]),
    }
    axes = dict(
        nc=["NETCDF3_CLASSIC", "NETCDF4", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF4_CLASSIC"],
        coord=["xyz", "coord"],
        alias=[0, 1, 2, "lower", "mixed"],
        pd=["no", "u", "two", "xyz", "rz", "xy", "twelve"],
        cd=["no", "one", "two", "late", "early", "swap", "twelve"],
        by=["var", "block"],
        steps=[1, 3],
        ns=["no", "two", "hole", "twelve", "long"],
        null=["no", "first", "mid"],
        order=["nodes", "sets", "names"],
        extra=["no", "qa", "info", "maps", "side", "glo", "dist", "attr", "props"],
        length=[33, 257],
        real=["f8", "f4"],
        whole=["i4", "i8"],
    )

    def admissible(self, case):
        if case["by"] != "var" and case["cd"] in ("no", "one"):
            return False
        if case["whole"] == "i8" and case["nc"] in ("NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC"):
            return False
        if case["cd"] in ("late", "early", "swap") and len(self.menu[case["b"]]["b"]) < 2:
            return False
        return True

    def points_data(self, c, case):
        """[(name, values)] of the file and {name: values} of the mesh"""
        n = len(c["points"])
        v = lambda k: (np.arange(n) * (k + 2) % 11) / 4 - 1
        p = case["pd"]
        if p == "no":
            return [], {}
        if p == "u":
            return [("u", v(0))], {"u": v(0)}
        if p == "two":
            return [("temp", v(0)), ("p", v(1))], {"temp": v(0), "p": v(1)}
        if p == "twelve":
            x = [(f"v{i}", v(i)) for i in range(12)]
            return x, dict(x)
        if p == "xyz":
            return ([("w", v(9)), ("dispX", v(0)), ("dispY", v(1)), ("dispZ", v(2)), ("q", v(3))],
                    {"w": v(9), "disp": np.column_stack([v(0), v(1), v(2)]), "q": v(3)})
        if p == "rz":
            return [("a_R", v(0)), ("a_Z", v(1)), ("b", v(2))], {"a": np.column_stack([v(0), v(1)]), "b": v(2)}
        return [("dX", v(0)), ("dY", v(1))], {"dX": v(0), "dY": v(1)}

    def elem_data(self, c, case):
        """{name: {block: values}} in the order of the variables"""
        nb = len(c["cells"])
        v = lambda k, b: (np.arange(len(c["cells"][b][1])) + k + 3 * b) / 4
        cd = case["cd"]
        if cd == "no":
            return {}
        if cd == "one":
            return {"mat": {b: v(0, b) for b in range(nb)}}
        if cd == "two":
            return {"mat": {b: v(0, b) for b in range(nb)}, "e": {b: v(7, b) for b in range(nb)}}
        if cd == "twelve":
            return {f"e{k}": {b: v(k, b) for b in range(nb)} for k in range(12)}
        if cd == "late":  # only on the last block
            return {"mat": {nb - 1: v(0, nb - 1)}}
        if cd == "early":
            return {"mat": {0: v(0, 0)}, "e": {b: v(7, b) for b in range(nb)}}
        return {"mat": {b: v(0, b) for b in range(1, nb)}, "e": {0: v(7, 0)}}

    def sets(self, c, case):
        s = case["ns"]
        if s == "no":
            return {}
        if s == "two":
            return {"left": [0, 2], "right": [1]}
        if s == "hole":
            return {"left": [0, 2], "empty": [], "right": [1]}
        if s == "long":
            return {"n" * 32: [2], "b": [0, 1]}
        return {f"s{i}": [i % 3, 1] for i in range(12)}

    def expected(self, case):
        c = self.content(case)
        if case["coord"] == "xyz" and c["points"].shape[1] == 2:
            c["points"] = np.column_stack([c["points"], np.zeros(len(c["points"]))])
        c["point_data"] = self.points_data(c, case)[1]
        for k, v in self.elem_data(c, case).items():
            c["cell_data"][k] = [v[b] if b in v else np.full(len(x), np.nan) for b, (_, x) in enumerate(c["cells"])]
        c["point_sets"] = {k: np.unique(np.array(v, int)) for k, v in self.sets(c, case).items() if v}
        return c

    def read(self, meshio, path, case):
        m = meshio.read(path)
        for k in [k for k, v in m.point_sets.items() if len(v) == 0]:
            del m.point_sets[k]
        return m

    def encode(self, c, case):
        def write(path):
            import netCDF4

            with netCDF4.Dataset(path, "w", format=case["nc"]) as nc:
                self.fill(nc, c, case)

        return {"mesh.e": write}

    def fill(self, nc, c, case):
        F, I = case["real"], case["whole"]
        nc.api_version = np.float32(5.14)
        nc.version = np.float32(5.14)
        nc.floating_point_word_size = np.int32(8 if F == "f8" else 4)
        nc.title = "made by hand"
        L = case["length"]
        nc.createDimension("len_string", L)
        nc.createDimension("len_name", L)
        nc.createDimension("len_line", 81)
        nc.createDimension("four", 4)
        nc.createDimension("time_step", None)
        P = c["points"]
        nc.createDimension("num_dim", P.shape[1])
        nc.createDimension("num_nodes", len(P))
        blocks = [(t, x) for t, x in c["cells"]]
        number = list(range(1, len(blocks) + 1))
        if case["null"] == "first":
            number = [i + 1 for i in number]
        if case["null"] == "mid":
            number = [number[0]] + [i + 1 for i in number[1:]]
        nblk = max(number)
        nc.createDimension("num_elem", sum(len(x) for _, x in blocks))
        nc.createDimension("num_el_blk", nblk)

        def strings(name, dim, values, length="len_name"):
            if dim not in nc.dimensions:
                nc.createDimension(dim, len(values))
            v = nc.createVariable(name, "S1", (dim, length))
            a = np.zeros((len(values), nc.dimensions[length].size), "S1")
            for i, s in enumerate(values):
                for j, ch in enumerate(s):
                    a[i, j] = ch.encode()
            v[:] = a

        def time():
            t = nc.createVariable("time_whole", F, ("time_step",))
            for k in range(case["steps"]):
                t[k] = k / 4

        def nodes():
            strings("coor_names", "num_dim", ["x", "y", "z"][: P.shape[1]])
            if case["coord"] == "coord":
                nc.createVariable("coord", F, ("num_dim", "num_nodes"))[:] = P.T
            else:
                for i in range(P.shape[1]):
                    nc.createVariable("coord" + "xyz"[i], F, ("num_nodes",))[:] = P[:, i]

        def elems():
            nc.createVariable("eb_status", "i4", ("num_el_blk",))[:] = 1
            p = nc.createVariable("eb_prop1", "i4", ("num_el_blk",))
            p.setncattr("name", "ID")
            p[:] = np.arange(nblk) * 10 + 10
            for n, (t, x) in zip(number, blocks):
                nc.createDimension(f"num_el_in_blk{n}", len(x))
                nc.createDimension(f"num_nod_per_el{n}", x.shape[1])
                v = nc.createVariable(f"connect{n}", I, (f"num_el_in_blk{n}", f"num_nod_per_el{n}"))
                a = case["alias"]
                names = EXON[t]
                e = names[min(a, len(names) - 1)] if isinstance(a, int) else names[0].lower() if a == "lower" else names[0].capitalize()
                v.elem_type = e
                y = np.empty_like(x)
                y[:, EXO.get(t, range(x.shape[1]))] = x
                v[:] = y + 1
                if case["extra"] == "attr":
                    nc.createDimension(f"num_att_in_blk{n}", 1)
                    nc.createVariable(f"attrib{n}", F, (f"num_el_in_blk{n}", f"num_att_in_blk{n}"))[:] = 0.5

        def sets():
            s = self.sets(c, case)
            if not s:
                return
            nc.createDimension("num_node_sets", len(s))
            nc.createVariable("ns_status", "i4", ("num_node_sets",))[:] = [int(bool(v)) for v in s.values()]
            p = nc.createVariable("ns_prop1", "i4", ("num_node_sets",))
            p.setncattr("name", "ID")
            p[:] = np.arange(len(s)) + 100
            strings("ns_names", "num_node_sets", list(s))
            for k, v in enumerate(s.values()):
                if not v:
                    continue
                nc.createDimension(f"num_nod_ns{k + 1}", len(v))
                nc.createVariable(f"node_ns{k + 1}", I, (f"num_nod_ns{k + 1}",))[:] = np.array(v) + 1
                if case["extra"] == "dist":
                    nc.createDimension(f"num_df_ns{k + 1}", len(v))
                    nc.createVariable(f"dist_fact_ns{k + 1}", F, (f"num_df_ns{k + 1}",))[:] = 0.5

        def variables():
            steps = case["steps"]
            pd, _ = self.points_data(c, case)
            if pd:
                strings("name_nod_var", "num_nod_var", [k for k, _ in pd])
                for i, (_, v) in enumerate(pd):
                    x = nc.createVariable(f"vals_nod_var{i + 1}", F, ("time_step", "num_nodes"))
                    for t in range(steps):
                        x[t, :] = v + t
            cd = self.elem_data(c, case)
            if cd:
                strings("name_elem_var", "num_elem_var", list(cd))
                tab = nc.createVariable("elem_var_tab", "i4", ("num_el_blk", "num_elem_var"))
                a = np.zeros((nblk, len(cd)), int)
                todo = [(i, b) for i, v in enumerate(cd.values()) for b in v]
                if case["by"] == "block":
                    todo.sort(key=lambda x: (x[1], x[0]))
                for i, b in todo:
                    n = number[b]
                    a[n - 1, i] = 1
                    x = nc.createVariable(f"vals_elem_var{i + 1}eb{n}", F, ("time_step", f"num_el_in_blk{n}"))
                    for t in range(steps):
                        x[t, :] = list(cd.values())[i][b] + t
                tab[:] = a

        def extras():
            e = case["extra"]
            if e == "qa":
                nc.createDimension("num_qa_rec", 2)
                v = nc.createVariable("qa_records", "S1", ("num_qa_rec", "four", "len_string"))
                a = np.zeros((2, 4, L), "S1")
                a[:, :, 0] = b"q"
                v[:] = a
            if e == "info":
                strings("info_records", "num_info", ["some text", "more"], "len_line")
            if e == "maps":
                nc.createVariable("node_num_map", I, ("num_nodes",))[:] = np.arange(len(P))[::-1] + 100
                nc.createVariable("elem_num_map", I, ("num_elem",))[:] = np.arange(nc.dimensions["num_elem"].size) + 50
                nc.createVariable("elem_map", I, ("num_elem",))[:] = np.arange(nc.dimensions["num_elem"].size) + 1
            if e == "side":
                nc.createDimension("num_side_sets", 1)
                nc.createDimension("num_side_ss1", 1)
                nc.createVariable("ss_status", "i4", ("num_side_sets",))[:] = 1
                nc.createVariable("ss_prop1", "i4", ("num_side_sets",))[:] = 7
                strings("ss_names", "num_side_sets", ["wall"])
                nc.createVariable("elem_ss1", I, ("num_side_ss1",))[:] = 1
                nc.createVariable("side_ss1", I, ("num_side_ss1",))[:] = 1
            if e == "glo":
                strings("name_glo_var", "num_glo_var", ["dt", "energy"])
                x = nc.createVariable("vals_glo_var", F, ("time_step", "num_glo_var"))
                for t in range(case["steps"]):
                    x[t, :] = [0.5, 1.5]
            if e == "props":
                strings("eb_names", "num_el_blk", [f"block{i}" for i in range(nblk)])
                p = nc.createVariable("eb_prop2", "i4", ("num_el_blk",))
                p.setncattr("name", "MATERIAL")
                p[:] = 3

        time()
        for f in {"nodes": (nodes, elems, sets, variables, extras), "sets": (sets, extras, elems, nodes, variables), "names": (variables_after(elems, variables), sets, nodes, extras)}[case["order"]]:
            f()


def variables_after(elems, variables):
    def both():
        elems()
        variables()

    return both


def h5(fn):
    def write(path):
        import h5py

        with h5py.File(path, "w") as f:
            fn(f)

    return write


def store(case):
    """ways to store an array in HDF5"""
    s = case["store"]

    def put(g, name, a):
        a = np.asarray(a)
        if s == "big" and a.dtype.kind in "iuf":
            a = a.astype(a.dtype.newbyteorder(">"))
        if s == "chunk":
            return g.create_dataset(name, data=a, chunks=tuple(max(1, (n + 1) // 2) for n in a.shape) or None)
        if s == "gzip":
            return g.create_dataset(name, data=a, compression="gzip", shuffle=True)
        if s == "grow":
            return g.create_dataset(name, data=a, maxshape=(None,) * a.ndim)
        return g.create_dataset(name, data=a)

    return put


STORE = ["plain", "big", "chunk", "gzip", "grow"]
NOPROF = "MED_NO_PROFILE_INTERNAL"


class Med(Enc):
    name = "med"
    ext = ".med"
    menu = {
        "tri": dict(b=[["triangle", 3]]),
        "mix": dict(b=[["hexahedron", 1], ["line", 2], ["tetra", 2], ["triangle", 4]]),
        "d2": dict(b=[["quad", 2], ["triangle", 1]], d=2),
        "ho": dict(b=[["hexahedron20", 1], ["pyramid13", 1], ["wedge15", 1], ["tetra10", 2], ["triangle6", 1]]),
        "low": dict(b=[["vertex", 2], ["line", 1], ["line3", 1], ["quad8", 1], ["pyramid", 1], ["wedge", 1]]),
    }
    axes = dict(
        step=["one", "none"],
        mesh=["mesh", "Mesh_1", "a mesh"],
        pfam=["no", "zero", "some"],
        cfam=["no", "all", "first", "last"],
        fam=["no", "groups", "nogroup", "many"],
        fas=["top", "none"],
        pd=["no", "s", "v", "steps", "prof", "two"],
        cd=["no", "s", "v", "some", "steps", "prof"],
        comp=["names", "blank", "none", "spaces"],
        num=["no", "yes"],
        store=STORE,
        real=["f8", "f4"],
        whole=["i4", "i8"],
        attr=["i4", "i8"],
        extra=["no", "info", "equiv", "joints", "supports"],
    )
    may = dict(fas=["none"])

    def order(self, c):
        names = {v: k for k, v in MEDN.items()}
        return sorted(range(len(c["cells"])), key=lambda i: names[c["cells"][i][0]])

    def tags(self, n, k):
        return np.array([-(1 + (i + k) % 3) for i in range(n)])

    def fields(self, c, case):
        """[(name, components, [(number, time, {support: (profile, values)})])]; the profile holds 0-based positions"""
        n = len(c["points"])
        out = []
        v = lambda m, k, s: ((np.arange(m * k) * 3 + s) % 19 / 4 - 1).reshape(m, k)
        p = case["pd"]
        if p in ("s", "v"):
            out.append(("p_" + p, 1 if p == "s" else 3, [(1, 0.0, {"NOE": (None, v(n, 1 if p == "s" else 3, 0))})]))
        if p == "two":
            out += [(x, 1, [(1, 0.0, {"NOE": (None, v(n, 1, i))})]) for i, x in enumerate(("temp", "alpha"))]
        if p == "steps":
            out.append(("p", 2, [(t, t / 2, {"NOE": (None, v(n, 2, t))}) for t in (1, 2, 11)]))
        if p == "prof":
            out.append(("p", 1, [(1, 0.0, {"NOE": ([2, 0], v(2, 1, 0))})]))
        q = case["cd"]
        sup = [("MAI." + {v: k for k, v in MEDN.items()}[t], len(x)) for t, x in c["cells"]]
        if q in ("s", "v"):
            k = 1 if q == "s" else 3
            out.append(("c_" + q, k, [(1, 0.0, {s: (None, v(m, k, i)) for i, (s, m) in enumerate(sup)})]))
        if q == "some":
            out.append(("c", 1, [(1, 0.0, {sup[-1][0]: (None, v(sup[-1][1], 1, 5))})]))
        if q == "steps":
            out.append(("c", 1, [(t, t / 4, {s: (None, v(m, 1, i + t)) for i, (s, m) in enumerate(sup)}) for t in (1, 2)]))
        if q == "prof":
            out.append(("c", 2, [(1, 0.0, {s: ([m - 1], v(1, 2, i)) for i, (s, m) in enumerate(sup)})]))
        return out

    def expected(self, case):
        c = self.content(case)
        o = self.order(c)
        med = {v: k for k, v in MEDN.items()}
        if case["pfam"] != "no":
            c["point_data"]["point_tags"] = np.array([0 if case["pfam"] == "zero" else 1 + i % 2 for i in range(len(c["points"]))])
        if case["cfam"] != "no":
            f = case["cfam"]
            c["cell_data"]["cell_tags"] = [self.tags(len(x), k) if f == "all" or (f == "first" and k == 0) or (f == "last" and k == len(c["cells"]) - 1)
                                           else np.zeros(len(x), int) for k, (_, x) in enumerate(c["cells"])]
        for name, k, steps in self.fields(c, case):
            for j, (_, t, sup) in enumerate(steps):
                nm = name if len(steps) == 1 else f"{name}[{j}] - {t:g}"
                for s, (prof, a) in sup.items():
                    if s == "NOE":
                        m = len(c["points"])
                    else:
                        b = [med[t] for t, _ in c["cells"]].index(s[4:])
                        m = len(c["cells"][b][1])
                    if prof is not None:
                        full = np.full((m, k), np.nan)
                        full[prof] = a
                        a = full
                    a = a[:, 0] if k == 1 else a
                    if s == "NOE":
                        c["point_data"][nm] = a
                    else:
                        c["cell_data"].setdefault(nm, [None] * len(c["cells"]))[b] = a
        for nm, lst in c["cell_data"].items():
            for b, (_, x) in enumerate(c["cells"]):
                if lst[b] is None:  # not defined there
                    lst[b] = np.full(len(x), np.nan)
        c["cells"] = [c["cells"][i] for i in o]
        c["cell_data"] = {k: [v[i] for i in o] for k, v in c["cell_data"].items()}
        return c

    def read(self, meshio, path, case):
        m = meshio.read(path)
        self.nom = m.field_data.pop("med:nom", [])
        return m

    def check(self, m, case):
        f = case["fam"]
        want = {"no": {}, "nogroup": {-1: [], -2: ["wall"]}, "groups": {-1: ["left", "all of it"], -2: ["right"]},
                "many": {-i: [f"g{j}" for j in range(i)] for i in range(1, 12)}}[f]
        if case["fas"] != "none" and {int(k): list(v) for k, v in m.cell_tags.items()} != want:
            yield "families", f"families {m.cell_tags}, expected {want}"
        want = {1: ["corner"]} if f == "groups" else {}
        if case["fas"] != "none" and {int(k): list(v) for k, v in m.point_tags.items()} != want:
            yield "families", f"node families {m.point_tags}, expected {want}"
        if case["comp"] in ("names", "spaces") and (case["pd"] != "no" or case["cd"] != "no"):
            want = [self.components(case, k) for _, k, steps in self.fields(self.content(case), case) for _ in steps]
            got = [list(x) for x in self.nom]
            if sorted(map(str, got)) != sorted(map(str, want)):
                yield "components", f"component names {got}, expected {want}"

    def components(self, case, k):
        return [f"C{i}" if case["comp"] == "names" else f"S {i}{i}" for i in range(k)]

    def encode(self, c, case):
        return {"mesh.med": h5(lambda f: self.fill(f, c, case))}

    def fill(self, f, c, case):
        put = store(case)
        I = lambda x: np.array(x, case["attr"])
        S = np.bytes_
        F, W = case["real"], case["whole"]
        g = f.create_group("INFOS_GENERALES")
        for k, v in dict(MAJ=4, MIN=1, REL=0).items():
            g.attrs[k] = I(v)
        name = case["mesh"]
        m = f.create_group("ENS_MAA/" + name)
        P = c["points"]
        d = P.shape[1]
        for k, v in dict(DIM=d, ESP=d, REP=0, SRT=1, TYP=0, NXT=-1, NXI=-1).items():
            m.attrs[k] = I(v)
        m.attrs["DES"] = S("")
        m.attrs["NOM"] = S("".join(f"{x:<16}" for x in "XYZ"[:d]))
        m.attrs["UNI"] = S(f"{'m':<16}" * d)
        m.attrs["UNT"] = S("")
        if case["step"] == "one":
            m = m.create_group("-0000000000000000001-0000000000000000001")
            for k, v in dict(CGT=1, NDT=-1, NOR=-1, NXT=-1, NXI=-1).items():
                m.attrs[k] = I(v)
            m.attrs["PDT"] = -1.0

        def array(group, key, a):
            x = put(group, key, a)
            x.attrs["CGT"] = I(1)
            return x

        n = m.create_group("NOE")
        n.attrs["CGT"] = n.attrs["CGS"] = I(1)
        n.attrs["PFL"] = S(NOPROF)
        array(n, "COO", P.T.ravel().astype(F)).attrs["NBR"] = I(len(P))
        if case["pfam"] != "no":
            array(n, "FAM", np.array([0 if case["pfam"] == "zero" else 1 + i % 2 for i in range(len(P))], W)).attrs["NBR"] = I(len(P))
        if case["num"] == "yes":
            array(n, "NUM", np.arange(len(P), dtype=W)[::-1] + 5).attrs["NBR"] = I(len(P))
        mai = m.create_group("MAI")
        mai.attrs["CGT"] = I(1)
        med = {v: k for k, v in MEDN.items()}
        for k, (t, x) in enumerate(c["cells"]):
            e = mai.create_group(med[t])
            e.attrs["CGT"] = e.attrs["CGS"] = e.attrs["GEO"] = I(1)
            e.attrs["PFL"] = S(NOPROF)
            array(e, "NOD", (x + 1).T.ravel().astype(W)).attrs["NBR"] = I(len(x))
            fm = case["cfam"]
            if fm == "all" or (fm == "first" and k == 0) or (fm == "last" and k == len(c["cells"]) - 1):
                array(e, "FAM", self.tags(len(x), k).astype(W)).attrs["NBR"] = I(len(x))
            if case["num"] == "yes":
                array(e, "NUM", np.arange(len(x), dtype=W) + 50).attrs["NBR"] = I(len(x))
        if case["fas"] == "top":
            fas = f.create_group("FAS/" + name)
            fas.create_group("FAMILLE_ZERO").attrs["NUM"] = I(0)

            def family(kind, num, groups, k):
                x = fas.create_group(f"{kind}/FAM_{num}_{k}")
                x.attrs["NUM"] = I(num)
                if groups:
                    y = x.create_group("GRO")
                    y.attrs["NBR"] = I(len(groups))
                    z = y.create_dataset("NOM", (len(groups),), dtype="80int8")
                    for i, w in enumerate(groups):
                        z[i] = np.frombuffer(w.encode().ljust(80, b"\0"), "i1")

            if case["fam"] == "groups":
                family("ELEME", -1, ["left", "all of it"], "x")
                family("ELEME", -2, ["right"], "y")
                family("NOEUD", 1, ["corner"], "z")
            if case["fam"] == "nogroup":
                family("ELEME", -1, [], "x")
                family("ELEME", -2, ["wall"], "y")
            if case["fam"] == "many":
                for i in range(1, 12):
                    family("ELEME", -i, [f"g{j}" for j in range(i)], "x")
        fl = self.fields(c, case)
        for fname, k, steps in fl:
            h = f.create_group("CHA/" + fname)
            h.attrs["MAI"] = S(name)
            h.attrs["TYP"] = I(6)
            h.attrs["NCO"] = I(k)
            if case["comp"] in ("names", "spaces"):
                h.attrs["NOM"] = S("".join(f"{x:<16}" for x in self.components(case, k)))
            elif case["comp"] == "blank":
                h.attrs["NOM"] = S(" " * 16 * k)
            h.attrs["UNI"] = S(" " * 16 * k)
            h.attrs["UNT"] = S("")
            for num, t, sup in steps:
                ts = h.create_group(f"{num:020d}{-1:020d}")
                for a, b in dict(NDT=num, NOR=-1, RDT=-1, ROR=-1).items():
                    ts.attrs[a] = I(b)
                ts.attrs["PDT"] = t
                for s, (prof, a) in sup.items():
                    pn = NOPROF if prof is None else "prof_" + s
                    x = ts.create_group(s)
                    x.attrs["GAU"] = S("")
                    x.attrs["PFL"] = S(pn)
                    y = x.create_group(pn)
                    m = len(a)
                    if prof is not None:
                        m = len(P) if s == "NOE" else next(len(r) for u, r in c["cells"] if med[u] == s[4:])
                        if "PROFILS/" + pn not in f:
                            w = f.create_group("PROFILS/" + pn)
                            w.attrs["NBR"] = I(len(prof))
                            put(w, "PFL", np.array(prof, W) + 1)
                    y.attrs["NBR"] = I(m)
                    y.attrs["NGA"] = I(1)
                    y.attrs["GAU"] = S("")
                    put(y, "CO", a.T.ravel())
        e = case["extra"]
        if e == "info":
            f.create_group("INFOS_GENERALES2")
        if e == "equiv":
            f.create_group(f"EQS/{name}")
        if e == "joints":
            f.create_group(f"JNT/{name}/j1")
        if e == "supports":
            f.create_group("LNK")
            f.create_group("GAUSS")


H5M = {"line": "Edge2", "hexahedron": "Hex8", "wedge": "Prism6", "pyramid": "Pyramid5", "quad": "Quad4", "triangle": "Tri3", "tetra": "Tet4"}


class H5m(Enc):
    name = "h5m"
    ext = ".h5m"
    parts = ("points", "cells", "point_data")
    menu = {
        "tri": dict(b=[["triangle", 3]]),
        "mix": dict(b=[["line", 2], ["hexahedron", 1], ["wedge", 1], ["pyramid", 1], ["quad", 2], ["tetra", 2], ["triangle", 1]]),
        "d2": dict(b=[["quad", 2], ["triangle", 1]], d=2),
    }
    axes = dict(
        start=[1, 2, 50],
        tags=["no", "gid", "s", "v", "many"],
        etags=["no", "yes"],
        sets=["no", "empty", "yes"],
        hist=["yes", "no"],
        store=STORE,
        real=["f8", "f4"],
        whole=["u8", "i8", "i4"],
        etypes=["yes", "no"],
    )

    def data(self, n, case):
        t = case["tags"]
        s = (np.arange(n) * 3 % 7) / 4
        return {"no": {}, "gid": {"GLOBAL_ID": np.arange(n) + 1}, "s": {"temp": s}, "v": {"vel": np.column_stack([s, s + 1, s - 2])}, "many": {f"t{i}": s + i for i in range(11)}}[t]

    def expected(self, case):
        c = self.content(case)
        c["cells"] = sorted(c["cells"], key=lambda x: H5M[x[0]])
        c["point_data"] = self.data(len(c["points"]), case)
        return c

    def encode(self, c, case):
        def fill(f):
            put = store(case)
            t = f.create_group("tstt")
            P = c["points"]
            n = t.create_group("nodes")
            x = put(n, "coordinates", P.astype(case["real"]))
            s = case["start"]
            x.attrs["start_id"] = s
            for k, v in self.data(len(P), case).items():
                put(n.require_group("tags"), k, v)
                t.require_group("tags/" + k)
            gid = s + len(P)
            if s != 1:
                gid = 1 if s == 50 else gid
            e = t.create_group("elements")
            for k, (ty, r) in enumerate(c["cells"]):
                g = e.create_group(H5M[ty])
                g.attrs["element_type"] = k + 1
                y = put(g, "connectivity", (r + s).astype(case["whole"]))
                y.attrs["start_id"] = gid
                gid += len(r)
                if case["etags"] == "yes":
                    put(g.create_group("tags"), "mat", np.arange(len(r)))
            t.attrs["max_id"] = max(gid, s + len(P)) - 1
            if case["etypes"] == "yes":
                t["elemtypes"] = np.dtype("i4")
            if case["hist"] == "yes":
                t.create_dataset("history", data=np.array([b"made", b"by hand"]))
            if case["sets"] != "no":
                g = t.create_group("sets")
                if case["sets"] == "yes":
                    g.create_dataset("list", data=np.array([[1, -1, -1, 2]]))
                    g.create_dataset("contents", data=np.array([gid - 1, 1]))

        return {"mesh.h5m": h5(fill)}


class Cgns(Enc):
    name = "cgns"
    ext = ".cgns"
    parts = ("points", "cells")
    menu = {"tet": dict(b=[["tetra", 3]]), "many": dict(b=[["tetra", 8]]), "quad": dict(b=[["quad", 3]]), "hex": dict(b=[["hexahedron", 2]])}
    axes = dict(
        typ=["yes", "no"],
        first=[1, 3],
        store=STORE,
        real=["f8", "f4"],
        whole=["i4", "i8"],
        name=["std", "base", "zone", "elements"],
        extra=["no", "version", "sol", "bc"],
    )
    may = dict(name=["base", "zone", "elements"])

    def admissible(self, case):
        return case["typ"] == "yes" or case["b"] in ("tet", "many")

    def may_refuse(self, case):
        return case["b"] in ("quad", "hex") or Enc.may_refuse(self, case)

    def encode(self, c, case):
        def fill(f):
            put = store(case)
            nm = case["name"]
            if case["extra"] == "version":
                f.create_group("CGNSLibraryVersion").create_dataset(" data", data=np.array([4.2], "f4"))
            b = f.create_group("Base" if nm != "base" else "Base_1")
            b.create_dataset(" data", data=np.array([3, 3], "i4"))
            z = b.create_group("Zone1" if nm != "zone" else "Zone  1")
            P, (t, T) = c["points"], c["cells"][0]
            z.create_dataset(" data", data=np.array([[len(P)], [len(T)], [0]], case["whole"]))
            z.create_group("ZoneType").create_dataset(" data", data=np.frombuffer(b"Unstructured", "i1"))
            g = z.create_group("GridCoordinates")
            for i, x in enumerate("XYZ"):
                put(g.create_group("Coordinate" + x), " data", P[:, i].astype(case["real"]))
            e = z.create_group("GridElements" if nm != "elements" else "Tets")
            if case["typ"] == "yes":
                e.create_dataset(" data", data=np.array([{"tetra": 10, "quad": 7, "hexahedron": 17}[t], 0], "i4"))
            k = case["first"]
            put(e.create_group("ElementRange"), " data", np.array([k, k + len(T) - 1], case["whole"]))
            put(e.create_group("ElementConnectivity"), " data", (T + 1).ravel().astype(case["whole"]))
            if case["extra"] == "sol":
                z.create_group("FlowSolution/Pressure").create_dataset(" data", data=np.zeros(len(P)))
            if case["extra"] == "bc":
                z.create_group("ZoneBC")

        return {"mesh.cgns": h5(fill)}


ENCODERS = [Exodus(), Med(), H5m(), Cgns()]
