"""STL, PLY, OBJ, OFF, WKT, Neuroglancer."""
import numpy as np

from .. import alphabet as A
from .base import Profile, pad3, seqs
from .vtk import merge_runs

F4 = 1.3e-7
PV = ["plain", "tricky", "third", "small", "large", "ints"]


def triangles(content):
    t = [c for k, c in content["cells"] if k == "triangle"]
    return np.concatenate(t).astype(int) if t else np.zeros((0, 3), int)


def dedupe(pts):
    """first-appearance numbering of equal rows"""
    seen = {}
    out = []
    idx = []
    for p in pts.reshape(-1, pts.shape[-1]):
        k = tuple(float(x) + 0.0 for x in p)
        if k not in seen:
            seen[k] = len(out)
            out.append(p)
        idx.append(seen[k])
    return np.array(out), np.array(idx).reshape(pts.shape[:-1])


MIXED = [[[a, 2], [b, 1]] for a in ("triangle", "quad", "line", "vertex", "tetra")
         for b in ("triangle", "quad", "line", "tetra") if "triangle" in (a, b)] + [
    [["triangle", 1], [t, 2], ["triangle", 2]] for t in ("quad", "line", "triangle")] + [
    [["quad", 1], ["triangle", 2], ["line", 1], ["triangle", 1]]]


def normals(q, lim):
    """unit normals of the facets; NaN for facets too thin to have one that survives rounding"""
    with np.errstate(all="ignore"):
        e, f = q[:, 1] - q[:, 0], q[:, 2] - q[:, 0]
        n = np.cross(e, f)
        a, l = np.linalg.norm(n, axis=1), np.linalg.norm(e, axis=1) * np.linalg.norm(f, axis=1)
        n = n / a[:, None]
        n[~((a > 0.02 * l) & (a > lim[0]) & (a < lim[1]))] = np.nan
    return n


def normals_diff(exp, got, case):
    if case.get("cd"):
        return A.arr_diff(exp, got, 0.0 if case["o"] == "asc" else F4, "facet_normals")
    if np.shape(got) != exp.shape:
        return f"facet_normals: shape {np.shape(got)}, expected {exp.shape}"
    ok = np.isfinite(exp).all(axis=1)
    return A.arr_diff(exp[ok], np.asarray(got)[ok], (0.0, 1e-4), "facet_normals")


class STL(Profile):
    name = "stl"
    ext = ".stl"
    file_format = "stl"
    opts = {"asc": dict(binary=False), "bin": dict(binary=True)}
    dims = (3, 2)
    pvs = PV
    pts = ["f8", "f4"]
    npts = [None, 12, 3]
    cts = ["i8", "i4", "u8", "u4"]
    cds = [[], ["facet_normals=f8:3"]]
    bb = [[["triangle", 2]], [["triangle", 5]], [["triangle", 3], ["triangle", 4]], [["quad", 1], ["triangle", 2]]]
    big = [dict(b=[["triangle", 3000]], np=900)]
    bound = {"quick": 3, "thorough": 4}

    def blocks(self):
        return [[["triangle", m]] for m in (2, 1, 3, 4, 7, 12, 40)] + MIXED

    def expected(self, content, case):
        tri = triangles(content)
        pts = pad3(content["points"])
        if case["o"] == "bin":
            with np.errstate(over="ignore"):
                pts = pts.astype("f4")
        c = dict(content)
        p, idx = dedupe(pts[tri])
        c["points"], c["cells"] = p, [("triangle", idx)]
        c["cell_data"] = {}
        if content["cell_data"]:
            nrm = np.concatenate([x for (t, _), x in zip(
                content["cells"], content["cell_data"]["facet_normals"]) if t == "triangle"])
        else:
            nrm = normals(pts[tri].astype(float), (1e-15, 1e15) if content["points"].dtype.itemsize == 4 else (1e-100, 1e100))
        c["normals"] = nrm
        c["point_data"] = {}
        return c

    def tolerances(self, case):
        if case["o"] == "asc" and A.full(case)["pt"] == "f4":
            return dict(tol=F4)
        return dict(tol=0.0)

    def judge(self, exp, got, case, ctx):
        nrm = exp.pop("normals")
        g = got["cell_data"].pop("facet_normals", None)
        if case["o"] == "asc":
            if g is None:
                ctx.fail("normals", "no facet normals")
            else:
                d = normals_diff(nrm, g[0], case)
                if d:
                    ctx.fail("normals", d)
        Profile.judge(self, exp, got, case, ctx)


class PLY(Profile):
    name = "ply"
    ext = ".ply"
    file_format = "ply"
    opts = {"bin": dict(binary=True), "asc": dict(binary=False)}
    types = ["triangle", "vertex", "line", "quad", "polygon:5", "polygon:6", "polygon:7", "polygon:3", "polygon:4",
             "polygon:255", "polygon:256", "polygon:300"]
    core = ["triangle", "quad", "polygon:5", "line", "vertex"]
    dims = (3, 2)
    pts = ["f8", "f4"]
    npts = [None, 300, 1]
    cts = ["i8", "i4", "u8", "u4", "u2", "i2", "u1"]
    lays = ["C", "F", "strided", "rev", "ro", "BE"]
    dtypes = True
    S = ["f8", "f4", "i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1"]
    pds = [[]] + [[s] for s in S] + [["f8!tricky"], ["f4!tricky"], ["i8!tricky"], ["u8!tricky"], ["u1!tricky"],
                                     ["i2!tricky"], ["f8!nan"],
                                     ["red=u1", "green=u1", "blue=u1", "nx=f4", "q=f8", "id=i4"],
                                     ["f8", "f8:3", "i4"]]
    base = dict(pd=["f8", "i4", "u1"])
    bb = [[["triangle", 2]], [["triangle", 2], ["quad", 1], ["triangle", 1]], [["polygon:5", 2], ["line", 1]],
          [["vertex", 3]]]
    big = [dict(b=[["triangle", 3], ["quad", 2]], np=70000, pd=["f8"]),
           dict(b=[["line", 300], ["triangle", 3000]], np=70001, pd=["i4"])]
    bound = {"quick": 3, "thorough": 4}

    def admissible(self, a):
        d = A.full(a)
        if d["np"] is not None and d["np"] < max(A.nn_of(t) for t, _ in d["b"]):
            return False
        return Profile.admissible(self, a)

    def expected(self, content, case):
        c = dict(content)
        name = {1: "vertex", 2: "line", 3: "triangle", 4: "quad"}
        c["cells"] = [(name.get(x.shape[1], "polygon"), x) for _, x in content["cells"]]
        c = merge_runs(dict(c, cell_data={}))
        # only scalar point data is in the format
        c["point_data"] = {k: v for k, v in c["point_data"].items() if v.ndim == 1}
        return c

    def tolerances(self, case):
        return dict(tol="bits" if case["o"] == "bin" else 0.0, dtypes=True)


class OBJ(Profile):
    name = "obj"
    ext = ".obj"
    file_format = "obj"
    opts = {"": {}}
    types = ["triangle", "quad", "polygon:5", "polygon:6", "polygon:3", "polygon:4", "polygon:300"]
    core = ["triangle", "quad", "polygon:5", "polygon:6"]
    pts = ["f8", "f4"]
    npts = [None, 40]
    cts = ["i8", "i4", "u8", "u4"]
    pds = [[], ["obj:vn=f8:3"], ["obj:vt=f8:2"], ["obj:vn=f8:3!tricky", "obj:vt=f8:3!third"]]
    extra_ok = ("obj:group_ids",)
    bound = {"quick": 3, "thorough": 4}
    bb = [[["triangle", 2]], [["triangle", 2], ["quad", 1], ["triangle", 1]], [["polygon:5", 2], ["polygon:6", 1]]]
    big = [dict(b=[["triangle", 3], ["quad", 2]], np=70000)]

    def expected(self, content, case):
        c = dict(content)
        name = {3: "triangle", 4: "quad"}
        c["cells"] = [(name.get(x.shape[1], "polygon"), x) for _, x in content["cells"]]
        c["cell_data"] = {}
        return merge_runs(c)

    def tolerances(self, case):
        return dict(tol=F4 if A.full(case)["pt"] == "f4" else 0.0, data_tol=0.0)


class OFF(Profile):
    name = "off"
    ext = ".off"
    file_format = "off"
    opts = {"": {}}
    dims = (3, 2)
    pts = ["f8", "f4"]
    npts = [None, 40, 3]
    cts = ["i8", "i4", "u8", "u4"]
    bound = {"quick": 4, "thorough": 5}
    bb = [[["triangle", 2]], [["triangle", 3], ["triangle", 4]], [["quad", 1], ["triangle", 2]]]
    big = [dict(b=[["triangle", 3000]], np=70000)]
    blocks = STL.blocks

    def expected(self, content, case):
        c = dict(content)
        c["points"] = pad3(c["points"])
        c["cells"] = [("triangle", triangles(content))]
        c["cell_data"] = {}
        c["point_data"] = {}
        return c

    def tolerances(self, case):
        return dict(tol=F4 if A.full(case)["pt"] == "f4" else 0.0)


class WKT(OFF):
    name = "wkt"
    ext = ".wkt"
    file_format = "wkt"
    dims = (3,)
    big = [dict(b=[["triangle", 300]], np=900)]

    def expected(self, content, case):
        c = OFF.expected(self, content, case)
        p, idx = dedupe(c["points"][c["cells"][0][1]])
        c["points"], c["cells"] = p, [("triangle", idx)]
        return c


class NG(OFF):
    name = "neuroglancer"
    ext = ".ng"
    file_format = "neuroglancer"

    def read_format(self):
        return "neuroglancer"

    def expected(self, content, case):
        c = OFF.expected(self, content, case)
        with np.errstate(over="ignore"):
            c["points"] = c["points"].astype("f4")
        return c

    def tolerances(self, case):
        return dict(tol=0.0)


PROFILES = [STL(), PLY(), OBJ(), OFF(), WKT(), NG()]
