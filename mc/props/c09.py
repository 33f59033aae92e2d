"""Written files, decoded independently."""
import copy

import numpy as np

from .. import alphabet as A
from ..dec import Bad
from ..dec import decks as DD
from ..dec import gmsh as DG
from ..dec import hdf as DH
from ..dec import misc as DM
from ..dec import surface as DS
from ..dec import vtk as DV
from ..dec import xdmf as DX
from ..fmt import decks, gmsh, hdf, misc, surface, vtk, xdmf
from ..fmt.base import Profile, _fingerprint, pad3

PROP = "C09"
LEVEL = "model_checking"
RULE = ("every format with an independent decoder: every block sequence x every writer option with rich data, then all "
        "single (thorough: double) deviations over points, dtypes, layouts, data and sets x options; the bytes written "
        "are decoded by mc/dec and compared with the mesh given")
MIN_CASES = 35000


class SVG(Profile):
    name = "svg"
    ext = ".svg"
    file_format = "svg"
    opts = {"": {}, "raw": dict(image_width=None, float_fmt=".10f"), "w": dict(image_width=37, float_fmt=".8f", stroke_width="1")}
    types = ["triangle", "line", "quad"]
    core = types
    dims = (2, 3)
    pts = ["f8", "f4"]
    pvs = ["flat", "ints", "third"]
    npts = [None, 12]
    base = dict(d=2, pv="flat")

    def blocks(self):
        return Profile.blocks(self) + [[["vertex", 1], ["triangle", 2]], [["tetra", 1], ["quad", 2]]]

    def admissible(self, a):
        d = A.full(a)
        return (d["d"] == 2 or d["pv"] == "flat") and Profile.admissible(self, a)


def flat(content):
    return [(t, [int(x) for x in r]) for t, c in content["cells"] for r in c]


def cat(v):
    return np.concatenate(v) if len(v) else np.zeros(0)


def cmp_points(ctx, e, g, tol):
    d = A.arr_diff(np.asarray(e), np.asarray(g), tol, "points")
    if d:
        ctx.fail("points", d)


def cmp_cells(ctx, e, g):
    g = [(t, [int(x) for x in c]) for t, c in g]
    if e != g:
        for i, (x, y) in enumerate(zip(e, g)):
            if x != y:
                ctx.fail("cells", f"cell {i}: file has {y}, mesh has {x}")
                return
        ctx.fail("cells", f"{len(g)} cells in the file, {len(e)} in the mesh")


def cmp_data(ctx, what, e, g, tol, ignore=()):
    g = {k: v for k, v in g.items() if k not in ignore}
    e = {k: v for k, v in e.items() if k not in ignore}
    if set(e) != set(g):
        ctx.fail(what + "-names", f"{what} {sorted(g)}, expected {sorted(e)}")
    for k in set(e) & set(g):
        x = np.asarray(cat(e[k]) if isinstance(e[k], list) else e[k])
        y = g[k]
        y = cat(y) if isinstance(y, list) else np.asarray(y)
        if x.shape != y.shape and x.size == y.size:
            y = y.reshape(x.shape)
        d = A.arr_diff(x, y, tol, f"{what}[{k}]")
        if d:
            ctx.fail(what, d)


def std(prof, case, content, dec, ctx, data=True):
    exp = prof.expected(content, case)
    tol = prof.tolerances(case)
    pt = tol.get("tol", 0.0)
    dt = tol.get("data_tol")
    dt = pt if dt is None else dt
    pt = 0.0 if pt == "bits" else pt
    dt = 0.0 if dt == "bits" else dt
    g = dec["points"]
    e = exp["points"]
    if e.shape != g.shape and e.shape[1] == 2 and g.shape[1] == 3:
        e = pad3(e)
    cmp_points(ctx, e, g, pt)
    cmp_cells(ctx, flat(exp), dec["cells"])
    if data:
        if "point_data" in prof.parts:
            cmp_data(ctx, "point_data", exp["point_data"], dec["point_data"], dt, prof.extra_ok)
        if "cell_data" in prof.parts:
            cmp_data(ctx, "cell_data", exp["cell_data"], dec["cell_data"], dt, prof.extra_ok)
    return exp


def j_gmsh(prof, case, content, dec, ctx):
    exp = prof.expected(content, case)
    v = prof.opts[case["o"]][0]
    cmp_points(ctx, exp["points"], dec["points"], 0.0)
    cmp_cells(ctx, flat(exp), dec["cells"])
    tags = ("gmsh:physical", "gmsh:geometrical", "gmsh:dim_tags")
    cmp_data(ctx, "point_data", exp["point_data"], dec["point_data"], 0.0, tags)
    cmp_data(ctx, "cell_data", exp["cell_data"], dec["cell_data"], 0.0, tags)
    if v == "2.2":
        t = np.array([x[:2] for x in dec["tags"]])
        for i, k in enumerate(tags[:2]):
            e = cat(exp["cell_data"][k])
            if t.shape != (len(e), 2) or not (t[:, i] == e).all():
                ctx.fail("tags", f"{k}: {t.tolist()}, expected {e.tolist()}")
    elif v == "4.1":
        dt = exp["point_data"]["gmsh:dim_tags"]
        if [tuple(x) for x in dec["node_ent"]] != [tuple(x) for x in dt.tolist()]:
            ctx.fail("entities", f"node entities {dec['node_ent']}, expected {dt.tolist()}")
        geo = cat(exp["cell_data"]["gmsh:geometrical"]).tolist()
        if [x[1] for x in dec["tags"]] != geo:
            ctx.fail("entities", f"element entities {dec['tags']}, expected tags {geo}")
        if case.get("gm"):
            for i, (t, c) in enumerate(content["cells"]):
                key = (A.DIM[t], int(content["cell_data"]["gmsh:geometrical"][i][0]))
                phys = dec["entities"].get(key, (None, None))[0]
                pt = content["cell_data"].get("gmsh:physical")
                want = [int(pt[i][0])] if pt is not None and pt[i][0] else []
                if phys != want:
                    ctx.fail("entities", f"physical groups of entity {key}: {phys}, expected {want}")
    if v != "4.0" or True:
        names = {k: tuple(int(y) for y in x) for k, x in exp["field_data"].items()}
        if names != dec["names"]:
            ctx.fail("names", f"{dec['names']}, expected {names}")
    ep = exp["per"]
    if ep is not None:
        g = dec["periodic"]
        e = [(a, b[0], b[1], [] if f is None else list(f), [tuple(int(y) for y in x) for x in s]) for a, b, f, s in ep]
        if g != e:
            ctx.fail("periodic", f"{g}, expected {e}")
    elif dec["periodic"]:
        ctx.fail("periodic", f"{dec['periodic']}, expected none")
    return exp


def j_facets(prof, case, content, dec, ctx):
    tri = surface.triangles(content)
    p = pad3(content["points"])
    if case["o"] == "bin":
        with np.errstate(over="ignore"):
            p = p.astype("f4")
    tol = prof.tolerances(case)["tol"]
    d = A.arr_diff(p[tri], dec["facets"], tol, "facets")
    if d:
        ctx.fail("facets", d)
    exp = prof.expected(content, case)
    n = exp.pop("normals", None)
    d = surface.normals_diff(n, dec["normals"], case) if n is not None else None
    if d:
        ctx.fail("normals", d)
    return exp


def j_svg(prof, case, content, dec, ctx):
    p = content["points"][:, :2].astype(float)
    w, h = np.ptp(p[:, 0]), np.ptp(p[:, 1])
    iw = prof.opts[case["o"]].get("image_width", 100)
    s = iw / w if iw is not None and w else 1.0
    q = p.copy()
    q[:, 1] = p[:, 1].max() + p[:, 1].min() - p[:, 1]
    q *= s
    atol = 6e-4 if case["o"] == "" else 1e-5 * max(1.0, float(np.abs(q).max()))
    if A.full(case)["pt"] == "f4":
        atol += 3e-6 * float(np.abs(q).max())
    exp = []
    for t, c in content["cells"]:
        if t in ("line", "triangle", "quad"):
            exp += [(t != "line", q[r.astype(int)]) for r in c]
    got = dec["paths"]
    if len(got) != len(exp):
        ctx.fail("cells", f"{len(got)} paths, expected {len(exp)}")
        return content
    for (c1, a), (c2, b) in zip(exp, got):
        b = np.array(b)
        if c1 != c2 or a.shape != b.shape or np.abs(a - b).max() > atol:
            ctx.fail("cells", f"path {b.tolist()} closed={c2}, expected {a.tolist()} closed={c1}")
            return content
    box = np.array([q[:, 0].min(), q[:, 1].min(), w * s, h * s])
    if np.abs(box - dec["box"]).max() > atol:
        ctx.fail("box", f"viewBox {dec['box']}, expected {box.tolist()}")
    return content


def j_sets(prof, case, content, dec, ctx):
    exp = std(prof, case, content, dec, ctx, data=False)
    if "point_sets" in dec:
        e = {k: sorted(int(x) for x in v) for k, v in content["point_sets"].items()}
        g = {k: sorted(v) for k, v in dec["point_sets"].items()}
        if e != g:
            ctx.fail("point_sets", f"{g}, expected {e}")
    if "cell_sets" in dec:
        off = np.cumsum([0] + [len(c) for _, c in content["cells"]])
        e = {}
        for k, v in content["cell_sets"].items():
            e[k] = sorted(int(x) + int(off[i]) for i, m in enumerate(v) if m is not None for x in m)
        g = {k: sorted(v) for k, v in dec["cell_sets"].items()}
        e = {k: v for k, v in e.items() if v}
        g = {k: v for k, v in g.items() if v}
        if e != g:
            ctx.fail("cell_sets", f"{g}, expected {e}")
    return exp


def j_exodus(prof, case, content, dec, ctx):
    exp = std(prof, case, content, dec, ctx, data=False)
    e = {k: sorted(int(x) for x in v) for k, v in content["point_sets"].items()}
    g = {k: sorted(v) for k, v in dec["point_sets"].items()}
    if e != g:
        ctx.fail("point_sets", f"{g}, expected {e}")
    cmp_data(ctx, "point_data", content["point_data"], dec["point_data"], 0.0)
    return exp


def j_med(prof, case, content, dec, ctx):
    exp = prof.expected(content, case)
    cmp_points(ctx, exp["points"], dec["points"], 0.0)
    cmp_cells(ctx, flat(exp), dec["cells"])
    # a name used for points and for cells is one MED field with two supports
    for k, v in exp["cell_data"].items():
        g = dec["cell_data"].get(k)
        if g is None:
            ctx.fail("cell_data-names", f"cell field {k} not in the file")
            continue
        parts = g if isinstance(g, list) else None
        for i, x in enumerate(v):
            if parts is not None:
                y = parts[i]
                if y is None:
                    ctx.fail("cell_data", f"field {k} has nothing for block {i}")
                    continue
            else:
                o = sum(len(z) for z in v[:i])
                y = g[o:o + len(x)]
            y = np.asarray(y)
            if y.size != x.size:
                ctx.fail("cell_data", f"field {k}[{i}]: {y.shape}, expected {x.shape}")
                continue
            d = A.arr_diff(x, y.reshape(x.shape), 0.0, f"cell_data[{k}][{i}]")
            if d:
                ctx.fail("cell_data", d)
    for k, v in exp["point_data"].items():
        g = dec["point_data"].get(k)
        if g is None:
            ctx.fail("point_data-names", f"point field {k} not in the file")
            continue
        d = A.arr_diff(v, np.asarray(g).reshape(v.shape), 0.0, f"point_data[{k}]")
        if d:
            ctx.fail("point_data", d)
    return exp


def j_ansys(prof, case, content, dec, ctx):
    exp = std(prof, case, content, dec, ctx, data=False)
    n, m = len(content["points"]), sum(len(c) for _, c in content["cells"])
    d = dec["decl"]
    if 10 in d and d[10][2] != n:
        ctx.fail("declaration", f"{d[10]} for {n} nodes")
    if 12 in d and d[12][2] != m:
        ctx.fail("declaration", f"{d[12]} for {m} cells")
    return exp


def j_mdpa(prof, case, content, dec, ctx):
    exp = prof.expected(content, case)
    cmp_points(ctx, exp["points"], dec["points"], 0.0)
    e = [c for _, c in flat(exp)]
    g = [c for _, c in dec["cells"]]
    # (the node order of quadratic Kratos geometries is not judged)
    if [sorted(x) for x in e] != [sorted(x) for x in g]:
        ctx.fail("cells", f"{g}, expected {e}")
    for i, (x, y) in enumerate(zip(flat(exp), g)):
        if x[0] in ("line", "triangle", "quad", "tetra", "hexahedron", "wedge") and x[1] != y:
            ctx.fail("cells", f"cell {i}: {y}, expected {x}")
            break
    return exp


def j_netgen(prof, case, content, dec, ctx):
    exp = std(prof, case, content, dec, ctx)
    names = {k: tuple(int(y) for y in x) for k, x in exp["field_data"].items()}
    if names != dec["names"]:
        ctx.fail("names", f"{dec['names']}, expected {names}")
    return exp


def j_su2(prof, case, content, dec, ctx):
    exp = prof.expected(content, case)
    cmp_points(ctx, exp["points"], dec["points"], prof.tolerances(case)["tol"])
    dim = content["points"].shape[1]
    inner = ("triangle", "quad") if dim == 2 else ("tetra", "hexahedron", "wedge", "pyramid")
    bnd = ("line",) if dim == 2 else ("triangle", "quad")
    e = [x for x in flat(content) if x[0] in inner]
    cmp_cells(ctx, e, dec["inner"])
    k = misc.Medit.pick(content["cell_data"])
    tag = content["cell_data"][k] if k else [np.ones(len(c), dtype=int) for _, c in content["cells"]]
    eb = [((t, [int(x) for x in r]), int(v)) for (t, c), tv in zip(content["cells"], tag) if t in bnd for r, v in zip(c, tv)]
    key = lambda x: (x[1], x[0][0], x[0][1])
    if sorted(eb, key=key) != sorted(dec["boundary"], key=key):
        ctx.fail("markers", f"{sorted(dec['boundary'], key=key)}, expected {sorted(eb, key=key)}")
    return exp


def j_flac(prof, case, content, dec, ctx):
    exp = std(prof, case, content, dec, ctx, data=False)
    e = {}
    off = np.cumsum([0] + [len(c) for _, c in exp["cells"]])
    for k, v in exp["cell_sets"].items():
        flag, name, slot = k.split(":")
        base = dec["nface"] if flag == "zone" else 0
        e[(flag, name, slot)] = sorted(int(x) + int(off[i]) - base + 1 for i, m in enumerate(v) for x in m)
    g = {k: sorted(v) for k, v in dec["groups"].items()}
    if e != g:
        ctx.fail("groups", f"{g}, expected {e}")
    return exp


def j_tecplot(prof, case, content, dec, ctx):
    exp = prof.expected(content, case)
    tol = prof.tolerances(case)
    cmp_points(ctx, exp["points"], dec["points"], tol["tol"])
    cmp_cells(ctx, flat(exp), dec["cells"])
    cmp_data(ctx, "point_data", exp["point_data"], dec["point_data"], tol["data_tol"])
    cmp_data(ctx, "cell_data", exp["cell_data"], dec["cell_data"], tol["data_tol"])
    return exp


def j_std(prof, case, content, dec, ctx):
    return std(prof, case, content, dec, ctx)


TABLE = {
    "vtk": (vtk, DV.decode_vtk, j_std), "vtu": (vtk, DV.decode_vtu, j_std),
    "gmsh": (gmsh, DG.decode_gmsh, j_gmsh), "xdmf": (xdmf, DX.decode_xdmf, j_std),
    "stl": (surface, DS.decode_stl, j_facets), "ply": (surface, DS.decode_ply, j_std),
    "obj": (surface, DS.decode_obj, j_std), "off": (surface, DS.decode_off, j_std),
    "wkt": (surface, DS.decode_wkt, j_facets), "neuroglancer": (surface, DS.decode_ng, j_std),
    "abaqus": (decks, DD.decode_abaqus, j_sets), "nastran": (decks, DD.decode_nastran, j_std),
    "permas": (decks, DD.decode_permas, j_std), "ansys": (decks, DD.decode_ansys, j_ansys),
    "mdpa": (decks, DD.decode_mdpa, j_mdpa), "med": (hdf, DH.decode_med, j_med),
    "cgns": (hdf, DH.decode_cgns, j_std), "h5m": (hdf, DH.decode_h5m, j_std),
    "exodus": (hdf, DH.decode_exodus, j_exodus), "medit": (misc, DM.decode_medit, j_std),
    "netgen": (misc, DM.decode_netgen, j_netgen), "tetgen": (misc, DM.decode_tetgen, j_std),
    "ugrid": (misc, DM.decode_ugrid, j_std), "avsucd": (misc, DM.decode_avsucd, j_std),
    "dolfin": (misc, DM.decode_dolfin, j_std), "su2": (misc, DM.decode_su2, j_su2),
    "tecplot": (misc, DM.decode_tecplot, j_tecplot), "flac3d": (misc, DM.decode_flac3d, j_flac),
    "svg": (None, DS.decode_svg, j_svg),
}
PROF = {}
for _n, (_m, _d, _j) in TABLE.items():
    _p = SVG() if _m is None else copy.copy(next(p for p in _m.PROFILES if p.name == _n))
    _p.bound = {"quick": 1, "thorough": 2}
    _p.big = [b for b in _p.big if sum(x[1] for x in b["b"]) < 6000 and (b.get("np") or 0) < 9000]
    if _n in ("cgns", "off", "wkt", "neuroglancer", "svg"):
        _p.bound = {"quick": 2, "thorough": 3}
    PROF[_n] = _p


def cases(tier):
    import os
    only = os.environ.get("MC_ONLY")
    for n, p in PROF.items():
        if not only or n in only.split(","):
            if n == "med" and tier == "quick":
                yield {"cd": ["same=f8"], "f": "med", "o": "", "pd": ["same=f8:3"]}  # (a known finding)
            for c in Profile.cases(p, "quick" if tier == "quick" else tier) if n != "su2" else p.cases(tier):
                yield c


def run(case, ctx):
    import meshio

    f = case["f"]
    prof = PROF[f]
    _, dec, judge = TABLE[f]
    content = prof.content(case)
    mesh = prof.mesh(meshio, content, case)
    p = prof.path(ctx.dir)
    prof.write(meshio, p, mesh, case)
    ctx.step()
    try:
        d = dec(p, case)
    except Bad as e:
        ctx.fail("layout", str(e))
        return
    ctx.step()
    exp = judge(prof, case, content, d, ctx)
    ctx.trace()
    ctx.state(_fingerprint(exp, f))
    ctx.outcome(f"decoded:{f}:{case['o']}")
