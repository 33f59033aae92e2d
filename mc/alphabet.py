"""The mesh alphabet: tiny descriptors -> concrete inputs, plus canonical
contents and comparison. Nothing in here is taken from meshio's tables."""

import numpy as np

# number of nodes per cell type (from the public node-ordering documentation)
NN = {
    "vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "pyramid": 5,
    "wedge": 6, "hexahedron": 8, "line3": 3, "triangle6": 6, "quad8": 8,
    "quad9": 9, "tetra10": 10, "pyramid13": 13, "pyramid14": 14, "wedge15": 15,
    "wedge18": 18, "wedge12": 12, "hexahedron20": 20, "hexahedron24": 24,
    "hexahedron27": 27, "triangle7": 7, "triangle10": 10, "triangle15": 15,
    "triangle21": 21, "triangle28": 28, "triangle36": 36, "triangle45": 45,
    "triangle55": 55, "triangle66": 66, "quad16": 16, "quad25": 25, "quad36": 36,
    "quad49": 49, "quad64": 64, "quad81": 81, "quad100": 100, "quad121": 121,
    "line4": 4, "line5": 5, "line6": 6, "line7": 7, "line8": 8, "line9": 9,
    "line10": 10, "line11": 11, "tetra20": 20, "tetra35": 35, "tetra56": 56,
    "tetra84": 84, "tetra120": 120, "tetra165": 165, "tetra220": 220,
    "tetra286": 286, "wedge40": 40, "wedge75": 75, "wedge126": 126,
    "wedge196": 196, "wedge288": 288, "wedge405": 405, "wedge550": 550,
    "hexahedron64": 64, "hexahedron125": 125, "hexahedron216": 216,
    "hexahedron343": 343, "hexahedron512": 512, "hexahedron729": 729,
    "hexahedron1000": 1000,
}
DIM = {}
for _t in NN:
    for _p, _d in [("vertex", 0), ("line", 1), ("triangle", 2), ("quad", 2),
                   ("tetra", 3), ("pyramid", 3), ("wedge", 3), ("hexahedron", 3)]:
        if _t.startswith(_p):
            DIM[_t] = _d
DIM["polygon"] = 2


def nn_of(t):
    """Block types in descriptors may carry an explicit node count: polygon:5,
    VTK_LAGRANGE_TRIANGLE:6."""
    if ":" in t:
        return int(t.split(":")[1])
    return NN[t]


def base_type(t):
    return t.split(":")[0]


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
TRICKY = [
    1.0 / 3.0, -0.0, 1.0e-5, -2.5e7, 123456.7890123, 1.0e300, -1.0e-300,
    3.141592653589793, -7.0, 1.0e16, 0.1, 2.0 ** -40, -1.0 / 7.0, 65536.0,
    1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-5, 99999.99999999999,
]
TRICKY32 = [
    1.0 / 3.0, -0.0, 1.0e-5, -2.5e7, 123456.79, 1.0e30, -1.0e-30, 3.1415927,
    -7.0, 1.0e16, 0.1, 2.0 ** -20, -1.0 / 7.0, 65536.0, 3.4e38, 1.2e-38,
]


def points(n, dim, variant="plain", dtype="f8"):
    dt = np.dtype(dtype)
    if variant == "plain":
        i = np.arange(n, dtype=float)
        p = np.column_stack(
            [0.5 + 0.375 * i, -2.0 + 1.25 * ((i * i) % 11) + i / 64.0, 3.0 - 0.8125 * i]
        )[:, :dim]
    elif variant in ("tricky", "tricky0"):
        src = TRICKY if dt.itemsize == 8 else TRICKY32
        if variant == "tricky0":  # without the extremes, which a decimal rounding leaves
            src = [x for x in src if abs(x) < 1e308 and abs(x) < (1e300 if dt.itemsize == 8 else 1e38) * 10]
        k = np.arange(n * dim)
        # distinct rows: shift by row, scaled by small powers of two
        vals = np.array(src)[(k * 5 + k // len(src)) % len(src)]
        p = vals.reshape(n, dim).copy()
        if n:
            p[:, 0] = np.arange(n) / 3.0 - 1.0
    elif variant == "third":
        k = np.arange(n * dim, dtype=float)
        p = ((k + 1.0) / 3.0 * np.where(k % 2 == 0, 1, -1)).reshape(n, dim)
    elif variant == "small":
        k = np.arange(n * dim, dtype=float)
        p = ((k + 1.0) * 1.1e-7 * np.where(k % 3 == 0, -1, 1)).reshape(n, dim)
    elif variant == "large":
        k = np.arange(n * dim, dtype=float)
        p = ((k + 1.0) * 1.234567e9 * np.where(k % 3 == 1, -1, 1)).reshape(n, dim)
    elif variant == "ints":
        k = np.arange(n * dim, dtype=float)
        p = (k * 7 % 13 - 5 + 100 * (k // dim)).reshape(n, dim)
    elif variant == "flat":  # third coordinate zero
        i = np.arange(n, dtype=float)
        p = np.column_stack([0.5 + 0.375 * i, -2.0 + 1.25 * ((i * i) % 11) + i / 64.0,
                             0 * i])[:, :dim]
    else:
        raise ValueError(variant)
    return np.ascontiguousarray(p.astype(dt))


def layout(a, lay):
    """Same values, different memory."""
    if lay == "C":
        return np.ascontiguousarray(a)
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "strided":
        big = np.empty(tuple(2 * s for s in a.shape), dtype=a.dtype)
        big[...] = 0
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if lay == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    if lay == "ro":
        b = np.ascontiguousarray(a).copy()
        b.flags.writeable = False
        return b
    if lay == "BE":
        return a.astype(a.dtype.newbyteorder(">"))
    raise ValueError(lay)


def conn(t, m, npts, salt=0):
    """m cells of type t: all node ids inside a cell distinct, every permutation
    of the local numbering visible, last point used by the last cell."""
    k = nn_of(t)
    out = np.empty((m, k), dtype=np.int64)
    for c in range(m):
        off = (salt * 3 + c * 2 + 1) % npts
        # an affine sequence with step coprime to npts keeps ids distinct
        step = 1
        for s in (5, 7, 3, 11, 13, 2, 1):
            if np.gcd(s, npts) == 1:
                step = s
                break
        out[c] = (off + step * np.arange(k)) % npts
    return out


def data_array(n, spec, salt=0):
    """spec: '<dtype>[:<ncomp>[x<ncomp2>]]' optionally followed by '!v' for a
    tricky-valued variant."""
    var = "plain"
    if "!" in spec:
        spec, var = spec.split("!")
    dt, _, sh = spec.partition(":")
    shape = (n,) + (tuple(int(s) for s in sh.split("x")) if sh else ())
    cnt = int(np.prod(shape))
    d = np.dtype(dt)
    k = np.arange(cnt)
    if d.kind == "f":
        if var == "tricky":
            src = TRICKY if d.itemsize == 8 else TRICKY32
            a = np.array(src)[(k * 7 + salt) % len(src)]
        elif var == "nan":
            a = np.array([np.nan, np.inf, -np.inf, 1.5])[(k + salt) % 4]
        elif var == "third":
            a = (k + 1.0 + salt) / 3.0
        else:
            a = (k + 1) * 0.4375 - 3.0 + 10 * salt
    elif d.kind == "i":
        if var == "tricky":
            ii = np.iinfo(d)
            a = np.array([ii.min, ii.max, -1, 0, 1, 77])[(k + salt) % 6]
        elif var == "tags":  # small positive
            a = (k * 3 + salt) % 5 + 1
        else:
            a = (k * 3 + salt) % 17 - 4
            if salt:
                a = a + salt * 20 if d.itemsize > 1 else a
    elif d.kind == "u":
        if var == "tricky":
            ii = np.iinfo(d)
            a = np.array([ii.max, 0, 1, 77], dtype=np.uint64)[(k + salt) % 4]
        else:
            a = (k * 3 + salt * 5) % 23
    elif d.kind == "b":
        a = (k + salt) % 2 == 0
    else:
        raise ValueError(spec)
    return np.asarray(a).astype(d).reshape(shape)


# --------------------------------------------------------------------------
# building meshes
# --------------------------------------------------------------------------
DEFAULTS = dict(
    d=3, pv="plain", pt="f8", np=None, b=[["triangle", 2]], ct="i8", lay="C",
    pd=[], cd=[], fd=None, ps=None, cs=None, extra=2,
)


def full(desc):
    out = dict(DEFAULTS)
    out.update({k: v for k, v in desc.items() if k in DEFAULTS})
    return out


def npoints(desc):
    d = full(desc)
    if d["np"] is not None:
        return d["np"]
    k = max([nn_of(t) for t, _ in d["b"]] + [1])
    return k + d["extra"]


def names_for(prefix, specs):
    """spec may be 'name=dtype..' """
    out = []
    for i, s in enumerate(specs):
        if "=" in s:
            nm, s = s.split("=", 1)
        else:
            nm = f"{prefix}{i}"
        out.append((nm, s))
    return out


def build(desc):
    """-> plain dict of numpy arrays: the model content of the input mesh."""
    d = full(desc)
    n = npoints(desc)
    pts = points(n, d["d"], d["pv"], d["pt"])
    cells = []
    for bi, (t, m) in enumerate(d["b"]):
        c = conn(t, m, n, salt=bi).astype(d["ct"])
        cells.append((base_type(t), c))
    pd = {nm: data_array(n, s, i) for i, (nm, s) in enumerate(names_for("pa", d["pd"]))}
    cd = {}
    for i, (nm, s) in enumerate(names_for("ca", d["cd"])):
        cd[nm] = [data_array(len(c), s, i + 3 * bi) for bi, (_, c) in enumerate(cells)]
    fd = {}
    if d["fd"]:
        fd = {k: np.array(v) for k, v in d["fd"].items()}
    ps = {}
    if d["ps"]:
        ps = {k: np.array(v, dtype=np.int64) for k, v in d["ps"].items()}
    cs = {}
    if d["cs"]:
        cs = {
            k: [None if x is None else np.array(x, dtype=np.int64) for x in v]
            for k, v in d["cs"].items()
        }
    return dict(points=pts, cells=cells, point_data=pd, cell_data=cd, field_data=fd,
                point_sets=ps, cell_sets=cs)


def to_mesh(meshio, content, lay="C"):
    L = (lambda a: layout(a, lay)) if lay != "C" else (lambda a: np.array(a))
    return meshio.Mesh(
        L(content["points"]),
        [(t, L(c)) for t, c in content["cells"]],
        point_data={k: L(v) for k, v in content["point_data"].items()},
        cell_data={k: [L(x) for x in v] for k, v in content["cell_data"].items()},
        field_data={k: np.array(v) for k, v in content["field_data"].items()},
        point_sets={k: np.array(v) for k, v in content["point_sets"].items()},
        cell_sets={
            k: [None if x is None else np.array(x) for x in v]
            for k, v in content["cell_sets"].items()
        },
    )


def content_of(mesh):
    """Canonical content of a meshio mesh (deep copy)."""
    cells = []
    for c in mesh.cells:
        if c.type.startswith("polyhedron"):
            cells.append((c.type, [[np.array(f) for f in cell] for cell in c.data]))
        else:
            cells.append((c.type, np.array(c.data)))
    return dict(
        points=np.array(mesh.points),
        cells=cells,
        point_data={k: np.array(v) for k, v in mesh.point_data.items()},
        cell_data={k: [np.array(x) for x in v] for k, v in mesh.cell_data.items()},
        field_data={k: np.array(v) for k, v in mesh.field_data.items()},
        point_sets={k: np.array(v) for k, v in mesh.point_sets.items()},
        cell_sets={
            k: [None if x is None else np.array(x) for x in v]
            for k, v in mesh.cell_sets.items()
        },
    )


# --------------------------------------------------------------------------
# comparison
# --------------------------------------------------------------------------
def _num(a):
    a = np.asarray(a)
    if a.dtype.kind == "O":
        try:
            a = a.astype(float)
        except Exception:
            pass
    return a


def arr_diff(exp, got, tol=0.0, what="array", dtype=None, shape=True):
    """None or a description. tol=0: exactly equal values (NaN == NaN; sign of zero
    is not compared unless tol == 'bits'). tol>0: relative tolerance per entry,
    absolute tolerance 0 unless (rtol, atol) is given."""
    exp = np.asarray(exp)
    got = _num(got)
    if shape and exp.shape != got.shape:
        return f"{what}: shape {got.shape}, expected {exp.shape}"
    if dtype is not None and got.dtype.newbyteorder("=") != np.dtype(dtype).newbyteorder("="):
        return f"{what}: dtype {got.dtype}, expected {np.dtype(dtype)}"
    if exp.size == 0:
        return None
    if got.dtype.kind not in "fiub":
        return f"{what}: non-numeric dtype {got.dtype}"
    if tol == "bits":
        e = exp.astype(got.dtype.newbyteorder("="))
        g = got.astype(got.dtype.newbyteorder("="))
        if e.tobytes() != g.tobytes():
            ok = (e == g) | ((e != e) & (g != g))
            if g.dtype.kind == "f":
                ok &= (np.signbit(e) == np.signbit(g)) | (e != e)
            bad = np.argwhere(~ok)
            if len(bad) == 0:
                return None
            i = tuple(bad[0])
            return f"{what}{list(map(int, i))}: got {g[i]!r}, expected {e[i]!r}"
        return None
    if exp.dtype.kind in "iub" and got.dtype.kind in "iub":
        ok = exp.astype(object) == got.astype(object) if (
            exp.dtype.kind != got.dtype.kind) else exp == got
        ok = np.asarray(ok, dtype=bool)
    else:
        with np.errstate(all="ignore"):
            e = exp.astype(float)
            g = got.astype(float)
            ok = (e == g) | (np.isnan(e) & np.isnan(g))
            if not isinstance(tol, (int, float)):
                rt, at = tol
            else:
                rt, at = tol, 0.0
            if rt or at:
                ok |= np.isfinite(e) & np.isfinite(g) & (
                    np.abs(e - g) <= at + rt * np.abs(e))
    if np.all(ok):
        return None
    i = tuple(np.argwhere(~ok)[0])
    return f"{what}{list(map(int, i))}: got {got[i]!r}, expected {exp[i]!r}"


def compare(exp, got, tol=0.0, data_tol=None, parts=("points", "cells", "point_data",
            "cell_data"), extra_ok=(), dtypes=False):
    """Compare two contents; list of (sig, msg)."""
    data_tol = tol if data_tol is None else data_tol
    out = []

    def add(sig, msg):
        if msg:
            out.append((sig, msg))

    if "points" in parts:
        add("points", arr_diff(exp["points"], got["points"], tol, "points",
                               dtype=exp["points"].dtype if dtypes else None))
    if "cells" in parts:
        te = [t for t, _ in exp["cells"]]
        tg = [t for t, _ in got["cells"]]
        if te != tg or [len(c) for _, c in exp["cells"]] != [len(c) for _, c in got["cells"]]:
            add("blocks", "cell blocks %r, expected %r" % (
                [(t, len(c)) for t, c in got["cells"]],
                [(t, len(c)) for t, c in exp["cells"]]))
        else:
            for i, ((t, e), (_, g)) in enumerate(zip(exp["cells"], got["cells"])):
                if isinstance(e, list):
                    ee = [[list(map(int, f)) for f in c] for c in e]
                    gg = [[list(map(int, f)) for f in c] for c in g]
                    if ee != gg:
                        add("cells", f"cells[{i}] {t}: got {gg}, expected {ee}")
                    continue
                if len(e) == 0 and len(g) == 0:
                    continue
                g = np.asarray(g)
                if g.dtype.kind not in "iu":
                    add("cells-dtype", f"cells[{i}] {t} has dtype {g.dtype}")
                add("cells", arr_diff(e, g, 0.0, f"cells[{i}] {t}"))
    if "point_data" in parts:
        _cmp_data(exp["point_data"], got["point_data"], data_tol, "point_data", add,
                  extra_ok, dtypes)
    if "cell_data" in parts:
        _cmp_data(exp["cell_data"], got["cell_data"], data_tol, "cell_data", add,
                  extra_ok, dtypes)
    if "field_data" in parts:
        _cmp_data(exp["field_data"], got["field_data"], data_tol, "field_data", add,
                  extra_ok, False)
    if "point_sets" in parts:
        if set(exp["point_sets"]) != set(got["point_sets"]):
            add("point_sets-names", f"point sets {sorted(got['point_sets'])}, expected "
                f"{sorted(exp['point_sets'])}")
        else:
            for k, v in exp["point_sets"].items():
                if sorted(map(int, v)) != sorted(map(int, got["point_sets"][k])):
                    add("point_sets", f"point set {k}: {got['point_sets'][k]}, expected {v}")
    if "cell_sets" in parts:
        _cmp_sets(exp, got, add)
    return out


def _cmp_sets(exp, got, add):
    if set(exp["cell_sets"]) != set(got["cell_sets"]):
        add("cell_sets-names", f"cell sets {sorted(got['cell_sets'])}, expected "
            f"{sorted(exp['cell_sets'])}")
        return
    for k, v in exp["cell_sets"].items():
        e = [sorted(map(int, x)) if x is not None else [] for x in v]
        g = [sorted(map(int, x)) if x is not None else [] for x in got["cell_sets"][k]]
        if e != g:
            add("cell_sets", f"cell set {k}: {g}, expected {e}")


def _cmp_data(exp, got, tol, what, add, extra_ok, dtypes):
    ge = {k: v for k, v in got.items() if k in exp or k not in extra_ok}
    if set(exp) != set(ge):
        add(what + "-names", f"{what} names {sorted(ge)}, expected {sorted(exp)}")
    for k in exp:
        if k not in got:
            continue
        e, g = exp[k], got[k]
        if isinstance(e, list):
            if len(e) != len(g):
                add(what, f"{what}[{k}] has {len(g)} blocks, expected {len(e)}")
                continue
            for i, (x, y) in enumerate(zip(e, g)):
                add(what, arr_diff(x, y, tol, f"{what}[{k}][{i}]",
                                   dtype=x.dtype if dtypes else None))
        else:
            add(what, arr_diff(e, g, tol, f"{what}[{k}]", dtype=e.dtype if dtypes else None))


def snapshot(mesh):
    """Deep, bit-exact fingerprint of everything a caller can see in a mesh."""
    def a(x):
        if x is None:
            return None
        if isinstance(x, (list, tuple)):
            return [a(y) for y in x]
        if isinstance(x, dict):
            return {str(k): a(v) for k, v in x.items()}
        if isinstance(x, np.ndarray):
            if x.dtype.kind == "O":
                return ["O", x.shape, [a(y) for y in x.tolist()]]
            return [x.dtype.str, list(x.shape), x.tobytes().hex() if x.nbytes < 4096 else
                    __import__("hashlib").sha1(x.tobytes()).hexdigest()]
        return repr(x)

    return dict(
        points=a(mesh.points),
        cells=[[c.type, a(c.data), list(getattr(c, "tags", []) or [])] for c in mesh.cells],
        point_data=a(mesh.point_data), cell_data=a(mesh.cell_data),
        field_data=a(mesh.field_data), point_sets=a(mesh.point_sets),
        cell_sets=a(mesh.cell_sets),
        order=[list(mesh.point_data), list(mesh.cell_data), list(mesh.field_data),
               list(mesh.point_sets), list(mesh.cell_sets)],
        info=a(mesh.info), gmsh_periodic=a(mesh.gmsh_periodic),
    )


def concat_same(cells, data=None):
    """Merge consecutive blocks of the same type (several formats do)."""
    out = []
    idx = []
    for i, (t, c) in enumerate(cells):
        if out and out[-1][0] == t and (
                isinstance(c, list) or out[-1][1].shape[1] == c.shape[1]):
            out[-1] = (t, np.concatenate([out[-1][1], c]))
            idx[-1].append(i)
        else:
            out.append((t, c))
            idx.append([i])
    return out, idx


def regroup(content, groups, types=None):
    """New content whose block j is the concatenation of the old blocks groups[j]."""
    c = dict(content)
    c["cells"] = []
    for g in groups:
        t = content["cells"][g[0]][0]
        c["cells"].append((t, np.concatenate([content["cells"][i][1] for i in g])))
    c["cell_data"] = {
        k: [np.concatenate([v[i] for i in g]) for g in groups]
        for k, v in content["cell_data"].items()
    }
    cs = {}
    for k, v in content["cell_sets"].items():
        nv = []
        for g in groups:
            acc = []
            off = 0
            for i in g:
                if v[i] is not None:
                    acc.append(np.asarray(v[i]) + off)
                off += len(content["cells"][i][1])
            nv.append(np.concatenate(acc) if acc else np.array([], dtype=int))
        cs[k] = nv
    c["cell_sets"] = cs
    return c
