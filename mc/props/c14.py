"""Sets to data and back."""
import itertools

import numpy as np

from .. import alphabet as A

PROP = "C14"
LEVEL = "model_checking"
RULE = (
    "every assignment of the cells of several blocks (2+1, 2+2, 1+1+1; thorough: five cells) and of up to four (five) points to no set or one of up to three sets, "
    "every way to spell absent members, several families of set names, both ways to name the data, with and without other integer and float data; "
    "each mesh goes through sets -> data -> sets -> (other data -> sets | data again), and is compared with the model after every operation; "
    "then every integer array of three values out of five -> sets"
)
MIN_CASES = 12000
NAMES = {"plain": ["left", "b", "c0"], "dash": ["a-b", "c", "d"], "space": ["x y", "ü", "Z"]}


def cases(tier):
    deep = tier == "thorough"
    shapes = [[2, 1], [2, 2], [1, 1, 1]] + ([[3, 2], [1, 2, 1], [2, 0, 2]] if deep else [])
    # cells
    for sh in shapes:
        for nset in (1, 2, 3):
            for asg in itertools.product(range(-1, nset), repeat=sum(sh)):
                for nm in NAMES:
                    for none in (False, True):
                        for lists in (False, True):
                            if lists and (none or nm != "plain"):
                                continue
                            for other in (0, 1) if nm == "plain" else (0,):
                                yield {"k": "cell", "sh": sh, "n": nset, "a": list(asg), "nm": nm, "none": none, "l": lists, "other": other}
    for n in (3, 4, 5) if deep else (3, 4):
        for nset in (1, 2, 3):
            for asg in itertools.product(range(-1, nset), repeat=n):
                for nm in NAMES:
                    for lists in (False, True):
                        for other in (0, 1):
                            yield {"k": "point", "sh": [2, 1], "n": nset, "a": list(asg), "nm": nm, "none": False, "l": lists, "other": other}
    # integer data of any values to sets
    for k in ("cell", "point"):
        for vals in itertools.product([0, 1, 2, 7, -3], repeat=3):
            for dt in ("i8", "i4", "u1") if min(vals) >= 0 else ("i8", "i4"):
                for key in ("mat", "a-b", "p-q-r"):
                    yield {"k": k + "-data", "v": list(vals), "dt": dt, "key": key}


def partition(arrs):
    """the groups of equal values, as a set of frozensets of positions"""
    out = {}
    for i, v in enumerate(arrs):
        out.setdefault(int(v), set()).add(i)
    return out


class Model:
    """what is in which set: {name: frozenset(global index)}, data: {name: tuple}"""

    def __init__(self, sets, data):
        self.sets = dict(sets)
        self.data = dict(data)


def mesh_of(case, meshio):
    pts = A.points(5, 3)
    sh = case.get("sh", [2, 1])
    types = ["triangle", "line", "quad"]
    return pts, [(types[i], A.conn(types[i], m, 5, i)) for i, m in enumerate(sh)]


def read_model(m, k):
    sizes = [len(c) for c in m.cells]
    off = np.cumsum([0] + sizes)
    if k == "cell":
        sets = {}
        for n, v in m.cell_sets.items():
            if len(v) != len(sizes):
                return None, None, f"cell set {n} has {len(v)} members lists"
            sets[n] = sorted(int(y) + int(off[i]) for i, x in enumerate(v) if x is not None for y in np.asarray(x).ravel())
        data = {}
        for n, v in m.cell_data.items():
            if [len(x) for x in v] != sizes:
                return None, None, f"cell data {n} has lengths {[len(x) for x in v]}"
            data[n] = np.concatenate(v)
    else:
        sets = {n: sorted(int(y) for y in np.asarray(v).ravel()) for n, v in m.point_sets.items()}
        data = {n: np.asarray(v) for n, v in m.point_data.items()}
        for n, v in data.items():
            if len(v) != len(m.points):
                return None, None, f"point data {n} has length {len(v)}"
    return sets, data, None


def run(case, ctx):
    import meshio

    if case["k"].endswith("-data"):
        return run_data(case, ctx)
    k = case["k"]
    names = NAMES[case["nm"]][:case["n"]]
    asg = case["a"]
    total = len(asg)
    members = {n: [i for i, a in enumerate(asg) if a == j] for j, n in enumerate(names)}
    full = all(members.values()) and all(a >= 0 for a in asg)

    def fresh():
        pts, cells = mesh_of(case, meshio)
        if k == "point":
            pts = A.points(total, 3)
            cells = [("line", np.array([[0, 1]]))]
        off = np.cumsum([0] + [len(c) for _, c in cells])

        def split(mem):
            out = []
            for i in range(len(cells)):
                x = [y - int(off[i]) for y in mem if off[i] <= y < off[i + 1]]
                if not x and case["none"]:
                    out.append(None)
                else:
                    out.append(x if case["l"] else np.array(x, dtype=int))
            return out

        kw = {}
        n = len(pts)
        odata = {"oi": A.data_array(n, "i8", 2), "of": A.data_array(n, "f8:2", 1)} if case["other"] else {}
        ocell = {"oi": [A.data_array(len(c), "i8", 4 + i) for i, (_, c) in enumerate(cells)],
                 "of": [A.data_array(len(c), "f8:2", i) for i, (_, c) in enumerate(cells)]} if case["other"] else {}
        if k == "cell":
            kw["cell_sets"] = {n_: split(v) for n_, v in members.items()}
            kw["point_sets"] = {"ps": np.array([0, 1])}
        else:
            kw["point_sets"] = {n_: list(v) if case["l"] else np.array(v, dtype=int) for n_, v in members.items()}
            kw["cell_sets"] = {"cs": [np.array([0])]}
        return meshio.Mesh(pts, cells, point_data=odata, cell_data=ocell, **kw)

    # (a) to data; (b) and back; (c) and again
    for dname in (None, "tags") if k == "cell" else (None, "_"):
        m = fresh()
        snap = A.snapshot(m)
        s0, d0, err = read_model(m, k)
        key = dname if (k == "cell" and dname) else ("-" if dname is None else dname).join(names)
        ctx.step()
        if k == "cell":
            m.cell_sets_to_data(*([dname] if dname else []))
        else:
            m.point_sets_to_data(*([dname] if dname else []))
        s1, d1, err = read_model(m, k)
        if err:
            ctx.fail("shape", err)
            return
        if s1:
            ctx.fail("sets", f"sets left after the conversion: {s1}")
        if set(d1) != set(d0) | {key}:
            ctx.fail("names", f"data {sorted(d1)}, expected {sorted(set(d0) | {key})}")
            return
        if d1[key].dtype.kind not in "iu" or d1[key].tolist() != asg:
            ctx.fail("data", f"{key}: {d1[key]}, expected {asg}")
        for n in d0:
            if not (d0[n].dtype == d1[n].dtype and d0[n].tobytes() == d1[n].tobytes()):
                ctx.fail("other", f"other data {n} changed")
        ctx.state(f"{k}:{asg}:{key}")
        ctx.trace()
        # another entity's sets and data stay
        for part in ("point_sets", "point_data") if k == "cell" else ("cell_sets", "cell_data"):
            if A.snapshot(m)[part] != snap[part]:
                ctx.fail("other", f"{part} changed")
        back = m.cell_data_to_sets if k == "cell" else m.point_data_to_sets
        ctx.step()
        back(key)
        s2, d2, err = read_model(m, k)
        if err:
            ctx.fail("shape", err)
            return
        if set(d2) != set(d0):
            ctx.fail("names", f"data {sorted(d2)} after the conversion back, expected {sorted(d0)}")
        exp = {}
        for i, a in enumerate(asg):
            exp.setdefault(a, []).append(i)
        if sorted(s2.values()) != sorted(exp.values()):
            ctx.fail("membership", f"sets {s2}, expected the groups {sorted(exp.values())}")
        if full and case["nm"] == "plain" and dname is None:
            if s2 != members:
                ctx.fail("membership", f"sets {s2}, expected {members}")
        # a set that keeps one of the original names keeps its members
        for n, v in s2.items():
            if n in members and v != members[n]:
                ctx.fail("membership", f"set {n} is {v}, was {members[n]}")
        # other integer data to sets, too
        if case["other"]:
            before = dict(s2)
            ctx.step()
            back("oi")
            s3, d3, err = read_model(m, k)
            if err:
                ctx.fail("shape", err)
                return
            for n, v in before.items():
                if s3.get(n) != v:
                    ctx.fail("other", f"set {n} changed from {v} to {s3.get(n)}")
            groups = {}
            for i, a in enumerate(d0["oi"]):
                groups.setdefault(int(a), []).append(i)
            new = sorted(v for n, v in s3.items() if n not in before)
            if new != sorted(groups.values()):
                ctx.fail("membership", f"new sets {new}, expected {sorted(groups.values())}")
            ctx.step()
            try:
                back("of")
                ctx.fail("float", "float data were converted to sets")
            except Exception:
                s4, d4, err = read_model(m, k)
                if s4 != s3 or set(d4) != set(d3):
                    ctx.fail("float", "a rejected conversion changed the mesh")
        # and to data once more: the groups stay
        elif exp:
            ctx.step()
            if k == "cell":
                m.cell_sets_to_data("again")
                key2 = "again"
            else:
                m.point_sets_to_data()
                key2 = "-".join(s2)
            s5, d5, err = read_model(m, k)
            if key2 not in d5:
                ctx.fail("names", f"{sorted(d5)}, expected {key2}")
            elif sorted(sorted(v) for v in partition(d5[key2]).values()) != sorted(exp.values()):
                ctx.fail("membership", f"{d5[key2]} after converting again, expected the groups {sorted(exp.values())}")
    ctx.outcome(k + ("-full" if full else "-partial"))


def run_data(case, ctx):
    import meshio

    k = case["k"][:-5]
    vals = np.array(case["v"]).astype(case["dt"])
    if k == "cell":
        pts, cells = mesh_of(case, meshio)
        m = meshio.Mesh(pts, cells, cell_data={case["key"]: [vals[:2], vals[2:]], "z": [vals[:2] * 0.5, vals[2:] * 0.5]})
        m.cell_data_to_sets(case["key"])
    else:
        m = meshio.Mesh(A.points(3, 3), [("line", np.array([[0, 1]]))], point_data={case["key"]: vals, "z": vals * 0.5})
        m.point_data_to_sets(case["key"])
    ctx.step()
    s, d, err = read_model(m, k)
    if err:
        ctx.fail("shape", err)
        return
    groups = {}
    for i, v in enumerate(vals):
        groups.setdefault(int(v), []).append(i)
    if sorted(s.values()) != sorted(groups.values()):
        ctx.fail("membership", f"sets {s}, expected the groups {groups}")
    tags = sorted(groups)
    parts = case["key"].split("-")
    if len(parts) == len(tags):
        exp = {n: groups[t] for n, t in zip(parts, tags)}
    else:
        exp = {f"set-{case['key']}-{t}": groups[t] for t in tags}
    if s != exp:
        ctx.fail("names", f"sets {s}, expected {exp}")
    if list(d) != ["z"] or d["z"].tolist() != (vals * 0.5).tolist():
        ctx.fail("other", f"{d}")
    ctx.trace()
    ctx.state(repr(case))
    ctx.outcome(case["k"])
