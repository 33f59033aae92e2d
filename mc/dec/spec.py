"""Tables of the published formats, as type codes and as *geometric* definitions of
the local node numbering (the corners whose midpoint a node is), from which the
permutations are derived."""

# ---- meshio's own convention (VTK's numbering, see meshio's wiki/doc) -------
# nodes after the corners, each the set of corner nodes it lies between
VTK_EDGES = {
    "line3": [(0, 1)],
    "triangle6": [(0, 1), (1, 2), (2, 0)],
    "quad8": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "quad9": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 1, 2, 3)],
    "tetra10": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    "pyramid13": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    "wedge15": [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    "hexahedron20": [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4),
                     (0, 4), (1, 5), (2, 6), (3, 7)],
}
VTK_EDGES["hexahedron27"] = VTK_EDGES["hexahedron20"] + [
    (0, 3, 4, 7), (1, 2, 5, 6), (0, 1, 4, 5), (2, 3, 6, 7), (0, 1, 2, 3), (4, 5, 6, 7), tuple(range(8))]
VTK_EDGES["hexahedron24"] = VTK_EDGES["hexahedron20"] + [(0, 3, 4, 7), (1, 2, 5, 6), (0, 1, 4, 5), (2, 3, 6, 7)]

GMSH_EDGES = {
    "line3": VTK_EDGES["line3"], "triangle6": VTK_EDGES["triangle6"],
    "quad8": VTK_EDGES["quad8"], "quad9": VTK_EDGES["quad9"],
    "tetra10": [(0, 1), (1, 2), (2, 0), (3, 0), (3, 2), (3, 1)],
    "hexahedron20": [(0, 1), (0, 3), (0, 4), (1, 2), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 7), (5, 6), (6, 7)],
    "wedge15": [(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)],
    "pyramid13": [(0, 1), (0, 3), (0, 4), (1, 2), (1, 4), (2, 3), (2, 4), (3, 4)],
}
GMSH_EDGES["hexahedron27"] = GMSH_EDGES["hexahedron20"] + [
    (0, 1, 2, 3), (0, 1, 4, 5), (0, 3, 4, 7), (1, 2, 5, 6), (2, 3, 6, 7), (4, 5, 6, 7), tuple(range(8))]

# Nastran CHEXA/CPENTA/...: edges of the bottom, then the verticals, then the top
NASTRAN_EDGES = dict(VTK_EDGES)
NASTRAN_EDGES["hexahedron20"] = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6), (3, 7),
                                 (4, 5), (5, 6), (6, 7), (7, 4)]
NASTRAN_EDGES["wedge15"] = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5), (5, 3)]


def from_file_order(t, table, ncorner):
    """perm with meshio_nodes[i] = file_nodes[perm[i]]"""
    if t not in table or t not in VTK_EDGES:
        return None
    key = [frozenset(e) for e in table[t]]
    ref = [frozenset(e) for e in VTK_EDGES[t]]
    return list(range(ncorner)) + [ncorner + key.index(e) for e in ref]


CORNERS = {"line": 2, "triangle": 3, "quad": 4, "tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8}


def corners(t):
    for k, v in CORNERS.items():
        if t.startswith(k):
            return v
    return 1


def apply(t, nodes, table):
    p = from_file_order(t, table, corners(t))
    return list(nodes) if p is None else [nodes[i] for i in p]


# ---- VTK -------------------------------------------------------------------
VTK = {
    1: "vertex", 3: "line", 5: "triangle", 7: "polygon", 9: "quad", 10: "tetra", 12: "hexahedron", 13: "wedge",
    14: "pyramid", 21: "line3", 22: "triangle6", 23: "quad8", 24: "tetra10", 25: "hexahedron20", 26: "wedge15",
    27: "pyramid13", 28: "quad9", 29: "hexahedron27", 32: "wedge18", 33: "hexahedron24", 35: "line4",
    68: "VTK_LAGRANGE_CURVE", 69: "VTK_LAGRANGE_TRIANGLE", 70: "VTK_LAGRANGE_QUADRILATERAL",
    71: "VTK_LAGRANGE_TETRAHEDRON", 72: "VTK_LAGRANGE_HEXAHEDRON", 73: "VTK_LAGRANGE_WEDGE", 74: "VTK_LAGRANGE_PYRAMID",
}
# the triangles of a VTK wedge are numbered the other way round
VTK_WEDGE = [0, 2, 1, 3, 5, 4]

# ---- Gmsh ------------------------------------------------------------------
GMSH = {
    1: "line", 2: "triangle", 3: "quad", 4: "tetra", 5: "hexahedron", 6: "wedge", 7: "pyramid", 8: "line3",
    9: "triangle6", 10: "quad9", 11: "tetra10", 12: "hexahedron27", 13: "wedge18", 14: "pyramid14", 15: "vertex",
    16: "quad8", 17: "hexahedron20", 18: "wedge15", 19: "pyramid13", 21: "triangle10", 23: "triangle15",
    25: "triangle21", 26: "line4", 27: "line5", 28: "line6", 29: "tetra20", 30: "tetra35", 31: "tetra56",
    36: "quad16", 37: "quad25", 38: "quad36", 42: "triangle28", 43: "triangle36", 44: "triangle45",
    45: "triangle55", 46: "triangle66", 47: "quad49", 48: "quad64", 49: "quad81", 50: "quad100", 51: "quad121",
    62: "line7", 63: "line8", 64: "line9", 65: "line10", 66: "line11", 71: "tetra84", 72: "tetra120",
    73: "tetra165", 74: "tetra220", 75: "tetra286", 90: "wedge40", 91: "wedge75", 92: "hexahedron64",
    93: "hexahedron125", 94: "hexahedron216", 95: "hexahedron343", 96: "hexahedron512", 97: "hexahedron729",
    98: "hexahedron1000", 106: "wedge126", 107: "wedge196", 108: "wedge288", 109: "wedge405", 110: "wedge550",
}

# ---- XDMF ------------------------------------------------------------------
XDMF = {
    0x1: "vertex", 0x2: "line", 0x4: "triangle", 0x5: "quad", 0x6: "tetra", 0x7: "pyramid", 0x8: "wedge",
    0x9: "hexahedron", 0x22: "line3", 0x23: "quad9", 0x24: "triangle6", 0x25: "quad8", 0x26: "tetra10",
    0x27: "pyramid13", 0x28: "wedge15", 0x29: "wedge18", 0x30: "hexahedron20", 0x31: "hexahedron24",
    0x32: "hexahedron27", 0x33: "hexahedron64", 0x34: "hexahedron125", 0x35: "hexahedron216",
    0x36: "hexahedron343", 0x37: "hexahedron512", 0x38: "hexahedron729", 0x39: "hexahedron1000",
}
XDMF_NAMES = {
    "polyvertex": "vertex", "polyline": "line", "triangle": "triangle", "quadrilateral": "quad",
    "tetrahedron": "tetra", "pyramid": "pyramid", "wedge": "wedge", "hexahedron": "hexahedron", "edge_3": "line3",
    "triangle_6": "triangle6", "tri_6": "triangle6", "quadrilateral_8": "quad8", "quad_8": "quad8",
    "quadrilateral_9": "quad9", "quad_9": "quad9", "tetrahedron_10": "tetra10", "tet_10": "tetra10",
    "pyramid_13": "pyramid13", "wedge_15": "wedge15", "wedge_18": "wedge18", "hexahedron_20": "hexahedron20",
    "hex_20": "hexahedron20", "hexahedron_24": "hexahedron24", "hex_24": "hexahedron24",
    "hexahedron_27": "hexahedron27", "hex_27": "hexahedron27", "hexahedron_64": "hexahedron64",
    "hexahedron_125": "hexahedron125", "hexahedron_216": "hexahedron216", "hexahedron_343": "hexahedron343",
    "hexahedron_512": "hexahedron512", "hexahedron_729": "hexahedron729", "hexahedron_1000": "hexahedron1000",
    "hex_64": "hexahedron64", "hex_125": "hexahedron125", "hex_216": "hexahedron216", "hex_343": "hexahedron343",
    "hex_512": "hexahedron512", "hex_729": "hexahedron729", "hex_1000": "hexahedron1000",
}
