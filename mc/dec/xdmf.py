"""XDMF 3 (one uniform grid)."""
import os
from xml.etree import ElementTree as ET

import h5py
import numpy as np

from ..alphabet import NN
from . import Bad, need, spec

DT = {("Float", "4"): "f4", ("Float", "8"): "f8", ("Int", "1"): "i1", ("Int", "2"): "i2", ("Int", "4"): "i4",
      ("Int", "8"): "i8", ("UInt", "1"): "u1", ("UInt", "2"): "u2", ("UInt", "4"): "u4", ("UInt", "8"): "u8",
      ("Char", "1"): "i1", ("UChar", "1"): "u1"}


def item(e, base):
    need(e.tag == "DataItem", "DataItem")
    dims = [int(x) for x in e.get("Dimensions").split()]
    kind = e.get("NumberType") or e.get("DataType", "Float")
    dt = np.dtype(DT[(kind, e.get("Precision", "4"))])
    f = e.get("Format")
    txt = (e.text or "").strip()
    if f == "XML":
        w = txt.split()
        a = np.array([float(x) if dt.kind == "f" else int(x) for x in w], dtype=dt)
        need(a.size == int(np.prod(dims)), f"{a.size} values, Dimensions {dims}")
        return a.reshape(dims)
    if f == "Binary":
        p = txt if os.path.isabs(txt) else os.path.join(base, txt)
        a = np.fromfile(p, dt)
        need(a.size == int(np.prod(dims)), f"{a.size} values, Dimensions {dims}")
        return a.reshape(dims)
    need(f == "HDF", f"format {f}")
    fn, ds = txt.split(":")
    with h5py.File(os.path.join(base, fn), "r") as h:
        a = h[ds][()]
    need(a.dtype.newbyteorder("=") == dt and list(a.shape) == dims, f"dataset {a.dtype} {a.shape}, item {dt} {dims}")
    return a


def topology(e, base):
    t = e.get("TopologyType") or e.get("Type")
    a = item(e.find("DataItem"), base)
    n = int(e.get("NumberOfElements"))
    if t.lower() != "mixed":
        name = spec.XDMF_NAMES[t.lower()]
        need(a.shape == (n, NN[name]), f"{t}: shape {a.shape}, {n} elements")
        if e.get("NodesPerElement"):
            need(int(e.get("NodesPerElement")) == NN[name], "NodesPerElement")
        return [(name, r.tolist()) for r in a]
    a = a.ravel().tolist()
    out, j = [], 0
    while j < len(a):
        need(a[j] in spec.XDMF, f"code {a[j]}")
        name = spec.XDMF[a[j]]
        j += 1
        if name in ("vertex", "line"):
            need(a[j] == NN[name], f"{name} with {a[j]} nodes")
            j += 1
        out.append((name, a[j:j + NN[name]]))
        j += NN[name]
        need(j <= len(a), "mixed topology truncated")
    need(len(out) == n, f"{len(out)} cells, NumberOfElements {n}")
    return out


def decode_xdmf(path, case=None):
    base = os.path.dirname(path)
    root = ET.parse(path).getroot()
    need(root.tag == "Xdmf" and root.get("Version", "").startswith("3"), "root")
    g = root.find("Domain").find("Grid")
    geo = g.find("Geometry")
    pts = item(geo.find("DataItem"), base)
    want = {"XY": 2, "XYZ": 3, "X": 1}[geo.get("GeometryType") or geo.get("Type")]
    need(pts.ndim == 2 and pts.shape[1] == want, f"geometry {pts.shape}")
    out = dict(points=pts, cells=topology(g.find("Topology"), base), point_data={}, cell_data={})
    for a in g.findall("Attribute"):
        v = item(a.find("DataItem"), base)
        key = {"Node": "point_data", "Cell": "cell_data"}[a.get("Center")]
        need(len(v) == (len(pts) if key == "point_data" else len(out["cells"])), f"attribute {a.get('Name')}: {v.shape}")
        ty = a.get("AttributeType") or a.get("Type")
        nc = int(np.prod(v.shape[1:]))
        if ty == "Scalar":
            need(nc == 1, "scalar")
        elif ty == "Vector":
            need(nc in (2, 3), f"vector {v.shape}")
        elif ty == "Tensor":
            need(nc == 9, f"tensor {v.shape}")
        elif ty == "Tensor6":
            need(nc == 6, "tensor6")
        else:
            need(ty == "Matrix", f"attribute type {ty}")
        out[key][a.get("Name")] = v
    return out
