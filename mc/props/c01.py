from ..fmt import vtk
from ._rt import make

PROP = "C01"
LEVEL = "model_checking"
RULE = (
    "VTK legacy 4.2/5.1 and VTU: every block sequence (singles, ordered pairs, core triples) x every writer "
    "option with rich data; then every combination of at most `bound` deviations over points, "
    "dtypes, memory layouts, data, sets x options for a few block sequences; then large meshes; "
    "VTU polyhedra: every sequence of at most three blocks of cells of 4 to 10 nodes x options, with deviations of data and points for at most two blocks"
)
MIN_CASES = 85000
cases, run = make(vtk.PROFILES + vtk.POLYHEDRA)
