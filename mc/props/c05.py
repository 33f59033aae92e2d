from ..fmt import surface
from ._rt import make

PROP = "C05"
LEVEL = "model_checking"
RULE = (
    "STL, PLY, OBJ, OFF, WKT, Neuroglancer: every block sequence (singles, ordered pairs, core triples) x every writer "
    "option with rich data; then every combination of at most `bound` deviations over points, "
    "dtypes, memory layouts, data, sets x options for a few block sequences; then large meshes"
)
MIN_CASES = 40000
cases, run = make(surface.PROFILES)
