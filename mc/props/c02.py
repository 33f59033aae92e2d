from ..fmt import gmsh
from ._rt import make

PROP = "C02"
LEVEL = "model_checking"
RULE = (
    "Gmsh 2.2/4.0/4.1: every block sequence (singles, ordered pairs, core triples) x every writer "
    "option with rich data; then every combination of at most `bound` deviations over points, "
    "dtypes, memory layouts, data, sets x options for a few block sequences; then large meshes"
)
MIN_CASES = 43000
cases, run = make(gmsh.PROFILES)
