from ..fmt import misc
from ._rt import make

PROP = "C08"
LEVEL = "model_checking"
RULE = (
    "Medit, Netgen, TetGen, UGRID, AVS-UCD, DOLFIN, SU2, Tecplot, FLAC3D: every block sequence (singles, ordered pairs, core triples) "
    "x every writer option and variant with rich data; then every combination of at most `bound` deviations over points, "
    "dtypes, memory layouts, data, sets x options for a few block sequences; then large meshes"
)
MIN_CASES = 95000
cases, run = make(misc.PROFILES)
