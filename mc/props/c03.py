from ..fmt import xdmf
from ._rt import make

PROP = "C03"
LEVEL = "model_checking"
RULE = (
    "XDMF: every block sequence (singles, ordered pairs, core triples) x every writer "
    "option with rich data; then every combination of at most `bound` deviations over points, "
    "dtypes, memory layouts, data, sets x options for a few block sequences; then large meshes"
)
MIN_CASES = 27000
cases, run = make(xdmf.PROFILES)
