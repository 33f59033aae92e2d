from ..fmt import hdf
from ._rt import make

PROP = "C07"
LEVEL = "model_checking"
RULE = (
    "MED, CGNS, H5M, HMF, Exodus: every block sequence (singles, ordered pairs, core triples) x every writer "
    "option with rich data; then every combination of at most `bound` deviations over points, "
    "dtypes, memory layouts, data, sets x options for a few block sequences; then large meshes"
)
MIN_CASES = 95000
cases, run = make(hdf.PROFILES)
