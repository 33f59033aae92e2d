from ..fmt import decks
from ._rt import make

PROP = "C06"
LEVEL = "model_checking"
RULE = (
    "Abaqus, Nastran, Permas, Ansys, MDPA: every block sequence (singles, ordered pairs, core triples) x every writer "
    "option with rich data; then every combination of at most `bound` deviations over points, "
    "dtypes, memory layouts, data, sets x options for a few block sequences; then large meshes"
)
MIN_CASES = 70000
cases, run = make(decks.PROFILES)
