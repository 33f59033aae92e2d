import argparse
import sys

from . import core

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--selftest", action="store_true")
ap.add_argument("--tier", default=None)
ap.add_argument("--replay", default=None)
a = ap.parse_args()
if a.selftest:
    core.setup_import()
    print("meshio imports from", core.REPO)
    sys.exit(0)
if a.replay:
    sys.exit(core.replay(a.prop, a.replay))
try:
    rc = core.main(a.prop, a.tier)
except Exception:
    import traceback

    traceback.print_exc()
    rc = 3
sys.exit(rc)
