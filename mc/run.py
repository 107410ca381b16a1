import argparse
import os
import sys

from . import framework

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--selftest", action="store_true")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
ap.add_argument("--replay")
a = ap.parse_args()
if a.selftest:
    # nothing to build (pure Python): check that the tools and the tree under test are importable
    import cv2, numpy, scipy, norfair  # noqa
    import mc.common  # noqa

    print("norfair from", norfair.__file__)
    sys.exit(0)
sys.exit(framework.main(a.prop, a.tier, a.replay))
