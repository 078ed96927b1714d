"""Setup check: the tools are there and /repo's current source loads in the symbolic environment."""
import sys

import z3

from . import loader


def main():
    loaded = loader.load()
    h = loaded.hb.Hist(loaded.hb.bin("x", 2, 0, 1))
    h.fill(x=loaded.np.array([0.25, 0.75]))
    print("z3", z3.get_version_string(), "histbook loaded symbolically")


if __name__ == "__main__":
    try:
        main()
    except Exception as err:       # a broken /repo is for the checks to report
        print("selftest: %r" % (err,))
    sys.exit(0)
