#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE] [--count N] [--determinism N]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner, vlib


def get(prop):
    if prop in ("C01", "C02", "C03", "C04"):
        import gensim
        return gensim.SIMS[prop]()
    if prop in ("C05", "C06", "C07", "C08", "C09"):
        import stepsim
        return stepsim.SIMS[prop]()
    if prop in ("C10", "C11"):
        import anasim
        return anasim.SIMS[prop]()
    if prop in ("C12",):
        import clocksim
        return clocksim.SIMS[prop]()
    raise SystemExit("unknown property " + prop)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    try:
        rc = runner.main(get(sys.argv[1]), sys.argv[2:])
    except vlib.CheckError as e:
        vlib.log("CHECK ERROR: %s" % e)
        sys.exit(3)
    sys.exit(rc)
