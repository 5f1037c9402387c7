"""Command line of ./run."""

import argparse
import os
import sys

from harness import core

if __name__ == "__main__":
    a = argparse.ArgumentParser(prog="run")
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--replay")
    a.add_argument("--jobs", type=int)
    a = a.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(core.main(a.prop, a.tier, a.seed, a.replay, a.jobs))
