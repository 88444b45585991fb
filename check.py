"""Entry point of every check: ./check C01 [--tier quick|thorough] [--replay FILE]."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    sys.exit(engine.main(a.prop, a.tier, a.replay, a.jobs, a.verbose))


if __name__ == "__main__":
    main()
