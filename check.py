"""Entry point of every check: check.py <property id>."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from harness.core import Check, MachineryError  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        sys.exit(Check(sys.argv[1]).run())
    except MachineryError as e:
        print("ERROR of the check (no verdict):", e, file=sys.stderr)
        sys.exit(2)
