"""Entry point of every check: run.py <property id> [--tier quick|thorough] [--replay file]."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
if __name__ == "__main__" and "MALLOC_PERTURB_" not in os.environ:
    # memory that was never written, or was given back, does not hold the right values by accident
    os.environ["MALLOC_PERTURB_"] = "63"
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
from mc import core, world  # noqa: E402,F401

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
