"""setup: the framework needs no build; check that its parts are there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")

from vlib import bootstrap      # noqa: E402,F401
import hypothesis               # noqa: E402
import checks                   # noqa: E402

print("hypothesis", hypothesis.__version__, "-", len(checks.registry()), "properties")
