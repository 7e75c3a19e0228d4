"""Entry point of every check: `run.py PROPERTY TIER [--replay FILE]`."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
