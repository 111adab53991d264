"""setup_cmd: checks that the parts are there, and builds the second device of C28 (which otherwise builds it itself)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy  # noqa: E402,F401
import torch  # noqa: E402,F401
import mc  # noqa: E402,F401
import report  # noqa: E402,F401

import second  # noqa: E402

second.load()
print("ready")
