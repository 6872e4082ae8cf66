"""Make the code in /repo importable next to hypothesis, and nothing else.

The library under test is a pure Python namespace package (``dissect.volume``); its two dependencies live in the
project's own virtual environment.  /repo goes first on the path, so the working tree itself is what is tested.
"""

from __future__ import annotations

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = "/opt/venv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
# the library must behave the same whatever buffer size its environment asks for; pin it for determinism
os.environ.pop("DISSECT_STREAM_BUFFER_SIZE", None)

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if DEPS not in sys.path:
    sys.path.append(DEPS)

# third party modules may come from their bytecode caches, the code under test may not
import hypothesis.strategies  # noqa: E402,F401
import numpy  # noqa: E402,F401

sys.pycache_prefix = "/nonexistent/verif-no-bytecode"

import dissect.volume  # noqa: E402

_paths = [os.path.realpath(p) for p in dissect.volume.__path__]
if os.path.realpath(os.path.join(REPO, "dissect", "volume")) not in _paths[:1]:
    raise SystemExit(f"harness error: dissect.volume is imported from {_paths}, not from {REPO}")
