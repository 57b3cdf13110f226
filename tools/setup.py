"""Build every harness once, so that the checks of an unchanged tree start at once.

A check does not need this: it builds what it needs itself."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from harnesses import HARNESSES  # noqa: E402
build.build([(p, h["sources"], h["modules"], h.get("link", []), h.get("variant", "")) for p, h in HARNESSES.items()])
