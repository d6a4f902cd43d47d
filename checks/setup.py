#!/usr/bin/env python3
"""setup: warm the build tree with the drivers, and see that TLC runs."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Check
c = Check("setup", "quick", "other", 1)
c.build("asan", "drivers")
c.build("tsan", "shared", "crosstalk")
c.build("tail", "exec")
c.model("MCWord.tla", workers=4)
print("setup done")
