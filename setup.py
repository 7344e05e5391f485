#!/usr/bin/env python3
"""build the analysis tools (not the code under analysis)"""
import glob, os
from engine import build as B
for t in sorted(glob.glob(os.path.join(B.VERIF, "tools", "*.cpp"))):
    B.tool(os.path.splitext(os.path.basename(t))[0])
