#!/usr/bin/env python3
"""run.py <property id>: builds /repo's working tree and decides one property."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from vlib import check
pid = sys.argv[1]
m = importlib.import_module("checks." + pid.lower())
check.main(pid, m.run, getattr(m, "LEVEL", "exploration"))
