#!/usr/bin/env python3
"""Builds the syntax-tree exporter and parses the current sources once."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from export import build_exporter, export_all
print(build_exporter())
print({k: len(v["funcs"]) for k, v in export_all().items()})
