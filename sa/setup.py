#!/usr/bin/env python3
"""Build the extractor and extract the facts of /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from extract import facts
p, key, t = facts()
facts(only=["insta", "instb"])
print(f"{len(p)} translation units, {t:.1f}s")
