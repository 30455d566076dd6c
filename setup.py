#!/usr/bin/env python3
"""Warm build of the extractor and the search (every check rebuilds what it needs by itself)."""
import check, vlib
vlib.build_extractor()
exe, err = check.build_search()
assert exe, err
print("ok")
