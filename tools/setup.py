#!/usr/bin/env python3
"""Builds everything the checks need (they rebuild incrementally from /repo's working tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, checks
done = set()
with vbuild.Lock():
    for p, steps in checks.CHECKS.items():
        for s in steps:
            if id(s) not in done:
                done.add(id(s))
                print('built', s['build']())
