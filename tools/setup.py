#!/usr/bin/env python3
"""Checks that the tools and the specification are usable (every check compiles
what it needs itself, so nothing is left behind)."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
import vlib
c = vlib.Ctx('setup', 'quick', 1)
try:
    c.build()
finally:
    c.close()
print('ok')
