#!/usr/bin/env python3
"""Checks that everything the checks need can be built offline."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import drv
for v in ('plain', 'lib', 'cli', 'asan', 'miri'):
    drv.build(v)
print('built')
