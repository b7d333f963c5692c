#!/usr/bin/env python3
"""setup_cmd: build the IR dumper and warm the program cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import build
p = build.load()
print('ready: %d functions, %d units' % (len(p.fns), len(p.units)))
