#!/usr/bin/env python3
"""Checks that the machinery can run here: the interpreter, SAMPO from /repo and every property module import."""
import importlib
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from rv import env  # noqa

env.setup()
try:
    for f in sorted(os.listdir(os.path.join(V, 'rv', 'props'))):
        if f.startswith('p') and f.endswith('.py'):
            importlib.import_module('rv.props.' + f[:-3])
    print('ready')
finally:
    env.cleanup()
