#!/usr/bin/env python3
"""Build the engine and pre-build the bitcode modules (the checks rebuild what changed)."""
import sys, os, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/vp')
import core
from props import PROPS
try:
    core.ensure_engine(); core.bc_repo(); core.bc_rt()
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(core.bc_module, sorted({e['file'] for P in PROPS.values() for e in P['entries']})))
except core.BuildError as e:
    print(e); sys.exit(1)
print('ready')
