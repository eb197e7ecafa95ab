#!/usr/bin/env python3
"""Builds the engine, the bitcode of /repo's sources and every harness (all reused by the checks while sources are unchanged)."""
import os, sys
import vlib
from concurrent.futures import ThreadPoolExecutor
vlib.build_engine(); vlib.build_core(print)
hs = sorted(f[:-4] for f in os.listdir(f'{vlib.V}/harness') if f.startswith('h_') and f.endswith('.cpp'))
def go(h): vlib.build_harness(h); vlib.build_native(h)
with ThreadPoolExecutor(vlib.NCPU) as ex: list(ex.map(go, hs))
print('built', len(hs), 'harnesses')
