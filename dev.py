#!/usr/bin/env python3
"""dev.py HARNESS [ENTRY ...] [-t SECONDS] [k=v]: run harness entries during development"""
import sys, os, json, time
import vlib
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]; t = 60; params = {}; ents = []; name = None; opts = []
while a:
    x = a.pop(0)
    if x == '-t': t = float(a.pop(0))
    elif x == '-o': opts += a.pop(0).split()
    elif '=' in x: k, v = x.split('=', 1); params[k] = v
    elif name is None: name = x
    else: ents.append(x)
t0 = time.time(); vlib.build_engine(); vlib.build_core(print)
vlib.build_harness(name); print('built %.1fs' % (time.time() - t0))
ents = ents or vlib.entries_of(f'{vlib.V}/harness/{name}.cpp')
os.makedirs(f'{vlib.B}/dev', exist_ok=True)
def go(e):
    out = f'{vlib.B}/dev/{name}.{e}.json'
    if os.path.exists(out): os.unlink(out)
    return e, vlib.run_engine(name, e, params, t, out, opts)
with ThreadPoolExecutor(8) as ex:
    for e, (j, log) in ex.map(go, ents):
        print('==', e)
        if j is None: print(log); continue
        print(log[-3000:], end='')
        print({k: j[k] for k in ('paths', 'paths_assumed_away', 'paths_error', 'paths_incomplete', 'pending', 'exhausted', 'instructions', 'assertions', 'assert_queries', 'queries', 'z3_calls', 'solver_time', 'solver_max', 'wall', 'functions_encoded')})
        print('  covers', j['covers'], 'stubs', j['stubs'], 'incompletes', j['incompletes'])
        for i, er in enumerate(j['errors'][:6]):
            print('  ERROR', er['kind'], er['msg'], '@', er['where'][:150]); print('     ', [(n, v) for n, w, v in er['inputs']][:40])
            for s in er['stack'][:8]: print('       ', s[:150])
            p = f'{vlib.B}/dev/{e}.err{i}.txt'; vlib.write_inputs(p, er['inputs'])
            rc, o = vlib.replay(name, e, p, params); print('      native:', rc, o[-300:].replace('\n', ' | '))
        bad = 0
        for i, s in enumerate(j['samples']):
            p = f'{vlib.B}/dev/{e}.s{i}.txt'; vlib.write_inputs(p, s['inputs'])
            rc, o = vlib.replay(name, e, p, params)
            obs = [tuple(l.split()[1:]) for l in o.splitlines() if l.startswith('OBS ')]
            exp = [(n, str(v)) for n, v in s['obs']]
            if rc != 0 or [(x[0], x[-1]) for x in obs] != [(n.split()[0] if n else n, v) for n, v in exp]: bad += 1; print('  SAMPLE MISMATCH', rc, o[-300:], exp[:5])
        print('  samples', len(j['samples']), 'mismatch', bad)
print('total %.1fs' % (time.time() - t0))
