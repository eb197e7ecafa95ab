#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property.
Rebuilds /repo's current sources into bitcode, explores every harness entry of the property symbolically, replays what
the solver found (and a sample of the paths it passed) against the natively compiled real code, writes the evidence file.
exit 0: held on everything explored; 1: a violation that reproduces natively; 2: nothing could be decided."""
import json, os, re, sys, time, fnmatch
from concurrent.futures import ThreadPoolExecutor
import vlib, spec
MEM = {'null-deref', 'invalid-pointer', 'out-of-bounds', 'invalid-free', 'write-to-constant', 'use-after-free', 'double-free', 'invalid-memcpy', 'bad-access'}
def load_known():
    res = []
    p = f'{vlib.V}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) entry=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m: res.append(dict(property=m[1], entry=m[2], match=m[3], what=m[4]))
    return res
def is_violation(rc): return rc in (66, 67, 68) or (isinstance(rc, int) and rc < 0) or rc in (134, 136, 139)
def rp_text(pid, job, err, path): 
    ps = ' '.join(f'{k}={v}' for k, v in job['params'].items())
    return f"property {pid}; {err['kind']}: {err['msg']} at {err['where'][:200]}; replay with: {vlib.B}/h/{job['h']}.replay {job['e']} {path} {ps}"
def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); P = spec.PROPS[pid]
    hard = 780 if tier == 'quick' else 3600 * 3   # never run past the 900 s a quick check is given
    core_err = None
    import threading
    eng = threading.Thread(target=vlib.build_engine); eng.start()
    try: vlib.build_core(print)
    except vlib.BuildError as e: core_err = str(e); print('BUILD', core_err[:3000])
    jobs = []
    for J in P['jobs']:
        j = dict(J); q = dict(j.get('params', {}))
        if tier == 'thorough':
            q.update(j.get('thorough', {}).get('params', {})); j['t'] = j.get('thorough', {}).get('t', max(300, 5 * j.get('t', 40)))
        elif j.get('only') == 'thorough': continue
        j['params'] = q; j.setdefault('t', 40); j.setdefault('opts', [])
        jobs.append(j)
    hs = sorted({j['h'] for j in jobs}); bad = {}
    def bh(h):
        try: vlib.build_harness(h); return None
        except vlib.BuildError as e: return str(e)
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for h, e in zip(hs, ex.map(bh, hs)):
            if e: bad[h] = e; print(f'BUILD {h}: {e[:3000]}')
    eng.join(); vlib.build_engine()
    build_s = time.time() - t0
    wd = f'{vlib.B}/run/{pid}'; os.makedirs(wd, exist_ok=True)
    rpd = f'{vlib.V}/evidence/replay'; os.makedirs(rpd, exist_ok=True)
    known = [k for k in load_known() if k['property'] == pid]
    def go(ij):
        i, j = ij
        if j['h'] in bad: return None
        left = hard - (time.time() - t0)
        t = min(j['t'], left - 60)
        if t < 3: return None
        out = f'{wd}/{i}.{j["e"]}.json'
        if os.path.exists(out): os.unlink(out)
        r, log = vlib.run_engine(j['h'], j['e'], j['params'], t, out, ['--max-mem', str(j.get('mem', 3500))] + j['opts'])
        if r is None: print(f'ENGINE {j["e"]}: {log}'); return None
        # replay: what the solver found, and a sample of the paths that passed
        conf = []; unconf = []; okS = 0; mism = []
        for n, er in enumerate(r['errors']):
            path = f'{rpd}/{pid}-{i}-{n}.txt'
            vlib.write_inputs(path, er['inputs'], rp_text(pid, j, er, path))
            rc, o = vlib.replay(j['h'], j['e'], path, j['params'], timeout=20)
            ok = is_violation(rc) or (rc == 'timeout' and er['kind'] == 'non-termination')
            if not ok and rc == 0:
                rc, o = vlib.replay(j['h'], j['e'], path, j['params'], timeout=120, valgrind=True)
                ok = rc == 65
            (conf if ok else unconf).append((er, path, rc))
        for n, s in enumerate(r['samples']):
            path = f'{wd}/{i}.s{n}.txt'; vlib.write_inputs(path, s['inputs'])
            rc, o = vlib.replay(j['h'], j['e'], path, j['params'], timeout=30)
            obs = [l.split()[1:] for l in o.splitlines() if l.startswith('OBS ')]
            if rc == 0 and [(x[0], x[-1]) for x in obs] == [(a.split()[0] if a else a, str(v)) for a, v in s['obs']]: okS += 1
            elif is_violation(rc):
                er = dict(kind='native', msg='path accepted by the engine fails in the native build: ' + o[-200:].replace('\n', ' '), where='', inputs=s['inputs'], stack=[])
                p2 = f'{rpd}/{pid}-{i}-s{n}.txt'; vlib.write_inputs(p2, s['inputs'], rp_text(pid, j, er, p2)); conf.append((er, p2, rc))
            else: mism.append((path, rc))
        return r, conf, unconf, okS, mism
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i]['t'])
    res = {}
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for i, r in zip(order, ex.map(go, [(i, jobs[i]) for i in order])): res[i] = r
    viol = []; kf = set(); ents = []; fun = set(); samples = []; tv = 0; ran = 0; unc = 0
    for i, j in enumerate(jobs):
        x = res.get(i)
        if x is None: ents.append(dict(entry=j['e'], harness=j['h'], params=j['params'], not_run='harness does not build against the current tree' if j['h'] in bad else 'engine gave no result')); continue
        r, conf, unconf, okS, mism = x; ran += 1; tv += okS
        for er, path, rc in conf:
            k = next((k for k in known if fnmatch.fnmatch(j['e'], k['entry']) and re.search(k['match'], er['kind'] + ' ' + er['msg'] + ' ' + er['where'])), None)
            if k: kf.add(k['what']); continue
            viol.append((er, path, j['e']))
        unc += len(unconf)
        for er, path, rc in unconf: print(f"note: {j['e']}: solver reports {er['kind']} {er['msg'][:160]} but the native replay does not fail (exit {rc}): not reported")
        for p, rc in mism: print(f"note: {j['e']}: replay of a passing path ended differently (exit {rc}): {p}")
        fun.update(r.get('functions', []))
        for s in r['samples'][:1]:
            if len(samples) < 12: samples.append(dict(entry=j['e'], inputs={f'{n}#{a}': v for a, (n, w, v) in enumerate(s['inputs'][:24])}, observed=s['obs'][:12]))
        ents.append(dict(entry=j['e'], harness=j['h'], params=j['params'], bounds=j.get('bounds', ''), exhausted=r['exhausted'] and not r['incompletes'], paths=r['paths'], paths_assumed_away=r['paths_assumed_away'], paths_error=r['paths_error'], pending=r.get('pending', 0), incomplete=r['incompletes'], instructions=r['instructions'], assertions=r['assertions'], assertions_needing_solver=r['assert_queries'], queries=r['queries'], z3_calls=r['z3_calls'], solver_time_s=round(r['solver_time'], 3), slowest_query_s=round(r['solver_max'], 3), wall_s=round(r['wall'], 1), functions_encoded=r['functions_encoded'], covered=r['covers'], stubs=r['stubs'], replays_matching=okS, replays_differing=len(mism), counterexamples_confirmed=len(conf), counterexamples_not_reproduced=len(unconf)))
    done = [e for e in ents if 'paths' in e]
    sm = lambda k: sum(e[k] for e in done)
    repofun = sorted({re.sub(r'\(.*', '', f) for f in fun if f.startswith('db0::') or ' db0::' in f or f.startswith('void db0::')})
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(viol),
              assumptions=spec.COMMON_ASSUMPTIONS + P.get('assumptions', []),
              coverage=dict(states=sm('paths') + sm('paths_error'), transitions=sm('instructions'), traces_validated_against_impl=tv, samples=samples or ['none'],
                            exhaustive=bool(done) and len(done) == len(ents) and all(e['exhausted'] for e in done),
                            states_are='feasible symbolic paths run to their end (each covers every value of its symbolic inputs)', transitions_are='LLVM instructions of the real code executed symbolically',
                            queries_discharged=sm('queries'), assertions_checked=sm('assertions'), assertions_needing_solver=sm('assertions_needing_solver'), z3_calls=sm('z3_calls'), solver_time_s=round(sm('solver_time_s'), 3),
                            functions_encoded=len(fun), repo_functions_encoded=repofun[:400], bounds=P.get('bounds', ''), build_s=round(build_s, 1), entries=ents, counterexamples_not_reproduced=unc, known_findings=sorted(kf)))
    with open(f'{vlib.V}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
    for k in sorted(kf): print(f'KNOWN-FINDING: property={pid} {k}')
    for e in done:
        if not e['covered']: print(f"note: {e['entry']}: no reachability witness")
    print(f"{pid} [{tier}]: {len(done)}/{len(ents)} entries, {ev['coverage']['states']} paths ({'complete' if ev['coverage']['exhaustive'] else 'cut by the time bound: ' + ' '.join(e['entry'] for e in done if not e['exhausted'])}), {sm('assertions')} assertions, {sm('queries')} queries, {tv} paths replayed natively, {ev['wall_s']} s")
    for er, path, e in viol[:20]:
        print(f"  {e}: {er['kind']}: {er['msg'][:300]}")
        print(f'VIOLATION property={pid} replay={path}')
    if viol: return 1
    if not ran: print('nothing could be run'); return 2
    return 0
if __name__ == '__main__': sys.exit(main())
