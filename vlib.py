"""Build and run machinery: /repo sources -> LLVM bitcode -> symbolic engine -> native replay."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time, threading
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
LL = '/usr/lib/llvm-18/bin'
PYINC = '/usr/include/python3.12'
NCPU = os.cpu_count() or 4
CXX = [f'{LL}/clang++', '-std=c++17', '-O1', '-g0', '-fno-vectorize', '-fno-slp-vectorize', f'-I{REPO}/src', f'-I{REPO}', f'-I{PYINC}', f'-I{V}/runtime', '-w']
# stdio entry points redirected to the in-memory file system in native replays
REDIR = ['fopen', 'fclose', 'fread', 'fwrite', 'fseek', 'ftell', 'fseeko', 'ftello', 'rewind', 'fflush', 'fileno', 'fsync', 'fdatasync', 'stat', 'remove', 'unlink', 'rename']
EXCLUDE = {'src/dbzero/core/utils/InterProcessLock.cpp'}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
_hc = {}
def fhash(p):
    if p not in _hc:
        try:
            with open(p, 'rb') as f: _hc[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError: _hc[p] = None
    return _hc[p]
class BuildError(Exception): pass

def _stamp_ok(out, key):
    try:
        with open(out + '.dep') as f: d = json.load(f)
    except Exception: return False
    return os.path.exists(out) and d['key'] == key and all(fhash(p) == h for p, h in d['deps'].items())
def compile_bc(src, out, extra=()):
    """clang -> bitcode, reused while the source and every header it read are unchanged (by content)."""
    cmd = (CXX if src.endswith('.cpp') else [f'{LL}/clang', '-O1', '-w', '-fno-builtin']) + list(extra)
    key = hashlib.sha1(' '.join(cmd + [src]).encode()).hexdigest()
    if _stamp_ok(out, key): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    mf = out + '.d.tmp'
    r = sh(cmd + ['-emit-llvm', '-MD', '-MF', mf, '-c', src, '-o', out + '.tmp'])
    if r.returncode: raise BuildError(f'{src}\n{r.stdout[-4000:]}')
    deps = open(mf).read().replace('\\\n', ' ').split(':', 1)[1].split()
    deps = sorted(set(os.path.abspath(d) for d in deps if not d.startswith('/usr/')))
    os.rename(out + '.tmp', out); os.unlink(mf)
    with open(out + '.dep.tmp', 'w') as f: json.dump({'key': key, 'deps': {d: fhash(d) for d in deps}}, f)
    os.rename(out + '.dep.tmp', out + '.dep')
    return out
def derived(out, ins, cmd, pre=None):
    """a build step keyed on the content of its inputs"""
    key = hashlib.sha1((' '.join(cmd)).encode()).hexdigest()
    if _stamp_ok(out, key): return out
    r = sh(cmd)
    if r.returncode: raise BuildError(' '.join(cmd)[:300] + '\n' + r.stdout[-3000:])
    with open(out + '.dep.tmp', 'w') as f: json.dump({'key': key, 'deps': {d: fhash(d) for d in ins}}, f)
    os.rename(out + '.dep.tmp', out + '.dep'); _hc.pop(out, None)
    return out
def build_engine():
    os.makedirs(f'{B}/engine', exist_ok=True)
    srcs = [f'{V}/engine/{f}' for f in sorted(os.listdir(f'{V}/engine')) if not f.endswith('.o')]
    return derived(f'{B}/engine/symx', srcs, ['bash', f'{V}/engine/build.sh', f'{B}/engine'])
def core_sources():
    res = []
    for base in ('src/dbzero/core',):
        for d, _, fs in os.walk(f'{REPO}/{base}'):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), REPO)
                if f.endswith('.cpp') and p not in EXCLUDE: res.append(p)
    return sorted(res)
def build_core(log):
    srcs = core_sources()
    outs = []; errs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fut = {ex.submit(compile_bc, f'{REPO}/{s}', f'{B}/core/' + s.replace('/', '_')[:-4] + '.bc'): s for s in srcs}
        for n in ('support', 'models', 'memfs', 'native'):
            fut[ex.submit(compile_bc, f'{V}/runtime/{n}.cpp', f'{B}/rt/{n}.bc', ('-fno-access-control',))] = n
        fut[ex.submit(compile_bc, f'{V}/runtime/models_c.c', f'{B}/rt/models_c.bc')] = 'models_c'
        for f, s in fut.items():
            try: o = f.result(); 
            except BuildError as e: errs.append(str(e)); continue
            if s.startswith('src/'): outs.append(o)
    if errs: raise BuildError('\n'.join(errs)[:6000])
    outs.sort()
    derived(f'{B}/core.bc', outs, [f'{LL}/llvm-link'] + outs + ['-o', f'{B}/core.bc'])
    with open(f'{B}/redef', 'w') as f: f.write(''.join(f'{n} mfs_{n}\n' for n in REDIR))
    def obj(n, src):
        return derived(f'{B}/rt/{n}.o', [src], [f'{LL}/clang++', '-O1', '-w', '-c', src, '-o', f'{B}/rt/{n}.o'])
    obj('memfs', f'{B}/rt/memfs.bc'); obj('native', f'{B}/rt/native.bc')
def entries_of(f):
    return re.findall(r'^HARNESS\((\w+)\)', open(f).read(), re.M)
def build_harness(name):
    """returns (module for the engine, native replay binary builder)"""
    src = f'{V}/harness/{name}.cpp'; d = f'{B}/h'; os.makedirs(d, exist_ok=True)
    h = compile_bc(src, f'{d}/{name}.raw.bc')
    ents = entries_of(src)
    l1 = derived(f'{d}/{name}.l1.bc', [h, f'{B}/core.bc', f'{B}/rt/support.bc'], [f'{LL}/llvm-link', h, '--only-needed', f'{B}/core.bc', f'{B}/rt/support.bc', '-o', f'{d}/{name}.l1.bc'])
    keep = ','.join(ents)
    dce = derived(f'{d}/{name}.bc', [l1], [f'{LL}/opt', '-passes=internalize,globaldce', f'-internalize-public-api-list={keep}', l1, '-o', f'{d}/{name}.bc'])
    l2 = derived(f'{d}/{name}.l2.bc', [dce, f'{B}/rt/memfs.bc'], [f'{LL}/llvm-link', dce, f'{B}/rt/memfs.bc', '-o', f'{d}/{name}.l2.bc'])
    eng = derived(f'{d}/{name}.eng.bc', [l2, f'{B}/rt/models.bc', f'{B}/rt/models_c.bc'],
                  [f'{LL}/llvm-link', l2, '--only-needed', f'{B}/rt/models.bc', f'{B}/rt/models_c.bc', '-o', f'{d}/{name}.eng.bc'])
    return eng
_nl = {}; _nlk = threading.Lock()
def build_native(name):
    with _nlk: lk = _nl.setdefault(name, threading.Lock())
    with lk:
        d = f'{B}/h'; dce = f'{d}/{name}.bc'
        o = derived(f'{d}/{name}.o', [dce], ['bash', '-c', f'{LL}/clang++ -O1 -w -c {dce} -o {d}/{name}.o && {LL}/llvm-objcopy --redefine-syms={B}/redef {d}/{name}.o'])
        return derived(f'{d}/{name}.replay', [o, f'{B}/rt/memfs.o', f'{B}/rt/native.o'],
                       ['g++', '-rdynamic', '-o', f'{d}/{name}.replay', o, f'{B}/rt/memfs.o', f'{B}/rt/native.o', '-ldl', '-lpthread', '-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all'])
def write_inputs(path, inputs, note=''):
    with open(path, 'w') as f:
        if note: f.write('# ' + note.replace('\n', ' ')[:1000] + '\n')
        for n, w, v in inputs: f.write(f'{w} {v} {n}\n')
def replay(name, entry, path, params, timeout=60, valgrind=False):
    exe = build_native(name)
    env = dict(os.environ, MALLOC_PERTURB_='90')
    cmd = (['valgrind', '-q', '--error-exitcode=65', '--undef-value-errors=no'] if valgrind else []) + [exe, entry, path] + [f'{k}={v}' for k, v in params.items()]
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired: return 'timeout', ''
    return r.returncode, r.stdout
def run_engine(name, entry, params, t, out, opts=()):
    eng = f'{B}/h/{name}.eng.bc'
    cmd = [f'{B}/engine/symx', eng, '--entry', entry, '--out', out, '--max-time', str(t)]
    for k, v in params.items(): cmd += ['-D', f'{k}={v}']
    cmd += list(opts)
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t * 1.5 + 60, text=True, errors='replace')
    except subprocess.TimeoutExpired: return None, 'engine timeout'
    if r.returncode or not os.path.exists(out): return None, f'engine exit {r.returncode}: {r.stdout[-1500:]}'
    with open(out) as f: return json.load(f), r.stdout
