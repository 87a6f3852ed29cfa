"""Common runner: build, execute under sanitizers, judge, report."""
import os, sys, json, time, hashlib, subprocess, tempfile, re, shutil, signal, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(VERIF, 'replay')
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
THOROUGH = TIER == 'thorough'

CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'
CLANGC = shutil.which('clang-18') or shutil.which('clang') or 'clang'

BASE_FLAGS = ['-std=c++17', '-fms-extensions', '-fdelayed-template-parsing', '-fno-exceptions',
              '-Wno-everything', '-g1', '-fno-omit-frame-pointer']
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
       'msan': ['-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all', '-fsanitize-ignorelist=' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'msan.ignore'), '-D_GLIBCXX_ASSERTIONS'],
       'steps': ['-fsanitize-coverage=trace-pc-guard'],
       'plain': []}
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:handle_abort=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'LSAN_OPTIONS': 'exitcode=78',
    'MSAN_OPTIONS': 'exit_code=77:abort_on_error=0:symbolize=1:poison_in_dtor=0:allocator_may_return_null=1',
}

def san_env(**kw):
    e = dict(os.environ); e.update(SAN_ENV)
    sym = shutil.which('llvm-symbolizer-18') or shutil.which('llvm-symbolizer')
    if sym: e['ASAN_SYMBOLIZER_PATH'] = e['MSAN_SYMBOLIZER_PATH'] = sym; e['UBSAN_OPTIONS'] += ':external_symbolizer_path=' + sym
    for k, v in kw.items(): e[k] = e[k] + ':' + v if k in SAN_ENV else v
    return e

class HarnessError(Exception): pass

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(d.encode()); h.update(open(d, 'rb').read()); continue
        for root, ds, fs in os.walk(d):
            ds.sort()
            ds[:] = [x for x in ds if x not in ('.git', '_build', 'build', '__pycache__')]
            for f in sorted(fs):
                p = os.path.join(root, f)
                try: b = open(p, 'rb').read()
                except OSError: continue
                h.update(p.encode()); h.update(hashlib.sha256(b).digest())
    return h.hexdigest()[:16]

def build(name, src, defs=(), san='asan', opt='-O0', inc=(), lang='c++', repo_inc=True, extra=(), prelude=True, flags=None, deps=()):
    """Compile one harness translation unit with the library's working tree. Returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    src = src if os.path.isabs(src) else os.path.join(HARNESS, src)
    cmd = [CLANG if lang == 'c++' else CLANGC]
    cmd += (BASE_FLAGS if lang == 'c++' else ['-std=c11', '-fms-extensions', '-Wno-everything', '-g1', '-fno-omit-frame-pointer']) if flags is None else list(flags)
    cmd += SAN[san] + [opt]
    if prelude: cmd += ['-include', os.path.join(HARNESS, 'prelude.h')]
    cmd += ['-DGEN_TIME'] + ['-D' + d for d in defs]
    if repo_inc: cmd += ['-I', REPO, '-I', os.path.join(REPO, 'base')]
    for i in inc: cmd += ['-I', i]
    cmd += [src] + list(extra)
    key = hashlib.sha256((' '.join(cmd) + tree_hash([os.path.join(REPO, x) for x in ('base', 'gen_c_library', 'gen_singleheader', 'gen_segmented', 'gen_unreal_engine')] + [HARNESS] + list(deps))).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, '%s-%s' % (name, key))
    if os.path.exists(out): return out
    tmp = out + '.%d.tmp' % os.getpid()
    p = subprocess.run(cmd + ['-o', tmp, '-lm', '-lpthread'] if '-c' not in extra else cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise HarnessError('build of %s failed:\n%s' % (name, p.stdout.decode('latin1')[:4000]))
    os.rename(tmp, out)
    return out

# ------------------------------------------------------------------ sanitizer reports
FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?|\S+):(\d+)')
GENERIC = {'crc32', 'crc64', 'cache_str', 'untyped_str', 'mem_copy', 'mem_move', 'mem_set', 'c_str_len', 'strbuilder_make_str', 'strbuilder_make_length', 'strbuilder_append_c_str_len', 'array_back', 'heap_allocator_proc', 'alloc_align', 'code_is_valid'}
def san_key(err):
    """A short, line-number-free key for a sanitizer report or abnormal end."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m: kind = m.group(1)
    if kind is None:
        m = re.search(r'runtime error: ([^\n]{0,160})', err)
        if m:
            t = m.group(1)
            t = re.sub(r'0x[0-9a-f]+', 'ADDR', t); t = re.sub(r'-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', t)
            kind = 'ub: ' + t[:90]
    if kind is None and 'WARNING: MemorySanitizer' in err: kind = 'unwritten'
    if kind is None:
        m = re.search(r'ERROR: LeakSanitizer', err)
        if m: kind = 'leak'
    fr = None
    for m in FRAME.finditer(err):
        fn, path = m.group(1), m.group(2)
        if '/base/' in path or '/gen' in path:
            fr = re.sub(r'\(.*', '', fn).split('::')[-1]
            if fr not in GENERIC: break
    return '%s@%s' % (kind or 'crash', fr or '?')

# ------------------------------------------------------------------ check object
class Check:
    def __init__(self, pid, level='exploration'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []          # (key, desc, replay)
        self.known_hit = {}
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.cov = {}
        self.notes = []
        self.rule = ''
        self.assumptions = []
        kf = os.path.join(VERIF, 'known_findings.json')
        self.known = {}
        if os.path.exists(kf):
            for e in json.load(open(kf))['findings']:
                if e['property'] == pid and e['status'] == 'known': self.known[e['key']] = e
    def rng(self, salt=''):
        return random.Random('%s/%d/%s' % (self.pid, SEED, salt))
    def case(self, ident=None, n=1):
        self.evals += n
        if ident is not None: self.nontrivial.add(ident if isinstance(ident, (int, str, tuple)) else str(ident))
    def sample(self, s, limit=6):
        if len(self.samples) < limit: self.samples.append(s)
    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n
    def violation(self, key, desc, replay=None):
        if key in self.known:
            self.known_hit.setdefault(key, desc); return
        if any(k == key for k, _, _ in self.viol) and len(self.viol) > 40: return
        self.viol.append((key, desc, replay))
    def finish(self, min_evals=1, min_distinct=1):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        ok_obs = self.evals >= min_evals and len(self.nontrivial) >= min_distinct
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, wall_s=round(wall, 2),
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.nontrivial), rule=self.rule,
                                samples=self.samples or ['none'], **self.cov),
                  assumptions=self.assumptions or ['clang 18 sanitizer instrumentation', 'the oracle code in /verif'],
                  violations=len(self.viol))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        for k, d in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k].get('what', k)))
        if self.viol:
            os.makedirs(REPLAY, exist_ok=True)
            seen = set(); n = 0
            for k, d, r in self.viol:
                if k in seen: continue
                seen.add(k); n += 1
                if n > 8: break
                path = os.path.join(REPLAY, '%s-%d.json' % (self.pid, n))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, key=k, what=d, seed=SEED, tier=TIER, replay=r), f, indent=1, default=lambda o: o.decode('latin1') if isinstance(o, bytes) else str(o))
                print('--- %s: %s' % (k, str(d)[:1500]))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            sys.exit(1)
        if not ok_obs:
            print('inconclusive: only %d evaluations, %d distinct observed' % (self.evals, len(self.nontrivial)))
            sys.exit(3)
        print('%s held on %d executions (%d distinct non-trivial), %.1fs' % (self.pid, self.evals, len(self.nontrivial), wall))
        sys.exit(0)

def main(fn, pid):
    chk = Check(pid)
    try:
        fn(chk)
    except HarnessError as e:
        print('harness error:', e); sys.exit(4)
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); print('harness error'); sys.exit(4)

# ------------------------------------------------------------------ batch driver protocol
class CaseResult:
    __slots__ = ('status', 'fields', 'err', 'key')
    def __init__(self, status, fields=None, err='', key=None):
        self.status, self.fields, self.err, self.key = status, fields or {}, err, key

def enc_cases(cases):
    """case = dict name->bytes/str; wire: '@case n\n' then 'name len\n<bytes>\n'."""
    out = []
    for c in cases:
        out.append(b'@%d\n' % len(c))
        for k, v in c.items():
            if isinstance(v, str): v = v.encode('latin1', 'replace')
            out.append(b'%s %d\n%s\n' % (k.encode(), len(v), v))
    return b''.join(out)

def dec_out(data):
    """list of (index, status, fields); an unfinished case yields status None."""
    res = []; i = 0; cur = None
    n = len(data)
    while i < n:
        j = data.find(b'\n', i)
        if j < 0: break
        line = data[i:j]; i = j + 1
        if line.startswith(b'S '): cur = [int(line[2:]), None, {}]; res.append(cur)
        elif line.startswith(b'E '):
            if cur is not None: cur[1] = line[2:].decode()
        elif line.startswith(b'F '):
            _, k, l = line.split(b' '); l = int(l)
            if i + l > n: break
            cur[2][k.decode()] = data[i:i + l]; i += l + 1
    return res

def _run_chunk(binary, cases, timeout, env, args, per_case):
    results = [None] * len(cases)
    start = 0
    tdir = tempfile.mkdtemp(prefix='vpc', dir=BUILD)
    try:
        while start < len(cases):
            fin, fout = os.path.join(tdir, 'in'), os.path.join(tdir, 'out')
            with open(fin, 'wb') as f: f.write(enc_cases(cases[start:]))
            open(fout, 'wb').close()
            budget = timeout + per_case * (len(cases) - start)
            with open(os.path.join(tdir, 'err'), 'wb') as fe, open(os.path.join(tdir, 'stdout'), 'wb') as fo:
                p = subprocess.Popen([binary, fin, fout] + list(args), stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=tdir)
                # hang watchdog: progress = output size
                last, lastt = -1, time.time(); hung = False
                while True:
                    try: p.wait(0.05 if len(cases) < 50 else 0.2); break
                    except subprocess.TimeoutExpired: pass
                    sz = os.path.getsize(fout)
                    if sz != last: last, lastt = sz, time.time()
                    elif time.time() - lastt > timeout:
                        hung = True; p.kill(); p.wait(); break
            err = open(os.path.join(tdir, 'err'), 'rb').read()[-20000:].decode('latin1')
            done = dec_out(open(fout, 'rb').read())
            nxt = start
            for idx, st, fields in done:
                if st is not None:
                    results[start + idx] = CaseResult(st, fields); nxt = start + idx + 1
                else:
                    if hung: results[start + idx] = CaseResult('HANG', fields, err, 'hang')
                    else: results[start + idx] = CaseResult('CRASH', fields, err + '\n[exit %s]' % p.returncode, san_key(err) if ('Sanitizer' in err or 'runtime error' in err) else 'exit%s' % p.returncode)
                    nxt = start + idx + 1
            if nxt == start and not done:
                raise HarnessError('driver produced nothing: rc=%s %s' % (p.returncode, err[:2000]))
            if nxt >= len(cases): 
                if p.returncode not in (0, None) and not hung and all(st is not None for _, st, _ in done):
                    results[-1] = CaseResult('CRASH', results[-1].fields, err + '\n[exit at end %s]' % p.returncode, 'end:' + san_key(err))
                break
            if all(st is not None for _, st, _ in done) and nxt == start + len(done) and p.returncode == 0 and nxt < len(cases):
                raise HarnessError('driver stopped early')
            start = nxt
    finally:
        shutil.rmtree(tdir, ignore_errors=True)
    return results

def run_cases(binary, cases, timeout=20, args=(), jobs=None, chunk=None, env=None, per_case=0.0, retry_hang=True):
    """Run every case; crash- and hang-isolated. Results in case order."""
    if not cases: return []
    os.makedirs(BUILD, exist_ok=True)
    env = env or san_env()
    jobs = jobs or NCPU
    chunk = chunk or max(1, min(400, (len(cases) + jobs - 1) // jobs))
    parts = [(i, cases[i:i + chunk]) for i in range(0, len(cases), chunk)]
    res = [None] * len(cases)
    with ThreadPoolExecutor(jobs) as ex:
        for (i, part), r in zip(parts, ex.map(lambda t: _run_chunk(binary, t[1], timeout, env, args, per_case), parts)):
            res[i:i + len(part)] = r
    if retry_hang:
        for i, r in enumerate(res):
            if r is not None and r.status == 'HANG':
                res[i] = _run_chunk(binary, [cases[i]], timeout * 3, env, args, per_case)[0]
    return res
