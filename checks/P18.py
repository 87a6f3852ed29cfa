#!/usr/bin/env python3
"""P18: the generated variants of the library against the base they come from: the same programs of calls, the same text."""
import os, sys, re, shutil, struct, subprocess, tempfile, hashlib, threading; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from concurrent.futures import ThreadPoolExecutor
import vp, workload as W, variants
KINDS = 'class constructor define destructor enum export_body extern_link friend function global_body namespace operator operator_cast struct template type typedef union using variable'.split()
# the words the C library is renamed by stand in its tables of strings as well: they are left out of the sources and not told apart in what is written
WORDS = r'global|internal|local_persist|forceinline|neverinline|thread_local|static_assert'
UE = re.compile(rb'FORCEINLINE(_DEBUGGABLE)?')
NORM = re.compile((r'gen_(%s|Operator|Code)\b' % WORDS).encode())
SHOW = {'unreal': 'the library for Unreal Engine', 'singleheader': 'the single header', 'segmented': 'the segmented library', 'c': 'the C single header', 'cseg': 'the segmented C library'}
def compile_(cmd, out):
    p = subprocess.run(cmd + ['-o', out, '-lm', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise variants.Failed('does not compile\n' + p.stdout.decode('latin1')[:3000])
    return out
def cpp(src, out, defs, inc): return compile_([vp.CLANG] + vp.BASE_FLAGS + vp.SAN['asan'] + ['-O0', '-include', os.path.join(vp.HARNESS, 'prelude.h'), '-I', vp.HARNESS, '-DGEN_BUILD_DEBUG=1', '-DGEN_TIME'] + defs + inc + [os.path.join(vp.HARNESS, src)], out)
def c(src, out, defs, inc): return compile_([vp.CLANGC] + variants.CFLAGS + vp.SAN['asan'] + ['-O0', '-include', os.path.join(vp.HARNESS, 'prelude.h'), '-I', vp.HARNESS] + defs + inc + [os.path.join(vp.HARNESS, src)], out)
def make(kind, top):
    """the binaries of a generated library; its files are generated twice"""
    a = variants.generate(kind, os.path.join(top, kind)); b = variants.generate(kind, os.path.join(top, kind + '-again')); differ = []
    for f in sorted(set(os.listdir(a)) | set(os.listdir(b))):
        if os.path.isdir(os.path.join(a, f)): continue
        try: same = open(os.path.join(a, f), 'rb').read() == open(os.path.join(b, f), 'rb').read()
        except OSError: same = False
        if not same: differ.append(f)
    jobs = {'singleheader': [('singleheader', cpp, 'api_cpp.cpp', ['-DVP_SINGLE="%s/gen.hpp"' % a], [])], 'segmented': [('segmented', cpp, 'api_cpp.cpp', ['-DVP_SEG'], ['-I', a])],
            'unreal': [('unreal', cpp, 'api_cpp.cpp', ['-DVP_SEG', '-DVP_DEP'], ['-I', a])],
            'c_library': [('c', c, 'api_c.c', ['-DVP_SINGLE="%s/gen_singleheader.h"' % a], []), ('cseg', c, 'api_c.c', [], ['-I', a])]}[kind]
    return {n: f(s, os.path.join(top, 'api-' + n), d, i) for n, f, s, d, i in jobs}, differ
CLIENT = [vp.CLANG, '-std=c++17', '-fms-extensions', '-fdelayed-template-parsing', '-Wno-everything', '-O0']
def client(kind, top):
    """what a user's program writes, from one file and from several that are linked; its files are all it includes"""
    d = tempfile.mkdtemp(prefix='client', dir=top); gen = os.path.join(vp.REPO, 'base') if kind == 'base' else os.path.join(top, kind, variants.DIRS[kind], 'gen')
    cmd = CLIENT + {'singleheader': ['-DVP_SINGLE="%s/gen.hpp"' % gen], 'base': ['-I', gen]}.get(kind, ['-DVP_SEG', '-I', gen]); src = os.path.join(vp.HARNESS, 'client.cpp'); out = []
    lone = ['-DGEN_TIME', '-DGEN_DEFINE_LIBRARY_CODE_CONSTANTS', '-DGEN_BUILD_DEBUG=1']; files = {'segmented': ['gen', 'gen.builder', 'gen.scanner'], 'unreal': ['gen.dep', 'gen', 'gen.builder', 'gen.scanner']}.get(kind)
    if kind == 'c_library': ways = [(w, [], d) for w, d in [('single header', ['-DVP_SINGLE="%s/gen_singleheader.h"' % gen]), ('segmented', ['-I', gen])]]; cmd = [vp.CLANGC, '-std=gnu11', '-fgnu89-inline', '-fms-extensions', '-Wno-everything', '-O0']; src = os.path.join(vp.HARNESS, 'client.c')
    else: ways = [('linked', [compile_(cmd + lone + ['-c', os.path.join(gen, f + '.cpp')], os.path.join(d, f + '.o')) for f in files] if files else [compile_(cmd + ['-c', '-DIMPL', src], os.path.join(d, 'impl.o'))], [])]
    if kind not in ('c_library', 'segmented', 'unreal'): ways.append(('one file', [], ['-DIMPL']))
    for w, objects, defs in ways:
        b = compile_(cmd + defs + ['-DMAIN', src] + objects, os.path.join(d, w.replace(' ', '')))
        p = subprocess.run([b, 'written.cpp'], cwd=d, env=vp.san_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        out.append((w, (p.returncode, re.sub(rb'(?m)^Generated: .*\n', b'', p.stdout))))
    return out
def results(data):
    out = {}; i = 0; last = None; ended = False
    while i < len(data):
        j = data.find(b'\n', i)
        if j < 0: break
        l = data[i:j].split(); i = j + 1
        if not l: continue
        if l[0] == b'P': last = int(l[1])
        elif l[0] == b'R': out[int(l[1])] = (int(l[2]), UE.sub(b'forceinline', NORM.sub(rb'\1', data[i:i + int(l[3])]))); i += int(l[3]) + 1
        elif l[0] == b'E': ended = True
    return out, last, ended
def programs(bin, src, seed, first, count):
    """text by program; a program that ends the process gives what it wrote on standard error"""
    out = {}; at = first; end = first + count
    while at < end:
        d = tempfile.mkdtemp(prefix='vp18r', dir=vp.BUILD); o = os.path.join(d, 'out')
        try:
            try: p = subprocess.run([bin, src, o, str(seed), str(at), str(end - at)], cwd=d, env=vp.san_env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=max(120, (end - at) * .5)); rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired as e: rc, err = 'timeout', e.stderr or b''
            r, last, ended = results(open(o, 'rb').read() if os.path.exists(o) else b'')
        finally: shutil.rmtree(d, ignore_errors=True)
        out.update(r)
        if ended and rc == 0: break
        if last is None: raise vp.HarnessError('%s does not start: %s' % (bin, err[-1500:].decode('latin1')))
        if last not in r: out[last] = (0, ('ENDED %s\n' % rc).encode() + err[-4000:])
        at = last + 1
    return out
def run(chk):
    chk.rule = 'one case is a program: a source parsed, printed, walked and duplicated, or 3 to 43 random calls (all upfront constructors, parsing, appending, duplicating, comparing, iterating, specifiers, string builders, formatting, files and scanning), compiled from the same text against the base library and each of the four generated ones; non-trivial: distinct text of a program that completed in the base library'
    os.makedirs(vp.BUILD, exist_ok=True); top = tempfile.mkdtemp(prefix='vp18d', dir=vp.BUILD); rng = chk.rng('src')
    try:
        s = [(KINDS.index(k), t) for k, t in W.fixed_cases()] + [(KINDS.index(k), W.lay(t, y, rng)) for k, t, y in W.corpus(rng, 400 if vp.THOROUGH else 60)]
        s = [(k, re.sub(r'\brestrict\b', 'const', t)) for k, t in s]; words = [(k, t) for k, t in s if re.search(r'\b(inline|%s)\b' % WORDS, t)]
        words += [(KINDS.index(k), t) for k, t in [('function', 'forceinline int f( int a );'), ('function', 'static forceinline void g() { return; }'), ('global_body', 'forceinline\nint x = 3;\nneverinline void h();\nglobal u32 n;\ninternal forceinline void* p( char );\n'), ('class', 'class C { forceinline bool b() const { return true; }\nneverinline static int s(); };'), ('struct', 'struct S { forceinline operator bool() const;\nforceinline S operator +( S ) const { return a; } };'), ('template', 'template< class T > forceinline T t( T a ) { return a; }'), ('variable', 'thread_local global int tg;'), ('namespace', 'namespace n { internal forceinline int z( int, int );\nlocal_persist int q = 1; }'), ('export_body', 'export { forceinline int e();\nforceinline int w; }'), ('extern_link', 'extern "C" { forceinline int e();\n}')]]
        words = [(k, re.sub(r'\binline\b', 'forceinline', t) if i % 2 else t) for i, (k, t) in enumerate(words)]; spelt = {}
        for n, w in [('', 'forceinline'), ('FORCEINLINE', 'FORCEINLINE'), ('FORCEINLINE_DEBUGGABLE', 'FORCEINLINE_DEBUGGABLE')]:
            spelt[n] = os.path.join(top, 'words' + n); enc = [(k, re.sub(r'\bforceinline\b', w, t).encode('latin1', 'replace')) for k, t in words]
            open(spelt[n], 'wb').write(b''.join(struct.pack('<II', k, len(t)) + t for k, t in enc))
        s = [(k, re.sub(r'\b(%s)\b' % WORDS, 'inline', t).encode('latin1', 'replace')) for k, t in s]; src = os.path.join(top, 'sources')
        open(src, 'wb').write(b''.join(struct.pack('<II', k, len(t)) + t for k, t in s))
        total = len(s) + (60000 if vp.THOROUGH else 8000); bins = {}
        for k in variants.DIRS: variants.generator(k)       # (one at a time: they use what is installed in build)
        with ThreadPoolExecutor(4) as ex:
            made = []; base = ex.submit(vp.build, 'api', 'api_cpp.cpp', ['GEN_BUILD_DEBUG=1']); jobs = [(k, ex.submit(make, k, top)) for k in variants.DIRS]
            for k, j in jobs:
                try: b, differ = j.result()
                except variants.Failed as e: chk.violation('made %s' % k, str(e)); chk.case('made ' + k); continue
                bins.update(b); made.append(k); chk.count('generated_twice')
                for f in differ: chk.violation('generated twice %s' % k, '%s differs between two runs of the generator' % f)
            base = base.result(); want = None
            for k, j in [(k, ex.submit(client, k, top)) for k in ['base'] + [k for k in variants.DIRS if k in made]]:
                try: ways = j.result()
                except (variants.Failed, subprocess.TimeoutExpired) as e: chk.violation('client %s' % k, 'a program of the library %s: %s' % (k, e)); chk.case('client ' + k); continue
                for w, r in ways:
                    chk.count('clients')
                    if want is None: want = r
                    if r != want or r[0] or not r[1].rstrip().endswith(b'// 2\n\n1'): chk.violation('client %s %s' % (k, w), 'ends with %d, writes %r, the base library %r' % (r[0], r[1][-1500:], want[1][-1500:]))
        step = 250; parts = [(b, i) for i in range(0, total, step) for b in ['base'] + sorted(bins)]; got = {b: {} for b in ['base'] + sorted(bins)}
        def go(t): return t[0], programs(base if t[0] == 'base' else bins[t[0]], src, vp.SEED, t[1], min(step, total - t[1]))
        with ThreadPoolExecutor(vp.NCPU) as ex:
            for b, r in ex.map(go, parts): got[b].update(r)
            runs = {('base', ''): (base, '')}; runs.update({(b, n): (bins[b], n) for b, n in [('singleheader', ''), ('segmented', ''), ('unreal', 'FORCEINLINE'), ('unreal', 'FORCEINLINE_DEBUGGABLE')] if b in bins})
            said = dict(ex.map(lambda r: (r[0], programs(r[1][0], spelt[r[1][1]], vp.SEED, 0, len(words))), runs.items()))
        for i in range(len(words)):
            t = said['base', ''].get(i, (0, b'ENDED missing'))[1]; chk.count('sources_of_own_words'); chk.case(hashlib.md5(t).hexdigest() if not t.endswith(b'stopped\n') else None)
            for r in runs:
                if words[i][0] == KINDS.index('constructor') and r[1].endswith('DEBUGGABLE'): continue     # (a constructor read by itself takes the specifiers of the base library)
                u = said[r].get(i, (0, b'ENDED missing'))[1]
                if u != t: chk.violation('%s words' % r[0], '%s reads %r as %s, the base library as %s' % (SHOW[r[0]], words[i][1][:600], u[:2500].decode('latin1'), t[:2500].decode('latin1')), dict(variant=r[0], source=words[i][1], spelling=r[1]))
        for i in range(total):
            n, t = got['base'].get(i, (0, b'ENDED missing')); chk.count('calls', n)
            if t.startswith(b'ENDED'): chk.violation('base', 'program %d in the base library: %s' % (i, t[-3000:].decode('latin1')), dict(program=i)); continue
            chk.count('diagnosed_calls', t.count(b'diagnosed\n')); chk.count('diagnosed_programs' if t.endswith(b'stopped\n') else 'completed_programs')
            for b in sorted(bins):
                u = got[b].get(i, (0, b'ENDED missing'))[1]
                if u == t: continue
                x, y = t.split(b'\n'), u.split(b'\n'); j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                if u.startswith(b'ENDED'): m = u[:3500].decode('latin1')
                else: m = 'line %d: base %r, there %r, after %r' % (j, x[j:j + 4], y[j:j + 4], x[max(0, j - 3):j])
                chk.violation('%s ends' % b if u.startswith(b'ENDED') else '%s text' % b, 'program %d in %s: %s' % (i, SHOW[b], m), dict(program=i, source=s[i][1].decode('latin1') if i < len(s) else None, variant=b, base=t.decode('latin1')[:6000], there=u.decode('latin1')[:6000]))
            chk.case(hashlib.md5(t).hexdigest() if not t.endswith(b'stopped\n') else None)
        chk.cov['variants'] = sorted(bins); chk.sample(got['base'][len(s) + 7][1].decode('latin1')[:400])
    finally: shutil.rmtree(top, ignore_errors=True)
    if chk.viol: chk.finish()
    else: chk.finish(min_evals=3000, min_distinct=2000)
vp.main(run, 'P18')
