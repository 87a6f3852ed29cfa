"""Generates the library variants natively in a scratch copy: {singleheader, segmented, c_library}/gen."""
import os, sys, shutil, subprocess, tempfile, stat
import vp
DIRS = dict(singleheader='gen_singleheader', segmented='gen_segmented', c_library='gen_c_library', unreal='gen_unreal_engine')
OUT = dict(singleheader=['gen.hpp'], segmented=['gen.hpp', 'gen.cpp', 'gen.dep.hpp', 'gen.dep.cpp', 'gen.builder.hpp', 'gen.builder.cpp', 'gen.scanner.hpp', 'gen.scanner.cpp'], c_library=['gen_singleheader.h', 'gen.h', 'gen.c', 'gen.dep.h', 'gen.dep.c'])
OUT['unreal'] = OUT['segmented']
class Failed(Exception): pass
def generator(kind): return vp.build('gen-' + kind, os.path.join(vp.REPO, DIRS[kind], kind + '.cpp'), ['GEN_BUILD_DEBUG=1'])
def generate(kind, top):
    """returns the directory of the generated files; raises Failed with the output when the generator does not do its work"""
    os.makedirs(top, exist_ok=True)
    for d in ('base', DIRS[kind]): 
        if not os.path.isdir(os.path.join(top, d)): shutil.copytree(os.path.join(vp.REPO, d), os.path.join(top, d), ignore=shutil.ignore_patterns('build', '_build'))
    os.makedirs(os.path.join(top, 'scripts'), exist_ok=True)
    try: shutil.copy(os.path.join(vp.REPO, 'scripts', '.clang-format'), os.path.join(top, 'scripts'))
    except OSError: pass
    bin = os.path.join(top, 'bin'); os.makedirs(bin, exist_ok=True)
    def tool(n, text):
        f = os.path.join(bin, n); open(f, 'w').write(text); os.chmod(f, 0o755)
    tool('refactor', '#!/bin/sh\nexec %s %s "$@"\n' % (sys.executable, os.path.join(vp.VERIF, 'lib', 'refactor.py')))
    if not shutil.which('clang-format'): tool('clang-format', '#!/bin/sh\nexit 0\n')
    cwd = os.path.join(top, DIRS[kind])
    if kind == 'unreal':         # the attributes of a project are its own to list: those of the base library, for the same sources
        f = os.path.join(cwd, 'enums', 'AttributeTokens.csv'); t = open(f, 'rb').read(); b = open(os.path.join(top, 'base', 'enums', 'AttributeTokens.csv'), 'rb').read()
        have = {l.split(b',')[0].strip() for l in t.splitlines()}
        open(f, 'wb').write(b''.join(l.rstrip() + b'\n' for l in b.splitlines() if l.strip() and l.split(b',')[0].strip() not in have) + t)
    for x in ('build', 'gen'): os.makedirs(os.path.join(cwd, x), exist_ok=True)
    env = vp.san_env(); env['PATH'] = bin + ':' + env['PATH']
    p = subprocess.run([generator(kind)], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if p.returncode: raise Failed('%s ended with %d\n%s' % (kind, p.returncode, p.stdout.decode('latin1')[-3000:]))
    gen = os.path.join(cwd, 'gen')
    for f in OUT[kind]:
        if not os.path.exists(os.path.join(gen, f)): raise Failed('%s did not write %s' % (kind, f))
        if kind == 'c_library':      # NULL was expanded while a C++ program was read
            t = open(os.path.join(gen, f), 'rb').read(); open(os.path.join(gen, f), 'wb').write(t.replace(b'__null', b'NULL'))
    return gen
CFLAGS = ['-std=c11', '-fgnu89-inline', '-fms-extensions', '-Wno-everything', '-g1', '-fno-omit-frame-pointer', '-DGEN_BUILD_DEBUG=1', '-DGEN_TIME']
