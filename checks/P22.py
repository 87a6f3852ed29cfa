#!/usr/bin/env python3
"""P22: the arrays and hash tables the C library is made with, for its own and for further types, against a sequence and a map."""
import os, sys, re, shutil, subprocess, tempfile; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, model, variants, refactor
def make(top):
    """the C library and the further containers, compiled; None after a violation"""
    gen = variants.generate('c_library', top); lib = os.path.join(gen, 'gen_singleheader.h'); s = open(lib, encoding='latin1').read()
    slots = [max([0] + [int(x) for x in re.findall(r'GENERIC_SLOT_(\d+)__%s\b' % f, '\n'.join(l for l in s.split('\n') if re.match(r'\s*#\s*define\s+\w*GENERIC_SLOT_\d+__', l)))]) for f in ('array_init', 'hashtable_init')]
    b = vp.build('ccontgen', 'ccont_gen.cpp', ['GEN_BUILD_DEBUG=1']); extra = os.path.join(top, 'extra.h')
    p = subprocess.run([b, extra] + [str(x) for x in slots], cwd=top, env=vp.san_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if p.returncode: raise variants.Failed('the containers are not made: exit %d\n%s' % (p.returncode, p.stdout.decode('latin1')[-3000:]))
    x = refactor.refactor(open(extra, encoding='latin1').read(), os.path.join(vp.REPO, 'gen_c_library', 'c_library.refactor')).replace('__null', 'NULL'); open(extra, 'w', encoding='latin1').write(x)
    o = os.path.join(top, 'ccont.o')
    cmd = [vp.CLANGC] + variants.CFLAGS + vp.SAN['asan'] + ['-O0', '-DVP_NO_TRAP', '-include', os.path.join(vp.HARNESS, 'prelude.h'), '-I', vp.HARNESS, '-DVP_LIB="%s"' % lib, '-DVP_EXTRA="%s"' % extra, '-c', os.path.join(vp.HARNESS, 'ccont.c'), '-o', o]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise variants.Failed('the containers do not compile\n' + p.stdout.decode('latin1')[:3000])
    b = os.path.join(top, 'ccont')
    p = subprocess.run([vp.CLANG] + vp.BASE_FLAGS + vp.SAN['asan'] + ['-O1', '-include', os.path.join(vp.HARNESS, 'prelude.h'), '-I', vp.HARNESS, os.path.join(vp.HARNESS, 'ccont_model.cpp'), o, '-o', b, '-lm', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise vp.HarnessError('build of ccont_model failed:\n' + p.stdout.decode('latin1')[:3000])
    return b
def run(chk):
    chk.rule = 'one round is a random history on an array (up to 60 operations, optional allocation failures) or a hash table (up to 150) of one of 15 and 10 element types, by the functions or by the selection macros, compared with a sequence or map after every step; non-trivial: distinct histories'
    os.makedirs(vp.BUILD, exist_ok=True); top = tempfile.mkdtemp(prefix='vp22d', dir=vp.BUILD)
    try:
        try: b = make(top)
        except variants.Failed as e: chk.violation('made', str(e)); chk.case('made')
        else: model.run(chk, b, 800000 if vp.THOROUGH else 48000, 'ccont'); chk.sample('element types: byte, short, int, long, pointer, struct of 13 bytes, struct of 128 bytes, double and those of the library')
    finally: shutil.rmtree(top, ignore_errors=True)
    if chk.viol: chk.finish()
    else: chk.finish(min_evals=1000, min_distinct=1000)
vp.main(run, 'P22')
