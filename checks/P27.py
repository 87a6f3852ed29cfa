#!/usr/bin/env python3
"""P27: the work done and the memory asked for and copied grow in proportion to the input (steps and bytes counted at run time)."""
import os, sys, re; D = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [os.path.join(D, '..', 'lib'), D]
import vp, model, workload as W
F = 'malloc calloc realloc posix_memalign memcpy memmove memset memcmp strlen'.split()
EXTRA = ['-fno-builtin-' + f for f in F] + ['-Wl,' + ','.join('--wrap=' + f for f in F)]

def run(chk):
    chk.rule = ('one case is a construct, an operation or a whole program, done once with n of it and once with 16 n (thorough: 64 n), every edge of the control flow graph taken and every byte allocated, copied, filled or compared counted in both; '
                'non-trivial: distinct constructs, operations and programs')
    chk.assumptions = ['edges of the instrumented library at -O1 stand for its work, bytes for what it passes to the C library', 'a list of base classes and the depth of nesting are kept as they are: only the number of things next to one another grows']
    b = vp.build('work', 'work_model.cpp', ['GEN_BUILD_DEBUG=1'], 'steps', '-O1', extra=EXTRA)
    rng = chk.rng('programs'); progs = [s for k, s in W.fixed_cases() if k == 'global_body'] 
    rng.shuffle(progs); progs = progs[:400 if vp.THOROUGH else 300]
    progs += [W.lay(t, s, rng) for k, t, s in W.corpus(rng, 800 if vp.THOROUGH else 200) if k == 'global_body']
    progs = [s for s in progs if 0 < len(s) < 4000 and '\0' not in s]
    f = os.path.join(vp.BUILD, 'texts.%d' % os.getpid())
    open(f, 'wb').write('\0'.join(progs).encode('latin1', 'replace'))
    try:
        for k in ('16', '64') if vp.THOROUGH else ('16',):
            model.run(chk, b, 600 + 4 * len(progs), 'x' + k, chunk=16, timeout=240, env=dict(vp.san_env(), VP_TEXTS=f, VP_FACTOR=k))
            c = chk.cov.get('x' + k, {}); chk.evals -= c.get('no scene', 0)
    finally: os.unlink(f)
    chk.finish(min_evals=500, min_distinct=400)
vp.main(run, 'P27')
