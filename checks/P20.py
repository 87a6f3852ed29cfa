#!/usr/bin/env python3
"""P20: macros: registrations against an exact table and the tokens of every later use; programs that use macros of every kind keep their tokens."""
import os, sys, hashlib; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import random, vp, model, ctok, workload as W, gen_macro as M

def judge(chk, c, x, origin, strict):
    src = c['src']; rep = dict(kind=c['kind'], src=src, macros=c['macros'])
    if x.status in ('CRASH', 'HANG'): return chk.violation('%s %s' % (origin, x.status), '%s for\n%s\n%s' % (x.status, c['macros'], src), rep)
    if x.status != 'OK':
        if strict: return chk.violation('%s refused' % origin, 'a documented use was not parsed (%s %s)\n%s%s' % (x.status, W.dec(x.fields.get('msg', b'')), c['macros'], src), rep)
        chk.count('generated_diagnosed'); return
    a, o = ctok.texts(src), ctok.texts(W.dec(x.fields['text']))
    chk.count('tokens_compared', len(a))
    if a != o:
        i, aa, oo = W.diff_at(a, o)
        chk.violation('%s tokens' % origin, 'token %d differs\n source: %s\n output: %s\n%s%s' % (i, ' '.join(aa), ' '.join(oo), c['macros'], src), rep)
    if W.dec(x.fields.get('bad', b'')): chk.violation('%s tree' % origin, 'the tree is not well formed: %s\n%s%s' % (W.dec(x.fields['bad']), c['macros'], src), rep)
    chk.count(origin.split(' ')[0] + '_ok')
    chk.case(hashlib.md5((c['macros'] + src).encode('latin1')).hexdigest() if c['macros'] or 'define' in src else None)

def run(chk):
    chk.rule = ('one case is a history of registrations (direct, variadic, array, constructed, by directives; colliding checksums, redefinitions, resets, several contexts) with the tokens of texts that use the names, '
                'or a program that uses registered macros; non-trivial: distinct, with at least one registration')
    model.run(chk, vp.build('macro', 'macro_model.cpp', ['GEN_BUILD_DEBUG=1']), 20000 if vp.THOROUGH else 1500, 'macro', timeout=600)
    b = W.parse_bin(); rng = chk.rng('uses'); cases = []; styles = ('space', 'tight', 'wild', 'lines')
    for rep in range(40 if vp.THOROUGH else 6):
        for t in M.USES + M.DEFINED:
            g = M.GM(random.Random(rng.random())); s = M.use(rng, g, t)
            if rep % 3 == 2 and '#' not in s: s = 'int before;\n%s\nint after;\n' % s
            cases.append((dict(kind='global_body', src=s + '\n', opt='td', macros=g.lines()), 'position', True))
    prods = set()
    for i in range(6000 if vp.THOROUGH else 900):
        g = M.GM(random.Random(rng.random())); g.dense = i % 3 == 1
        toks = g.decls(2, 4); cases.append((dict(kind='global_body', src=W.lay(toks, styles[i % 4], rng), opt='td', macros=g.lines()), 'mixed', False)); prods |= {p for p in g.prods if p.startswith('macro')}
    res = vp.run_cases(b, [c for c, o, s in cases])
    for (c, o, s), x in zip(cases, res): judge(chk, c, x, o, s)
    # a second pass over what was written, with the same registrations
    two = [(dict(kind='global_body', src=W.dec(x.fields['text']), opt='t', macros=c['macros']), o) for (c, o, s), x in zip(cases, res) if x.status == 'OK' and len(c['src']) < 4000]
    for (c, o), x in zip(two, vp.run_cases(b, [c for c, o in two])):
        if x.status != 'OK' or ctok.texts(W.dec(x.fields['text'])) != ctok.texts(c['src']): chk.violation('second pass', 'what was written does not come back the same (%s)\n%s%s\n---\n%s' % (x.status, c['macros'], c['src'], W.dec(x.fields.get('text', b''))), dict(c))
        chk.count('second_pass')
    chk.cov['macro_productions'] = sorted(prods)
    chk.sample(cases[3][0]['src']); chk.sample(cases[-1][0]['src'][:500])
    chk.finish(min_evals=2500, min_distinct=2000)
vp.main(run, 'P20')
