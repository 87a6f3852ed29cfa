#!/usr/bin/env python3
"""P01: parse + serialize conserves the token sequence."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, ctok, workload as W, hashlib

def judge(chk, kind, src, x, origin):
    rep = dict(kind=kind, src=src, status=x.status, out=W.dec(x.fields.get('text', b'')), err=x.err[-1500:])
    if x.status != 'OK':
        chk.violation('%s %s %s' % (origin, kind, x.status if x.status != 'CRASH' else x.key), 'supported source was not parsed: %s %s\n%s' % (x.status, W.dec(x.fields.get('msg', b'')) or x.key, src[:600]), rep); return
    a, o = ctok.texts(src), ctok.texts(W.dec(x.fields['text']))
    chk.count('tokens_compared', len(a))
    if a != o:
        i, aa, oo = W.diff_at(a, o)
        chk.violation('%s %s tokens' % (origin, kind), 'token %d differs (%s)\n source: %s\n output: %s' % (i, kind, ' '.join(aa), ' '.join(oo)), rep)
    chk.case(hashlib.md5(src.encode('latin1', 'replace')).hexdigest() if len(a) > 3 else None)

def run(chk):
    chk.rule = ('grammar-generated source (one construct per parse entry point and mixed files, four layouts) or a hand-written program, parsed and serialized; '
                'non-trivial: distinct and longer than three tokens')
    rng = chk.rng('src')
    b = W.parse_bin()
    n = 1500 if vp.THOROUGH else 260
    gen = W.corpus(rng, n)
    cases = [dict(kind=k, src=W.lay(t, s, rng), opt='td') for k, t, s in gen]
    kinds = {}
    for c, x in zip(cases, vp.run_cases(b, cases)):
        judge(chk, c['kind'], c['src'], x, 'generated')
        for k in W.dec(x.fields.get('kinds', b'')).split(): kinds[k] = kinds.get(k, 0) + 1
    fx = W.fixed_cases()
    for (k, s), x in zip(fx, vp.run_cases(b, [dict(kind=k, src=s, opt='td') for k, s in fx])):
        judge(chk, k, s, x, 'program %s' % hashlib.md5(s.encode('latin1')).hexdigest()[:8])
        chk.count('hand_written')
    chk.cov['node_kinds_seen'] = kinds
    chk.sample(cases[7]['src'][:300]); chk.sample(cases[-1]['src'][:600])
    chk.finish(min_evals=3000, min_distinct=2000)
vp.main(run, 'P01')
