#!/usr/bin/env python3
"""P05: structural invariants of every tree the parser hands out (constructed trees: see drivers of P06/P21, same walker)."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, workload as W, hashlib, re

def run(chk):
    chk.rule = 'every tree returned for a generated or hand-written source is walked by the invariant monitor; non-trivial: distinct source whose tree has more than three nodes'
    rng = chk.rng('src'); b = W.parse_bin()
    gen = W.corpus(rng, 1200 if vp.THOROUGH else 220)
    cases = [dict(kind=k, src=W.lay(t, s, rng), opt='td') for k, t, s in gen] + [dict(kind=k, src=s, opt='td') for k, s in W.fixed_cases()]
    kinds = {}
    for c, x in zip(cases, vp.run_cases(b, cases)):
        if x.status == 'CRASH' or x.status == 'HANG': chk.violation('walk %s' % x.key, x.err[-1500:], c); continue
        if x.status != 'OK': chk.count('rejected'); continue
        n = int(x.fields['nodes']); chk.count('nodes_walked', n)
        for k in W.dec(x.fields['kinds']).split(): kinds[k] = kinds.get(k, 0) + 1
        bad = W.dec(x.fields['bad']).strip()
        if bad:
            for l in bad.split('\n')[:3]: chk.violation('invariant: ' + re.sub(r'\d+', 'N', l)[:90], '%s\n%s' % (bad[:600], c['src'][:600]), dict(case=c, bad=bad, dump=W.dec(x.fields['dump'])[:8000]))
        chk.case(hashlib.md5(c['src'].encode('latin1', 'replace')).hexdigest() if n > 3 else None)
    chk.cov['node_kinds_seen'] = kinds; chk.cov['distinct_kinds'] = len(kinds)
    chk.sample(cases[2]['src'][:300])
    chk.finish(min_evals=3000, min_distinct=1500)
vp.main(run, 'P05')
