#!/usr/bin/env python3
"""P02: serialization is a stable, layout-independent fixed point."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, ctok, workload as W, hashlib, random

def apart(t): return t.replace('>>', '> >')
def same(chk, what, kind, a, b, x, y, src, text_exact, nested=False):
    """Compare the tree and the text of two parses."""
    rep = dict(kind=kind, what=what, first=src, second=b.get('src'), out1=W.dec(x.fields.get('text', b'')), out2=W.dec(y.fields.get('text', b'')))
    if y.status != 'OK' or x.status != 'OK':
        chk.violation('%s %s %s' % (what, kind, y.status), '%s: one of the pair is not parsed (%s/%s %s)\n%s' % (what, x.status, y.status, W.dec(y.fields.get('msg', b'')), b.get('src', '')[:600]), rep); return
    da, db = W.norm_dump(W.dec(x.fields['dump'])), W.norm_dump(W.dec(y.fields['dump']))
    if nested: da, db = apart(da), apart(db)
    if da != db:
        i, p, q = W.diff_at(da.split('\n'), db.split('\n'), 6)
        chk.violation('%s %s tree' % (what, kind), '%s: the tree changed at line %d\n%s\n---\n%s' % (what, i, '\n'.join(p), '\n'.join(q)), rep)
    ta, tb = W.dec(x.fields['text']), W.dec(y.fields['text'])
    if text_exact: ta, tb = W.noblank(ta).split('\n'), W.noblank(tb).split('\n')
    else: ta, tb = (ctok.texts(apart(t) if nested else t) for t in (ta, tb))
    if ta != tb:
        i, p, q = W.diff_at(ta, tb, 8)
        chk.violation('%s %s text' % (what, kind), '%s: the text changed\n%s\n---\n%s' % (what, p, q), rep)
    chk.count('nodes_compared', da.count('\n') + 1)

def run(chk):
    chk.rule = ('pairs of runs: (source, its own serialization), (source, the same tokens in another layout), (source alone, source parsed after unrelated text in the same context); '
                'non-trivial: distinct pair whose tree has more than three lines')
    rng = chk.rng('src'); b = W.parse_bin()
    n = 700 if vp.THOROUGH else 110
    gen = W.corpus(rng, n, styles=('space',))
    base = [dict(kind=k, src=W.lay(t, 'space', rng), opt='td') for k, t, _ in gen]
    base += [dict(kind=k, src=s, opt='td') for k, s in W.fixed_cases()]
    r0 = vp.run_cases(b, base)
    def ident(c, what): return hashlib.md5((what + c['src']).encode('latin1', 'replace')).hexdigest()
    # fixed point
    idx = [i for i, x in enumerate(r0) if x.status == 'OK']
    for i, x in enumerate(r0):
        if x.status != 'OK': chk.violation('base %s %s' % (base[i]['kind'], x.status), 'supported source was not parsed\n' + base[i]['src'][:600], base[i])
    c1 = [dict(base[i], src=W.dec(r0[i].fields['text'])) for i in idx]
    r1 = vp.run_cases(b, c1)
    for i, c, y in zip(idx, c1, r1):
        same(chk, 'reparse', c['kind'], base[i], c, r0[i], y, base[i]['src'], True); chk.case(ident(c, 'f'))
    # other layouts
    styles = ['tight', 'wild', 'lines'] if vp.THOROUGH else ['wild', 'lines']
    for st in styles:
        c2 = [dict(kind=k, src=W.lay(t, st, rng), opt='td') for k, t, _ in gen]
        for i, (c, y) in enumerate(zip(c2, vp.run_cases(b, c2))):
            if r0[i].status == 'OK': same(chk, 'relayout-' + st, c['kind'], base[i], c, r0[i], y, base[i]['src'], False); chk.case(ident(c, 'l'))
    # nested templates closed by adjacent brackets
    c5 = [(i, dict(base[i], src=base[i]['src'].replace('> >', '>>').replace('> >', '>>'))) for i in range(len(base)) if '> >' in base[i]['src']]
    for (i, c), y in zip(c5, vp.run_cases(b, [c for _, c in c5])):
        if r0[i].status == 'OK': same(chk, 'adjacent-brackets', c['kind'], base[i], c, r0[i], y, base[i]['src'], False, True); chk.case(ident(c, 'l')); chk.count('adjacent_brackets')
    # same context, after other text
    pick = list(range(len(base))); rng.shuffle(pick); pick = pick[:len(base) // 2]
    c3 = []
    ok = [i for i in range(len(gen)) if r0[i].status == 'OK']
    for i in pick:
        j = rng.choice(ok); c3.append(dict(base[i], before=base[j]['src'], before_kind=base[j]['kind'], j=str(j)))
    for i, c, y in zip(pick, c3, vp.run_cases(b, c3)):
        if r0[i].status == 'OK':
            if set(defs(base[int(c['j'])]['src'])) & set(defs(c['src'])): continue   # a name defined by the first text may change the second
            same(chk, 'same-context', c['kind'], base[i], c, r0[i], y, base[i]['src'], True); chk.case(ident(c, 's' + c['before']))
    # the identical text twice in one context
    c4 = [dict(base[i], before=base[i]['src'], before_kind=base[i]['kind']) for i in pick]
    for i, c, y in zip(pick, c4, vp.run_cases(b, c4)):
        if r0[i].status == 'OK' and '#define' not in c['src']: same(chk, 'twice', c['kind'], base[i], c, r0[i], y, base[i]['src'], True); chk.case(ident(c, 't'))
    chk.sample(base[3]['src'][:300]); chk.sample(base[23]['src'][:500])
    chk.finish(min_evals=3000, min_distinct=2000)
import re
def defs(s): return re.findall(r'[A-Za-z_]\w*', s) if '#' in s else []
vp.main(run, 'P02')
