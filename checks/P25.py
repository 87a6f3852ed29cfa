#!/usr/bin/env python3
"""P25: a declaration parses the same wherever it may stand."""
import os, sys, re, hashlib; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, ctok, workload as W, gen_cpp, random

def entries(d, body):
    """The entries of a body dump, each as the lines of its own tree, reduced to their tokens; blank lines left out."""
    ls = [l for l in d.split('\n') if l.strip()]
    if not ls or body is not None and not re.match(body + r'\b', ls[0].lstrip(' ')): return None
    b = len(ls[0]) - len(ls[0].lstrip(' ')) + 1; out = []
    for l in ls[1:]:
        i = len(l) - len(l.lstrip(' '))
        if i == b: out.append([])
        if not out: return None
        out[-1].append(l[b:])
    r = [W.norm_dump('\n'.join(e)) for e in out]
    return [e for e in r if e]
def below(d, head):
    """The dump of the first body below a head node."""
    ls = d.split('\n')
    for k, l in enumerate(ls):
        if re.match(head + r'\b', l.lstrip(' ')):
            i = len(l) - len(l.lstrip(' ')); out = [l[i:]]
            for m in ls[k + 1:]:
                if m.strip() and len(m) - len(m.lstrip(' ')) <= i: break
                out.append(m[i:])
            return '\n'.join(out)
    return ''
def decl(d):
    """The declaration of a template or friend, as a tree of its own (from a reduced dump)."""
    ls = d.split('\n')
    for k, l in enumerate(ls):
        m = re.match(r'(\d+) decl :', l)
        if m:
            n = int(m.group(1)); out = []
            for x in ls[k + 1:]:
                i, _, r = x.partition(' ')
                if i.isdigit() and int(i) <= n: break
                if not i.isdigit(): out.append(x); continue
                out.append('%d %s' % (int(i) - n - 1, r))
            return '\n'.join(out)
    return None
WRAP = [('namespace', lambda t: ['namespace', 'Around', '{'] + t + ['}'], 'Namespace_Body'), ('extern_link', lambda t: ['extern', '"C"', '{'] + t + ['}'], 'Extern_Linkage_Body'), ('export_body', lambda t: ['export', '{'] + t + ['}', ';'], 'Export_Body')]
HEADS = set('static extern inline global constinit constexpr consteval thread_local forceinline neverinline volatile const __attribute__ __declspec class struct union enum typename template typedef using namespace operator unsigned long export friend internal local_persist public : ~'.split())
GLOBAL = ('class', 'struct', 'enum', 'union', 'function', 'variable', 'typedef', 'using', 'template', 'operator', 'namespace', 'extern_link', 'define')
def words(toks): return set(re.findall(r'[A-Za-z_]\w*', ' '.join(str(t) for t in toks)))
def defined(toks): return set(m for t in toks for m in re.findall(r'#\s*define\s+(\w+)', str(t)))
def chains(chk, rng, cat, src, n):
    """Sequences of texts in which every kind of beginning follows every other."""
    cats = sorted(cat); left = {(a, c) for a in cats for c in cats}; chk.count('beginnings' + n, len(cats)); chk.count('pairs_of_beginnings' + n, len(left))
    order = sorted(left); rng.shuffle(order)
    for a, c in order:
        if (a, c) not in left: continue
        ch = [a, c]; left.discard((a, c))
        while len(ch) < 8:
            n2 = [y for y in cats if (ch[-1], y) in left]
            if not n2: break
            y = rng.choice(n2); left.discard((ch[-1], y)); ch.append(y)
        seen = set(); take = []
        for y in ch:
            i = rng.choice(cat[y])      # a name defined by an earlier text may change a later one
            if words([src[i]]) & seen: break
            take.append(i); seen |= defined([src[i]])
        chk.count('pairs_met' + n, len(take) - 1); yield take
def run(chk):
    chk.rule = ('a declaration parsed through its own entry point, as a file of its own, and between other declarations of a file, namespace, linkage block or export block; the members of a struct and of a class with the same text; '
                'the trees must be the same node for node, and the tree of a sequence the sequence of the trees; non-trivial: distinct declaration and place')
    rng = chk.rng('src'); b = W.parse_bin()
    rounds = 500 if vp.THOROUGH else 90
    pieces = []
    for i in range(rounds):
        g = gen_cpp.G(random.Random(rng.random())); g.dense = i % 3 == 1; g.n = i * 1000 if hasattr(g, 'n') else None
        for k, t in gen_cpp.entry_cases(g):
            if k in GLOBAL or k == 'global_body': pieces.append((k, t))
    fixed = [(k, s) for k, s in W.fixed_cases() if k in GLOBAL or k == 'global_body']
    src = [W.lay(t, 'space', rng) for _, t in pieces] + [s for _, s in fixed]; kinds = [k for k, _ in pieces] + [k for k, _ in fixed]
    alone = vp.run_cases(b, [dict(kind='global_body', src=s, opt='td') for s in src])
    ent = []
    for k, s, x in zip(kinds, src, alone):
        e = entries(W.dec(x.fields['dump']), 'Global_Body') if x.status == 'OK' else None; ent.append(e)
        if e is None: chk.violation('alone %s' % k, 'a supported declaration is not parsed as a file (%s %s)\n%s' % (x.status, W.dec(x.fields.get('msg', b'')), s[:600]), dict(kind=k, src=s))
    def cmp(what, k, s, place, a, c):
        chk.case(hashlib.md5((what + place).encode('latin1', 'replace')).hexdigest()); chk.count('places_' + what.split()[0])
        if c == a: chk.count('nodes_compared', sum(e.count('\n') + 1 for e in a)); return
        if c is None: chk.violation('%s %s' % (what, k), 'not parsed there\n%s' % place[:1500], dict(src=s, place=place)); return
        i = next((i for i in range(min(len(a), len(c))) if a[i] != c[i]), min(len(a), len(c)))
        p, q = (a[i] if i < len(a) else '(nothing)').split('\n'), (c[i] if i < len(c) else '(nothing)').split('\n'); j, p, q = W.diff_at(p, q, 6)
        chk.violation('%s %s' % (what, k), 'entry %d has another tree (%d entries alone, %d there), line %d\n%s\n--- there\n%s\n--- source\n%s' % (i, len(a), len(c), j, '\n'.join(p), '\n'.join(q), place[:1500]), dict(src=s, place=place))
    # its own entry point
    own = [i for i in range(len(src)) if kinds[i] in GLOBAL and ent[i] is not None]
    for i, x in zip(own, vp.run_cases(b, [dict(kind=kinds[i], src=src[i], opt='td') for i in own])):
        d = W.norm_dump(W.dec(x.fields['dump'])) if x.status == 'OK' else None
        cmp('own-entry-point', kinds[i], src[i], src[i], [e for e in ent[i] if not re.match(r'0 Comment', e)][:1], [d])
    # between others, and within blocks
    todo = []; gi = [i for i in range(len(pieces)) if ent[i] is not None]; fi = [i for i in range(len(pieces), len(src)) if ent[i] is not None]
    rng.shuffle(gi)
    def groups(idx):
        g = []
        for i in idx:
            g.append(i)
            if len(g) >= 1 + rng.randrange(5): yield g; g = []
        if g: yield g
    for pool in (gi, fi):
        for rep in range(4 if pool is fi else 2):
            rng.shuffle(pool)
            for g in groups(pool):
                seen = set(); take = []
                for i in g:      # a name defined by an earlier text may change a later one
                    w = words([src[i]]); df = defined([src[i]])
                    if w & seen: continue
                    take.append(i); seen |= df
                t = ''.join(src[i] for i in take); w = WRAP[rng.randrange(3)] if rng.random() < .6 else None
                if w and (any('#pragma once' in src[i] or 'module' in src[i] or 'extern "' in src[i] and w[0] == 'extern_link' for i in take) or w[0] == 'export_body' and any('export' in src[i] for i in take)): w = None
                kind = 'global_body' if w is None or rng.random() < .3 else w[0]
                text = t if w is None else {'namespace': 'namespace Around {\n%s\n}\n', 'extern_link': 'extern "C" {\n%s\n}\n', 'export_body': 'export {\n%s\n};\n'}[w[0]] % t
                todo.append((kind, text, w, take))
    # every kind of beginning after every other
    cat = {}
    for i in gi + fi:
        t = ctok.texts(src[i])
        if len(src[i]) < 400 and t: cat.setdefault((kinds[i], tuple(x for x in t[:2] if x in HEADS)), []).append(i)
    for take in chains(chk, rng, cat, src, ''):
        w = WRAP[0] if rng.random() < .4 and not any('#pragma once' in src[i] or 'module' in src[i] for i in take) else None; text = ''.join(src[i] for i in take)
        todo.append(('global_body', text if w is None else 'namespace Around {\n%s\n}\n' % text, w, take))
    for (kind, text, w, take), x in zip(todo, vp.run_cases(b, [dict(kind=k, src=t, opt='td') for k, t, _, _ in todo])):
        d = W.dec(x.fields['dump']) if x.status == 'OK' else None
        e = None if d is None else entries(below(d, w[2] if w else 'Global_Body'), None)
        cmp(('within ' + w[0]) if w else 'sequence', '+'.join(sorted(set(kinds[i] for i in take))), '', text, [y for i in take for y in ent[i]], e)
    # members of a struct and of a class
    pairs = []
    for i in range(rounds * 4):
        g = gen_cpp.G(random.Random(rng.random())); g.dense = i % 3 == 1; n = 'Holder'; t = g.members(n, 2, n=1 + rng.randrange(5)); s = W.lay(['{'] + t + ['}', ';'], 'space', rng); pairs.append((n, s))
    cs = [dict(kind=k, src='%s %s %s' % (k, n, s), opt='td') for n, s in pairs for k in ('struct', 'class')]; r = vp.run_cases(b, cs)
    for i, (n, s) in enumerate(pairs):
        x, y = r[2 * i], r[2 * i + 1]
        if x.status != 'OK': chk.violation('members', 'supported members are not parsed (%s)\n%s' % (x.status, s[:600]), cs[2 * i]); continue
        cmp('members', 'class', s, s, entries(below(W.dec(x.fields['dump']), 'Struct_Body'), None), entries(below(W.dec(y.fields['dump']), 'Class_Body'), None) if y.status == 'OK' else None)
    # a member alone, and between others in a class and in a struct
    mem = []; cat = {}
    for i in range(rounds * 8):
        g = gen_cpp.G(random.Random(rng.random())); g.dense = i % 3 == 1; g.n = i * 1000; t = g.members('Holder', 1, n=1); s = W.lay(t, 'space', rng)
        if len(s) > 400: continue
        h = ctok.texts(s); cat.setdefault((tuple(x for x in h[:2] if x in HEADS or x == 'Holder') or ('#',) if h and h[0][0] == '#' else tuple(x for x in h[:2] if x in HEADS or x == 'Holder'), '{' in h, '(' in h, '=' in h), []).append(len(mem)); mem.append(s)
    alone = [entries(below(W.dec(x.fields['dump']), 'Struct_Body'), None) if x.status == 'OK' else None for x in vp.run_cases(b, [dict(kind='struct', src='struct Holder {\n%s\n};' % s, opt='td') for s in mem])]
    for s, e in zip(mem, alone):
        if e is None: chk.violation('member alone', 'a supported member is not parsed\n%s' % s, dict(src=s))
    todo = []
    for take in chains(chk, rng, cat, mem, '_members'):
        take = [i for i in take if alone[i] is not None]; k = rng.choice(['struct', 'class']); todo.append((k, '%s Holder {\n%s\n};' % (k, ''.join(mem[i] for i in take)), take))
    for (k, t, take), x in zip(todo, vp.run_cases(b, [dict(kind=k, src=t, opt='td') for k, t, _ in todo])):
        cmp('members-sequence', k, '', t, [y for i in take for y in alone[i]], entries(below(W.dec(x.fields['dump']), 'Struct_Body' if k == 'struct' else 'Class_Body'), None) if x.status == 'OK' else None)
    # what a template or friend declares, against the declaration alone; a template as a member against the template alone
    todo = []
    for i in range(rounds * 5):
        g = gen_cpp.G(random.Random(rng.random())); g.dense = i % 3 == 1; t = g.template(); n = 0
        for e, x in enumerate(t[1:], 1):
            n += {'<': 1, '>': -1}.get(x, 0)
            if n == 0: break
        s = W.lay(t, 'space', rng)
        if '<' in t[e + 1:e + 4] or t[e] != '>': continue
        todo += [('template', s, decl, 'global_body', W.lay(t[e + 1:], 'space', rng)), ('class', 'class Holder { %s };' % s, None, 'global_body', s)]
        f = g.fn()
        if set(f) & {'extern', 'static', 'consteval', 'template', 'constexpr', 'neverinline', '{', 'internal'} or f[0] in ('__attribute__', '__declspec'): continue
        s = W.lay(f, 'space', rng); todo.append(('friend', 'friend ' + s, decl, 'global_body', s))
    r = vp.run_cases(b, [c for k, s, _, j, t in todo for c in (dict(kind=k, src=s, opt='td'), dict(kind=j, src=t, opt='td'))])
    for i, (k, s, f, j, t) in enumerate(todo):
        x, y = r[2 * i], r[2 * i + 1]
        if y.status != 'OK': chk.violation('inner %s' % k, 'a supported declaration is not parsed (%s)\n%s' % (y.status, t), dict(src=t)); continue
        e = [z for z in entries(W.dec(y.fields['dump']), 'Global_Body') if not re.match('0 Comment', z)]; c = None
        if x.status == 'OK': c = [f(W.norm_dump(W.dec(x.fields['dump'])))] if f else [z for z in entries(below(W.dec(x.fields['dump']), 'Class_Body'), None) if not re.match('0 Comment', z)]
        cmp('inner-of ' + k if f else 'template-member', k, t, s, e, c)
    # a qualifier before or after the name of the type it qualifies
    FORM = [('global_body', '%s name( int a );'), ('global_body', 'static inline %s name( int a ) { return 0; }'), ('global_body', 'void name( %s a, int b );'), ('global_body', 'using name = %s;'), ('global_body', 'typedef %s name;'), ('class', 'class A { virtual %s name( int a ) const; };'),
            ('struct', 'struct A { %s operator->(); };'), ('struct', 'struct A { operator %s(); };'), ('global_body', '%s A::name( int a ) { return 0; }'), ('global_body', 'template< class T > %s name( T a );'), ('variable', 'static %s name = 3;'), ('variable', '%s name;'), ('global_body', 'static inline %s name = 3;'), ('class', 'class A { static %s name; %s other( %s a, int b ); };'),
            ('function', 'static inline %s name( int a );'), ('using', 'using name = %s;'), ('typedef', 'typedef %s name;'), ('operator', 'inline %s operator+( A a, A b );'), ('type', '%s'), ('template', 'template< class T > static inline %s name = 3;'), ('global_body', '%s operator+( A a, A b );')]
    pairs = []
    for i in range(rounds * 4):
        g = gen_cpp.G(random.Random(rng.random())); t = g.type(1, ref=False, ptr=False)
        while t[-1] in ('const', 'volatile', '*', '>') or 'const' in t or 'volatile' in t or t == ['void']: t = g.type(1, ref=False, ptr=False)
        q = rng.choice([['const'], ['volatile'], ['const', 'volatile']]); tail = rng.choice([[], ['*'], ['*', 'const'], ['&'], ['*', '*']])
        k, f = FORM[i % len(FORM)]
        if re.search(r'%s name( = 3)?;', f) and k not in ('typedef',) and 'typedef' not in f: q = ['const']      # a volatile in front of a variable is a specifier of the variable
        if tail == [] and 'operator->' in f: tail = ['*']
        pairs.append((k, f.replace('%s', ' '.join(q + t + tail)), f.replace('%s', ' '.join(t + q + tail))))
    r = vp.run_cases(b, [dict(kind=k, src=s, opt='td') for k, x, y in pairs for s in (x, y)])
    for i, (k, p, q) in enumerate(pairs):
        x, y = r[2 * i], r[2 * i + 1]
        if y.status != 'OK': chk.violation('qualifier', 'a supported declaration is not parsed (%s)\n%s' % (y.status, q), dict(src=q)); continue
        cmp('qualifier', k, q, p, [W.norm_dump(W.dec(y.fields['dump']))], [W.norm_dump(W.dec(x.fields['dump']))] if x.status == 'OK' else None)
    chk.sample(todo[5][1][:500]); chk.finish(min_evals=1500, min_distinct=1500)
vp.main(run, 'P25')
