#!/usr/bin/env python3
"""P04: hostile input through every parse entry point: no memory error, no undefined behaviour, no hang."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, workload as W, ctok, hashlib, re

KINDS = 'class constructor define destructor enum export_body extern_link friend function global_body namespace operator operator_cast struct template type typedef union using variable'.split()
FRAG = ['{', '}', '(', ')', '[', ']', '<', '>', ';', ',', ':', '::', '=', '*', '&', '&&', '~', '#', '\\', '"', "'", '/*', '//', '...', '#define', '#if', '#include', '\\\n', '\n', '\0', '\x7f', '\xff',
        'class', 'struct', 'enum', 'union', 'template', 'template<', 'typename', 'operator', 'namespace', 'extern', 'extern "C"', 'typedef', 'using', 'friend', 'const', 'static', 'virtual', 'inline', 'explicit', 'alignas(', '[[', ']]', '__attribute__((', '__declspec(', 'decltype(', 'default', 'delete', 'public:', 'private', 'static_assert(', 'import', 'export', 'module', 'final', 'override', 'volatile', 'unsigned', 'long', 'signed', 'x', '0', '1.5e+', '0x', 'u8', 'R"(', '->', '<<=', '>>=', '-', '.', 'a::b', 'A<', '#define X(', '#define X( a,', '#pragma', '#undef', '/* c */', '// c\n', '@', '$', '`', '? ', '%', '!', 'operator *', 'operator()', 'operator[]', 'operator new[]', 'A::~A', 'A::A(', '= {', '= 0', '= default', ': {', '0b', "'\\''"]

def mutate(rng, toks, src, pool):
    """One hostile variant of a source."""
    m = rng.randrange(12)
    t = list(toks)
    if m <= 6 and len(t) > 1:
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
            i = rng.randrange(len(t)) if t else 0
            k = rng.randrange(6)
            if not t: break
            if k == 0: del t[i]
            elif k == 1: t.insert(i, t[i])
            elif k == 2: j = rng.randrange(len(t)); t[i], t[j] = t[j], t[i]
            elif k == 3: t.insert(i, rng.choice(FRAG))
            elif k == 4: t[i] = rng.choice(FRAG)
            else: t = t[:i]
        return rng.choice([' ', ' ', '\n', '']).join(t)
    if m == 7: return src[:rng.randrange(len(src) + 1)]
    if m == 8: i = rng.randrange(len(src) + 1); j = min(len(src), i + rng.choice([1, 2, 8, 40])); return src[:i] + src[j:]
    if m == 9:
        b = list(src)
        for _ in range(rng.choice([1, 1, 2, 5])):
            if b: b[rng.randrange(len(b))] = chr(rng.choice([rng.randrange(256), rng.randrange(32, 127)]))
        return ''.join(b)
    if m == 10: o = rng.choice(pool); i = rng.randrange(len(src) + 1); j = rng.randrange(len(o) + 1); return src[:i] + o[j:]
    return ''.join(rng.choice(FRAG) + rng.choice([' ', '', '\n']) for _ in range(rng.choice([1, 2, 3, 5, 9, 20])))

def nests(rng):
    """Deep and long inputs: bounded work, no overflow of fixed-size tables."""
    out = []
    for n in (2, 16, 17, 40, 200):
        out += ['int ' * n + 'x;', 'const ' * n + 'int x;', 'static ' * n + 'int f();', 'int ' + '*' * n + 'x;', 'int x' + '[2]' * n + ';', 'namespace a { ' * n + '}' * n, 'struct a { ' * n + '};' * n, 'struct a { ' * n,
                'A<' * n + 'int' + '>' * n + ' x;', 'int x = ' + '(' * n + '1' + ')' * n + ';', 'int f' + '(' * n, 'a::' * n + 'b x;', 'template< ' * n, 'enum { ' + 'A, ' * n + '};', 'int ' + 'a' * n * 50 + ';', '"' + 'a' * n * 100, 'static_assert( ' + 'a' * n * 50 + ', "x" );',
                '#define A ' + 'x \\\n' * n, '#if A\n' * n, '/* ' * n, '#define A(' + 'a,' * n, 'virtual ' * n + '~X();', 'int f(' + 'int a, ' * n + ');', 'template< ' + 'typename T, ' * n + '> struct x;', 'friend ' * n, 'using ' * n, 'typedef ' * n + 'int x;', 'operator ' * n, 'inline ' * n + 'operator int();', 'explicit ' * n + 'X();',
                '__declspec( ' * n, '[[' * n, '__attribute__((' * n, 'private ' * n, 'export ' * n + '{', 'extern "C" { ' * n, 'struct A : ' + 'B, ' * n + '{};', 'int x : ' * n, 'X::X() : ' + 'a( 1 ), ' * n + '{ }', 'static inline const ' * n + 'X();', 'typename ' * n + 'x;']
    return out

def run(chk):
    chk.rule = 'sources from the grammar, broken at token and byte level, fragments of hostile text and deep nesting, each handed to a parse entry point in a buffer of exactly its size; every outcome is judged; non-trivial: distinct (entry point, text)'
    rng = chk.rng('mut'); b = W.parse_bin()
    base = [(k, t) for k, t, _ in W.corpus(rng, 120 if vp.THOROUGH else 14)]
    base += [(k, ctok.texts(s)) for k, s in W.fixed_cases()]
    base = [(k, [x for x in t if x not in ('#$',)]) for k, t in base]
    base = [(k, t, W.lay(t, 'space', rng) if '#^' not in t else ' '.join(t).replace('#^ ', '\n#')) for k, t in base]
    base += [(k, ctok.texts(s), s) for k, s in W.fixed_cases()]
    pool = [s for _, _, s in base]
    cases = []; n = 200000 if vp.THOROUGH else 12000
    for i in range(n):
        k, t, s = base[rng.randrange(len(base))]
        src = mutate(rng, t, s, pool).replace('#^', '#').replace('#$', '\n')
        if rng.random() < .15: k = rng.choice(KINDS)
        cases.append(dict(kind=k, src=src, opt='t' + rng.choice(['z', 'z', ''])))
    for k, t, s in base[:400 if vp.THOROUGH else 150]:      # every truncation of some sources
        step = max(1, len(s) // (60 if vp.THOROUGH else 12))
        for i in range(0, len(s), step): cases.append(dict(kind=k, src=s[:i], opt='tz'))
    for s in nests(rng):
        cases.append(dict(kind='global_body', src=s, opt='tz'))
        for k in (KINDS if vp.THOROUGH else rng.sample(KINDS, 3)): cases.append(dict(kind=k, src=s, opt='tz'))
    for k in KINDS:
        for s in [''] + FRAG: cases.append(dict(kind=k, src=s, opt='tz'))
    st = {}
    for c, x in zip(cases, vp.run_cases(b, cases, timeout=10, args=['h'])):
        st[x.status] = st.get(x.status, 0) + 1
        if x.status in ('CRASH', 'HANG'): chk.violation('%s' % x.key, 'entry point %s\n%s\nsource: %r' % (c['kind'], x.err[-1800:], c['src'][:600]), dict(case=c, err=x.err[-6000:]))
        chk.case(hashlib.md5((c['kind'] + '\0' + c['src']).encode('latin1', 'replace')).hexdigest())
    chk.cov['outcomes'] = dict(tree=st.get('OK', 0), invalid_code=st.get('INVALID', 0), diagnosed_stop=st.get('TRAP', 0), crash=st.get('CRASH', 0), hang=st.get('HANG', 0))
    chk.sample(cases[7]); chk.sample(cases[-3])
    chk.finish(min_evals=8000, min_distinct=6000)
if __name__ == '__main__': vp.main(run, 'P04')
