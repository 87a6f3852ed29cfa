"""Source-text workloads shared by the parser properties."""
import random, re, os
import vp, gen_cpp, ctok

def corpus(seed_rng, rounds, styles=('space', 'tight', 'wild', 'lines')):
    """[(case, tokens, productions)] : every construct per round, through its own entry point, in one layout each."""
    out = []
    for i in range(rounds):
        g = gen_cpp.G(random.Random(seed_rng.random()))
        g.dense = i % 3 == 1
        for kind, toks in gen_cpp.entry_cases(g):
            out.append((kind, toks, styles[len(out) % len(styles)]))
        prods = frozenset(g.prods)
    return out

def lay(toks, style, rng): return gen_cpp.lay(toks, rng, style)

# ---------------------------------------------------------------- hand-written programs: one per construct and per repaired defect
def fixed_cases():
    """(kind, source) pairs whose text must survive token for token."""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'programs.txt')
    out = []
    for blk in open(p, encoding='latin1').read().split('\n%%\n'):
        blk = blk.strip('\n')
        if not blk or blk.startswith('#!'): continue
        kind, src = blk.split('\n', 1)
        out.append((kind.strip(), src + '\n'))
    return out

# ---------------------------------------------------------------- normal forms of the dumps
def norm_dump(d):
    """A dump without layout: blank-line nodes dropped, names and contents reduced to their tokens."""
    out = []
    for l in d.split('\n'):
        b = l.lstrip(' ')
        if not b or b.startswith('NewLine'): continue
        ind = len(l) - len(b)
        raw = unesc(b)
        t = ' '.join(x for x in ctok.texts(raw) if x not in ('#$',)).replace('#^', '#')
        if not t or re.fullmatch(r'Untyped|content =', t): continue
        out.append('%d %s' % (ind, t))
    return '\n'.join(out)

def unesc(s):
    return re.sub(r'\\(n|\\|x[0-9a-f]{2})', lambda m: {'n': '\n', '\\': '\\'}.get(m.group(1)) or chr(int(m.group(1)[1:], 16)), s)

def noblank(t): return '\n'.join(l.rstrip() for l in t.replace('\r', '').split('\n') if l.strip())

def diff_at(a, b, n=12):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return i, a[max(0, i - n):i + n], b[max(0, i - n):i + n]

def dec(x): return x.decode('latin1') if isinstance(x, bytes) else x

def parse_bin(): return vp.build('parse', 'parse_drv.cpp', ['GEN_BUILD_DEBUG=1'])

def lex_bin(): return vp.build('lex', 'parse_drv.cpp', ['GEN_BUILD_DEBUG=1', 'VP_LEX'])
