#!/usr/bin/env python3
"""P03: the lexer partitions its input into ordered, exact, correctly classified and located slices."""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, workload as W, gen_cpp, hashlib, random, re

# lexical classes, written down from the C++ grammar and the documented token table - not read from the library
KW = {k: k for k in '''class enum extern friend module namespace operator struct template typedef using union import export
 alignas const consteval constexpr constinit explicit final global inline internal local_persist mutable override restrict
 static thread_local volatile virtual static_assert typename private protected public __attribute__ __declspec'''.split()}
SPECKW = set('alignas const consteval constexpr constinit explicit final forceinline global inline internal local_persist mutable neverinline override restrict static thread_local volatile virtual'.split())
TYPEKW = set('unsigned signed short long bool char int double'.split())
PUN = {'.': '.', '::': '::', '&': '&', '&&': '&&', ':': ':', '{': '{', '}': '}', '[': '[', ']': ']', '(': '(', ')': ')', ',': ',', ';': ';', '*': '*', '...': '...'}
ASSIGN = set('= += -= *= /= %= &= |= ^= <<= >>='.split())
IDRE = re.compile(r'[A-Za-z_]\w*\Z')
NUMRE = re.compile(r"[0-9.][0-9A-Za-z_.']*(?:[eEpP][+-][0-9A-Za-z_.']*)*\Z")
FL = dict(ASSIGN=2, PP=8, PPCOND=16, ATTR=32, ACC=64, ACCSPEC=128, SPEC=256, END=512, LIT=2048, FUNC=4096)

def expected(text, macros):
    """Set of admissible token kind names for a plain token."""
    if text in macros: return {'__macro_expression__', '__macro_statment__', '__macro_typename__'} if macros[text] is None else {macros[text]}
    if text.startswith('//') or text.startswith('/*'): return {'__comment__'}
    if text[0] == '"': return {'__string__'}
    if text[0] == "'": return {'__character__'}
    if IDRE.match(text):
        if text == 'extern': return {'extern'}
        if text in ('if', 'else', 'define', 'include', 'pragma', 'ifdef', 'ifndef', 'elif', 'endif'): return {text, '__identifier__'}   # directive names keep their kind in code
        if text in KW: return {KW[text]}
        if text in ('forceinline', 'neverinline'): return {text}
        if text in TYPEKW: return {text}
        if text in ('__int8', '__int16', '__int32', '__int64', '_W64'): return {text}
        return {'__identifier__'}
    if re.match(r'\.?[0-9]', text): return {'__number__'}
    if text in PUN: return {PUN[text]} | ({'__operator__'} if text in '*&' else set())
    if text == '*=': return {'*', '__operator__'}     # a star with the assignment flag
    if text in ('[[', ']]', '[]'): return {text, '__operator__'}
    if text == '->': return {'->', '__operator__', '.'}
    return {'__operator__'}

CMT = re.compile(r'//[^\n]*\n?|/\*(?:(?!\*/).)*\*/\r?\n?', re.S); STR = re.compile(r'"(?:\\.|[^"\\])*"', re.S); CHR = re.compile(r"'(?:\\.|[^'\\])*'", re.S)
def incomplete(src, off, end, text, kind):
    """A literal, comment or name must end exactly where the lexical grammar ends it (or at the end of the source)."""
    rx = {'__comment__': CMT, '__string__': STR, '__character__': CHR}.get(kind)
    if rx and text[:1] in '/"\'':
        if not rx.fullmatch(text) and end < len(src): return 'lexeme ' + kind
    elif IDRE.match(text) and re.match(r'[A-Za-z0-9_]', src[end:end + 1] or ' '): return 'lexeme name'

def unesc(s): return W.unesc(s)

def judge(src, toks, macros):
    """Yield (key, message). toks: list of (line, col, type, flags, kind, text)."""
    starts = [0] + [i + 1 for i, c in enumerate(src) if c == '\n']
    end = 0; prevhash = None; directive = False; out = []
    for n, (line, col, ty, fl, kind, text) in enumerate(toks):
        if line < 1 or line > len(starts) or col < 1: return [('position', 'token %d %r at line %d column %d' % (n, text, line, col))]
        off = starts[line - 1] + col - 1
        if src[off:off + len(text)] != text:
            return [('slice %s' % kind, 'token %d %r (%s) is not the text at its line %d, column %d: %r' % (n, text, kind, line, col, src[off:off + len(text)]))]
        if off < end:
            if kind == '__unsupported__' and prevhash == off: pass          # an unsupported directive is one token that starts at its '#'
            else: return [('overlap %s' % kind, 'token %d %r overlaps or precedes the one before' % (n, text))]
        else:
            gap = src[end:off]
            if gap.strip(' \t\r\n\v\f') not in ('',) and re.sub(r'\\\r?\n', '', gap).strip():
                return [('gap', 'text %r between tokens belongs to no token (before token %d %r)' % (gap, n, text))]
        end = off + len(text)
        if kind == '#': prevhash = off
        # classes
        if kind == '__new_line__':
            if text not in ('\n', '\r\n'): out.append(('newline text', repr(text)))
            continue
        if kind in ('#', '__macro_content__', '__unsupported__', '__define_param__'): continue
        ctx_pp = (n and toks[n - 1][4] == '#')
        if ctx_pp:
            if text in ('define', 'if', 'ifdef', 'ifndef', 'elif', 'else', 'endif', 'include', 'pragma'):
                if kind != text: out.append(('directive kind %s' % text, 'directive %s has kind %s' % (text, kind)))
                if (text in ('if', 'ifdef', 'ifndef', 'elif', 'else', 'endif')) != bool(fl & FL['PPCOND']): out.append(('directive flag %s' % text, 'conditional flag of %s is %d' % (text, fl)))
            continue
        if n > 1 and toks[n - 1][4] == 'include': continue
        if n > 1 and toks[n - 1][4] == 'define': 
            if kind != '__identifier__': out.append(('define name', '%r after #define has kind %s' % (text, kind)))
            continue
        bad = incomplete(src, off, end, text, kind)
        if bad: out.append((bad, '%r (%s) is not one whole lexeme: followed by %r' % (text[:80], kind, src[end:end + 20])))
        exp = expected(text, macros)
        if kind not in exp: out.append(('kind %s' % (text if len(text) < 14 else kind), '%r has kind %s, expected %s' % (text, kind, sorted(exp))))
        if fl & FL['PP']: continue
        if kind == '__number__' or kind in ('__string__', '__character__'):
            if not fl & FL['LIT']: out.append(('literal flag', '%r is not flagged as a literal (%d)' % (text, fl)))
        if kind in ('__operator__', '*') and text not in ('<=', '>=', '!=') and bool(fl & FL['ASSIGN']) != (text in ASSIGN): out.append(('assign flag %s' % text, '%r flags %d' % (text, fl)))
        if text in ('private', 'protected', 'public') and not fl & FL['ACCSPEC']: out.append(('access flag', '%r flags %d' % (text, fl)))
        if IDRE.match(text) and text not in macros and bool(fl & FL['SPEC']) != (text in SPECKW or (text == 'extern' and kind == 'extern' and bool(fl & FL['SPEC']))): out.append(('specifier flag %s' % text, '%r flags %d' % (text, fl)))
        if text in (';', '}') and not fl & FL['END']: out.append(('end flag %s' % text, '%r flags %d' % (text, fl)))
        if kind == '__identifier__' and fl & (FL['SPEC'] | FL['ACCSPEC'] | FL['END'] | FL['ASSIGN']): out.append(('identifier flags', '%r flags %d' % (text, fl)))
    tail = src[end:]
    if tail.strip(): out.append(('tail', 'text %r after the last token belongs to no token' % tail[:40]))
    return out

LEX = list(KW) + sorted(TYPEKW) + ['forceinline', 'a', 'b1', '_x', 'classy', 'int8', 'publicly', 'consts', 'operators', 'e1', 'x__', 'L', 'u8', '$'[:0] or 'zz', 'A'*40,
    '0', '1', '42', '1.5', '1.5f', '.5', '0x1F', '0xFFull', '1e3', '077', '0b11', '10u', '2.',
    '"s"', '""', '"a b"', '"\\""', '"\\\\"', "'c'", "'\\''", "'\\\\'", '"//"', '"/*"', "'\"'",
    '// c\n', '/* c */', '/* a\n b */', '//\n', '/**/', '/***/', '/*/ a */', '/*//*/', '/* " */', '// \'\n', '"a\\\nb"', '// a \\ b\n',
    '+', '-', '*', '/', '%', '=', '==', '!=', '<', '>', '<=', '>=', '<<', '>>', '<<=', '>>=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '&', '|', '^', '&&', '||', '!', '~', '++', '--', '->', '.', '::', ':', ';', ',', '(', ')', '{', '}', '[', ']', '?', '...']
DIRS = ['#define %s 1\n', '#define %s\n', '#define %s( a, b ) a + b\n', '#define %s( ... ) x( __VA_ARGS__ )\n', '#define %s a \\\n  b \\\n c\n', '#if %s\n', '#ifdef %s\n', '#ifndef %s\n', '#elif %s > 1\n', '#else\n', '#endif\n', '#include <%s.h>\n', '#include "%s"\n', '#pragma %s x\n', '#undef %s\n', '#error %s is bad\n', '#line 3 "%s"\n', '#  define %s 2\n', '# if %s\n', '#define %s "a \\" b" // t\n']

def lexeme_source(rng, n):
    out = []; prev = ''
    bol = True
    for _ in range(n):
        if rng.random() < .06:
            if not bol: out.append(rng.choice(['\n', '\n', '\r\n', ' \n']))
            out.append(rng.choice(['', '', ' ', '\t']))
            d = rng.choice(DIRS); out.append(d.replace('%s', 'M%d' % rng.randrange(10 ** 6)) if '%s' in d else d)
            if rng.random() < .2: out[-1] = out[-1].replace('\n', '\r\n')
            prev = ''; bol = True; continue
        t = rng.choice(LEX)
        w = rng.choice(['', ' ', ' ', '  ', '\t', '\n', '\n\n', '\r\n', ' \n \n', '\n  ', '\f', '\v', '\t\t', ' \t'])
        if w == '' and (gen_cpp.need_space(prev, t) or prev[-1:] in '/*.&|<>=!+-%^:[]~' and prev or t[:1] in '.:/=&[]' or prev == 'extern' or t == '...' or (prev[-1:] in '"\'' and t[:1].isalnum()) or (prev[-1:].isalnum() and t[:1] in '"\'.')): w = ' '
        out.append(w); out.append(t); prev = t; bol = t.endswith('\n') or '\n' in w and False
        if t.endswith('\n'): prev = ''
    return ''.join(out) + rng.choice(['', '\n', ' ', '\r\n'])

def parse_toks(data):
    r = []
    for l in W.dec(data).split('\n'):
        if not l: continue
        line, col, ty, fl, kind, ln, *rest = l.split(' ', 6)
        text = unesc(rest[0] if rest else '')
        if len(text) != int(ln): text = text + '?'   # length and text disagree
        if ty == '0' and ln == '0': continue             # terminators
        r.append((int(line), int(col), int(ty), int(fl), kind, text))
    return r

MT = {0: '__macro_expression__', 1: '__macro_statment__', 2: '__macro_typename__'}
def run(chk):
    chk.rule = 'sources made of random lexemes, directives and white space, and grammar sources in four layouts; every token of every accepted source is judged; non-trivial: distinct source with more than five tokens'
    rng = chk.rng('lex'); b = W.lex_bin()
    cases = []
    n = 30000 if vp.THOROUGH else 4500
    for i in range(n):
        cases.append((dict(kind='lex', src=lexeme_source(rng, rng.choice([1, 2, 3, 6, 12, 30, 80])), opt='l' + rng.choice(['', 'z'])), {}))
    for k, t, s in W.corpus(rng, 120 if vp.THOROUGH else 25): cases.append((dict(kind='lex', src=W.lay(t, s, rng), opt='l'), {}))
    for k, s in W.fixed_cases(): cases.append((dict(kind='lex', src=s, opt='l'), {}))
    # registered macros
    for i in range(n // 10):
        ms = {}; reg = ''
        for j in range(rng.randrange(1, 5)):
            nm = rng.choice(['MAC', 'M_', 'forever', 'Typ', 'X']) + str(rng.randrange(50)); ty = rng.randrange(3)
            if nm in ms: continue
            ms[nm] = MT[ty]; reg += '%d 0 %s\n' % (ty, nm)
        src = lexeme_source(rng, 12); src = ''.join(c for c in src)
        parts = src.split(' ')
        for nm in ms:
            for suf in ('', 'x', '_', '1'): parts.insert(rng.randrange(len(parts) + 1), '\n' + nm + suf + '\n')
        src = ' '.join(parts)
        if re.search(r'#|/\*|"|//|\'', src): continue      # the name must stay a token of its own
        cases.append((dict(kind='lex', src=src, opt='l', macros=reg), ms))
    kinds = {}; acc = 0
    for (c, ms), x in zip(cases, vp.run_cases(b, [c for c, _ in cases])):
        if x.status in ('CRASH', 'HANG'): chk.violation('lex ' + str(x.key), x.err[-1200:], c); continue
        if x.status != 'OK': chk.count('not_accepted'); chk.case(); continue
        acc += 1; toks = parse_toks(x.fields['toks'])
        m = dict(ms)
        for d in re.findall(r'#[ \t]*define[ \t]+(\w+)', c['src']): m.setdefault(d, None)
        for k, d in judge(c['src'], toks, m)[:3]: chk.violation(k, d + '\nsource: %r' % c['src'][:500], dict(case=c, toks=W.dec(x.fields['toks'])))
        chk.count('tokens_judged', len(toks))
        for t in toks: kinds[t[4]] = kinds.get(t[4], 0) + 1
        chk.case(hashlib.md5(c['src'].encode('latin1', 'replace')).hexdigest() if len(toks) > 5 else None)
    chk.cov['accepted'] = acc; chk.cov['kinds'] = kinds
    if acc < len(cases) // 3: chk.violation('acceptance', 'only %d of %d well-formed lexeme sequences were accepted by the lexer' % (acc, len(cases)))
    chk.sample(cases[5][0]['src']); chk.sample(cases[-1][0]['src'][:300])
    chk.finish(min_evals=3000, min_distinct=1500)
if __name__ == '__main__': vp.main(run, 'P03')
