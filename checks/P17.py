#!/usr/bin/env python3
"""P17: enumerators, strings and lookups against the tables; the base generator against the checked-in headers; generated tables."""
import os, sys, zlib, shutil, subprocess, tempfile, binascii; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from concurrent.futures import ThreadPoolExecutor
import vp, workload as W
TABLES = dict(ecode=('ECodeTypes.csv', 'CT_', 'codetype_to_str', None), eop=('EOperator.csv', 'Op_', 'operator_to_str', None), espec=('ESpecifier.csv', 'Spec_', 'spec_to_str', 'str_to_specifier'), etok=('ETokType.csv', 'Tok_', 'toktype_to_str', 'str_to_toktype'))
TYPE = dict(ecode='CodeType', eop='Operator', espec='Specifier', etok='TokType')
HDR = dict(ecode='ecodetypes.hpp', eop='eoperator.hpp', espec='especifier.hpp', etok='etoktype.hpp')
TRAILING = {'Const', 'Final', 'NoExceptions', 'Override', 'Pure', 'Delete', 'Ref', 'RValue', 'Volatile'}
KEYWORDS = dict(Access_Private='private', Access_Protected='protected', Access_Public='public', Class='class', Class_Fwd='class', Enum='enum', Enum_Fwd='enum', Enum_Class='enum class', Enum_Class_Fwd='enum class', Extern_Linkage='extern', Friend='friend', Module='module', Namespace='namespace', Operator='operator', Struct='struct', Struct_Fwd='struct', Template='template', Typedef='typedef', Union='union', Union_Fwd='union', Using='using', Using_Namespace='using namespace')
CODES = ['Body', 'Attributes', 'Comment', 'Constructor', 'Class', 'Define', 'DefineParams', 'Destructor', 'Enum', 'Exec', 'Extern', 'Include', 'Friend', 'Fn', 'Module', 'NS', 'Operator', 'OpCast', 'Params', 'Pragma', 'PreprocessCond', 'Specifiers', 'Struct', 'Template', 'Typename', 'Typedef', 'Union', 'Using', 'Var']
NODEREF = {'Body', 'Class', 'DefineParams', 'Params', 'Specifiers', 'Struct', 'Constructor'}

def read_csv(path):
    """rows of two cells; quoted cells verbatim, others trimmed"""
    rows = []; s = open(path, 'rb').read().decode('latin1').replace('\r\n', '\n'); i = 0
    while i < len(s):
        row = []
        while True:
            while i < len(s) and s[i] in ' \t': i += 1
            if i < len(s) and s[i] == '"':
                i += 1; c = ''
                while i < len(s):
                    if s[i] == '"':
                        if s[i + 1:i + 2] == '"': c += '"'; i += 2; continue
                        i += 1; break
                    c += s[i]; i += 1
                while i < len(s) and s[i] in ' \t': i += 1
            else:
                e = i
                while e < len(s) and s[e] not in ',\n': e += 1
                c = s[i:e].strip(); i = e
            row.append(c)
            if i < len(s) and s[i] == ',': i += 1; continue
            i += 1; break
        if row != ['']: rows.append(tuple(row))
    return rows

def collide(s, target):
    """s plus four bytes, with the checksum target"""
    T = zlib_table(); idx = {t >> 24: i for i, t in enumerate(T)}
    reg = target ^ 0xFFFFFFFF; out = []
    for _ in range(4):
        i = idx[reg >> 24]; out.append(i); reg = ((reg ^ T[i]) << 8) & 0xFFFFFFFF
    cur = zlib.crc32(s) ^ 0xFFFFFFFF; add = b''
    for i in reversed(out):
        b = (cur & 0xFF) ^ i; add += bytes([b]); cur = (cur >> 8) ^ T[i]
    r = s + add
    return r if zlib.crc32(r) == target else None
_T = []
def zlib_table():
    if not _T:
        for n in range(256):
            c = n
            for _ in range(8): c = (c >> 1) ^ 0xEDB88320 if c & 1 else c >> 1
            _T.append(c)
    return _T

def lit(b): return '"' + ''.join('\\%03o' % x for x in b) + '"'

def queries(rng, strings, n):
    qs = set(x.encode('latin1') for x in strings); base = sorted(qs)
    for s in base:
        for t in (s[:-1], s[1:], s + b' ', b' ' + s, s + s, s.upper(), s.lower(), s.swapcase(), s + b'\0', s[:1] + b'_' + s[1:], s + b'x', b'_' + s): qs.add(t)
        for pre in (b'', b'a', b'id_', s[:2]):
            c = collide(pre, zlib.crc32(s))
            if c: qs.add(c)
    for _ in range(n): qs.add(bytes(rng.choice(b'abcdefgh_:=<>&*0 ') for _ in range(rng.randrange(0, 12))))
    return sorted(qs)

class Set:
    """One set of tables and what it should give."""
    def __init__(self, sid, ns, d, style='cpp'):
        self.sid, self.ns, self.d, self.style = sid, ns, d, style
        self.rows = {t: read_csv(os.path.join(d, TABLES[t][0])) for t in TABLES}
        self.attr = read_csv(os.path.join(d, 'AttributeTokens.csv'))
        self.rows['etok'] = self.rows['etok'] + [('Attribute_' + a, b) for a, b in self.attr]
    def probe(self, qs, o):
        for t, (f, pre, to, frm) in TABLES.items():
            for n, s in self.rows[t]: o.append('{ using namespace gen%s; vp_row("%s", "%s", "%s", (long long)%s%s, sizeof(%s), %s(%s%s)); }' % (self.ns, self.sid, t, n, pre, n, 'gen%s::%s' % (self.ns, TYPE[t]), 'gen%s::%s' % (self.ns, to), pre, n))
            if frm:
                for i, q in enumerate(qs[t]): o.append('vp_look("%s", "%s", %d, %s, %d, [](gen::Str s) { return gen%s::%s(s); });' % (self.sid, t, i, lit(q), len(q), self.ns, frm))
            last = dict(ecode='CT_NumTypes', eop='Op_NumOps', espec='Spec_NumSpecifiers', etok='Tok_NumTokens')[t]
            o.append('printf("N\\t%s\\t%s\\t%%lld\\n", (long long)gen%s::%s);' % (self.sid, t, self.ns, last))
        for n, s in self.rows['espec']: o.append('printf("T\\t%s\\t%s\\t%%d\\n", (int)gen%s::spec_is_trailing(gen%s::Spec_%s));' % (self.sid, n, self.ns, self.ns, n))
        for n, s in self.rows['ecode']: o.append('{ gen::Str k = gen%s::codetype_to_keyword_str(gen%s::CT_%s); printf("K\\t%s\\t%s\\t"); vp_bytes(k.Ptr, k.Len); printf("\\n"); }' % (self.ns, self.ns, n, self.sid, n))
        if self.style == 'cpp':
            for t in TABLES:
                n = self.rows[t][-1][0]; o.append('{ gen::Str a = gen%s::%s(gen%s::%s%s); (void)a; }' % (self.ns, TABLES[t][2], self.ns, TABLES[t][1], n))
    def judge(self, chk, lines, qs):
        what = self.sid; got = dict(R={}, L={}, N={}, T={}, K={}, D=[])
        for l in lines:
            if len(l) < 2 or l[1] != self.sid: continue
            if l[0] == 'R': got['R'][l[2], l[3]] = l[4:]
            elif l[0] == 'L': got['L'][l[2], int(l[3])] = int(l[4])
            elif l[0] == 'D': got['D'].append((l[2], l[3]))
            elif l[0] == 'N': got['N'][l[2]] = int(l[3])
            else: got[l[0]][l[2]] = l[3]
        def hexs(s): return binascii.hexlify(s.encode('latin1')).decode() or '.'
        for t, (f, pre, to, frm) in TABLES.items():
            rows = self.rows[t]; strs = [r[1].encode('latin1') for r in rows]; names = [r[0] for r in rows]
            for i, (n, s) in enumerate(rows):
                g = got['R'].get((t, n))
                text = n if t == 'ecode' else s
                if not g: chk.violation('missing', '%s: no row for %s%s' % (what, pre, n)); continue
                if int(g[0]) != i: chk.violation(t + ': order', '%s: %s%s is %s, row %d of the table' % (what, pre, n, g[0], i))
                if int(g[1]) != 4: chk.violation(t + ': size', '%s: %s has %s bytes' % (what, TYPE[t], g[1]))
                if g[2] != hexs(text): chk.violation(t + ': string', '%s: the string of %s%s is %s, the table has %r' % (what, pre, n, g[2], text))
                chk.case((what, t, n)); chk.count('enumerators')
            if got['N'].get(t) != len(rows): chk.violation(t + ': count', '%s: %s entries counted, the table has %d' % (what, got['N'].get(t), len(rows)))
            if not frm: continue
            for i, q in enumerate(qs[t]):
                v = got['L'].get((t, i)); owners = [k for k, s in enumerate(strs) if s == q]
                if v is None: chk.violation('missing', '%s: lookup %r' % (what, q)); continue
                chk.case((what, t, q)); chk.count('lookups of known strings' if owners else 'lookups of unknown strings')
                if owners and v not in owners: chk.violation(t + ': lookup', '%s: %r is looked up as %s, its row is %s' % (what, q, v, owners))
                if not owners and v != names.index('Invalid'): chk.violation(t + ': unknown string', '%s: %r (checksum %08x) is looked up as %s%s' % (what, q, zlib.crc32(q), pre, names[v] if 0 <= v < len(names) else v))
        for n, s in self.rows['espec']:
            if got['T'].get(n) != str(int(n in TRAILING)): chk.violation('espec: trailing', '%s: Spec_%s is trailing: %s' % (what, n, got['T'].get(n)))
        for n, s in self.rows['ecode']:
            if got['K'].get(n) != hexs(s): chk.violation('ecode: keyword', '%s: the keyword of CT_%s is %s, the table has %r' % (what, n, got['K'].get(n), s))
        if got['D'] and [(int(a), b) for a, b in got['D']] != [(len(self.rows['etok']) - len(self.attr) + i, hexs(b)) for i, (a, b) in enumerate(self.attr)]: chk.violation('attribute tokens', '%s: the list of attribute tokens is %s' % (what, got['D'][:5]))
        if not got['D']: chk.violation('attribute tokens', '%s: there is no list of attribute tokens' % what)

ATTRS = '#undef Entry\n#define Entry(t, s) { gen::Str x = { s, sizeof(s) - 1 }; printf("D\\t%s\\t%%lld\\t", (long long)t); vp_bytes(x.Ptr, x.Len); printf("\\n"); }\n'
def inlines(o):
    """conversions between code and its kinds (generated accessors)"""
    for c in CODES:
        t = 'Code' + c
        o.append('{ Code c = make_code(); c->Type = CT_Untyped; %s t = (%s)c; CHK(rcast(AST*, t.ast) == c.ast, "%s: from code"); Code b = t; CHK(b.ast == c.ast, "%s: to code"); CHK((bool)t, "%s: valid is true");' % (t, t, c, c, c))
        o.append('  %s z = { nullptr }; CHK(!(bool)z, "%s: null is false"); z = c; CHK(rcast(AST*, z.ast) == c.ast, "%s: assigned"); z = Code{ nullptr }; CHK(z.ast == nullptr, "%s: null assigned"); %s zz = (%s)Code{ nullptr }; CHK(zz.ast == nullptr, "%s: null converted");' % (t, c, c, c, t, t, c))
        if c not in NODEREF: o.append('  CHK((void*)t.operator->() == (void*)c.ast, "%s: members");' % c)
        o.append('  }')
    o.append('{ Code c = make_code(), d = { nullptr }; c->Type = CT_Untyped; CHK((bool)c && !(bool)d, "code: validity"); d = c; CHK(d.ast == c.ast, "code: assigned"); }')

def base_probe(chk, base, tag, qs, st):
    o = []; st.probe(qs, o); inl = []; inlines(inl)
    src = '#include "gen.cpp"\n#include "%s/enum_probe.h"\nusing namespace gen;\n#undef CHK\n#define CHK(x, w) do { printf("I\\t%%d\\t%%s\\n", (int)!!(x), w); fflush(stdout); } while (0)\n' % vp.HARNESS + ATTRS % st.sid
    parts = [o[i:i + 400] for i in range(0, len(o), 400)]
    for i, p in enumerate(parts): src += 'static void f%d() {\n%s\n}\n' % (i, '\n'.join(p))
    src += 'static void attrs() { GEN_DEFINE_ATTRIBUTE_TOKENS }\nstatic void inl() {\n%s\n}\nint main() { Context x = {}; init(&x); %s attrs(); inl(); deinit(&x); printf("END\\n"); }\n' % ('\n'.join(inl), ' '.join('f%d();' % i for i in range(len(parts))))
    return compile_run(chk, src, base, tag)

def compile_run(chk, src, base, tag):
    d = tempfile.mkdtemp(prefix='vp17', dir=vp.BUILD)
    try:
        f = os.path.join(d, tag + '.cpp'); open(f, 'w', encoding='latin1').write(src); b = os.path.join(d, tag)
        cmd = [vp.CLANG] + vp.BASE_FLAGS + vp.SAN['asan'] + ['-O0', '-include', os.path.join(vp.HARNESS, 'prelude.h'), '-DGEN_TIME', '-DGEN_BUILD_DEBUG=1', '-I', os.path.dirname(base), '-I', base, f, '-o', b, '-lm']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return None, p.stdout.decode('latin1')[:3000]
        p = subprocess.run([b], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vp.san_env(), timeout=300, cwd=d)
        lines = [l.split('\t') for l in p.stdout.decode('latin1').split('\n')]
        return lines, None if ['END'] in lines and not p.returncode else 'exit %d\n%s' % (p.returncode, p.stderr.decode('latin1')[-3000:])
    finally: shutil.rmtree(d, ignore_errors=True)

def regenerate(d):
    """the base generator run in a copy of base/; returns the directory of the copy"""
    base = os.path.join(d, 'base'); shutil.copytree(os.path.join(vp.REPO, 'base'), base, ignore=shutil.ignore_patterns('build'))
    os.makedirs(os.path.join(base, 'build'), exist_ok=True); os.makedirs(os.path.join(d, 'scripts'), exist_ok=True)
    try: shutil.copy(os.path.join(vp.REPO, 'scripts', '.clang-format'), os.path.join(d, 'scripts'))
    except OSError: pass
    gen = os.path.join(base, 'components', 'gen'); olds = sorted(os.listdir(gen))
    for f in olds: os.remove(os.path.join(gen, f))
    b = vp.build('basegen', os.path.join(vp.REPO, 'base', 'base.cpp'), ['GEN_BUILD_DEBUG=1'])
    env = vp.san_env()
    if not shutil.which('clang-format'):
        bin = os.path.join(d, 'bin'); os.makedirs(bin); open(os.path.join(bin, 'clang-format'), 'w').write('#!/bin/sh\nexit 0\n'); os.chmod(os.path.join(bin, 'clang-format'), 0o755); env['PATH'] = bin + ':' + env['PATH']
    p = subprocess.run([b], cwd=base, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return base, olds, p

NAMECH = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
def rand_cell(rng):
    r = rng.random()
    if r < .35: return ''.join(rng.choice(NAMECH) for _ in range(rng.randrange(1, 14)))
    if r < .6: return rng.choice(['+', '-', '*', '/', '<', '<<=', '>', '->*', '::', ',', '()', '[]', '{', '}', '&&', '...', '=', ';', "'", '#', '%', '%d', '%s%n', '= 0', '/*', '//', '*/', '<entries>', '<num>', '{ 0 }', '@', '$', '(', ']', '', 'a, b', ' lead', 'trail ', '  ', '12', '0x1f', '-3.5', '1e5', 'true', '\xe9\xa8\x80', 'txt(', 'return', 'GEN_API', 'Tok_X'])
    if r < .95: return ''.join(rng.choice('abcxyz _-+<>%,;:(){}[]#\'/*.=!?|&~^\xfc') for _ in range(rng.randrange(0, 30)))
    return ''.join(rng.choice(NAMECH) for _ in range(rng.randrange(200, 900)))
def rand_name(rng, used):
    while True:
        n = rng.choice(['', 'E', 'X_', 'Add']) + ''.join(rng.choice(NAMECH) for _ in range(rng.randrange(1, 12 if rng.random() < .95 else 120)))
        if n[0].isdigit(): n = '_' + n
        if n not in used: used.add(n); return n
def rand_table(rng, path, must, num):
    used = set(must) | {'NumTypes', 'UnderlyingType', 'NumOps', 'NumSpecifiers', 'NumTokens', 'Invalid'}
    names = list(must) + [rand_name(rng, used) for _ in range(num)]; rng.shuffle(names)
    if rng.random() < .8 and 'Invalid' in names: names.remove('Invalid'); names.insert(0, 'Invalid')
    nl = rng.choice(['\n', '\n', '\r\n']); out = ''; seen = set()
    for n in names:
        c = rand_cell(rng)
        plain = c and c == c.strip() and not any(x in c for x in '",\n')
        out += rng.choice(['', '', '', ' ', '\t']) + (n if rng.random() < .9 else '"%s"' % n) + rng.choice(['', '', ' ']) + ',' + rng.choice(['', ' ', '   ', '\t']) + (c if plain and rng.random() < .5 else '"%s"' % c) + rng.choice(['', '', ' ']) + nl
        if rng.random() < .05: out += rng.choice(['', '  ']) + nl
    if rng.random() < .2: out = out.rstrip('\r\n')
    open(path, 'wb').write(out.encode('latin1'))
def rand_tables(rng, d):
    big = rng.random() < .15; n = lambda a, b: rng.randrange(a, b * 6 if big else b)
    os.makedirs(d)
    rand_table(rng, os.path.join(d, 'ECodeTypes.csv'), ['Invalid'], n(0, 40)); rand_table(rng, os.path.join(d, 'EOperator.csv'), ['Invalid'], n(0, 30))
    rand_table(rng, os.path.join(d, 'ESpecifier.csv'), ['Invalid'] + sorted(TRAILING), n(0, 30)); rand_table(rng, os.path.join(d, 'ETokType.csv'), ['Invalid'], n(0, 60))
    rand_table(rng, os.path.join(d, 'AttributeTokens.csv'), [], n(1, 8))

def run(chk):
    chk.rule = 'one case is an enumerator of a table (value, size, string) or a string looked up (known, near miss, or with the checksum of a known one); tables are the checked-in ones, in the checked-in and in the regenerated headers, and random ones in both styles of the generator'
    rng = chk.rng('t'); os.makedirs(vp.BUILD, exist_ok=True); top = tempfile.mkdtemp(prefix='vp17d', dir=vp.BUILD)
    try:
        real = os.path.join(vp.REPO, 'base', 'enums'); st = Set('tree', '', real); st2 = Set('regenerated', '', real)
        qs = {t: queries(rng, [s for n, s in st.rows[t]], 4000 if vp.THOROUGH else 400) for t in ('espec', 'etok')}
        kw = dict(st.rows['ecode'])
        for k, v in KEYWORDS.items():
            if kw.get(k) != v: chk.violation('ecode: keyword', 'the table has %r for %s' % (kw.get(k), k))
        per, nb = (16, 24) if vp.THOROUGH else (12, 3); dirs = []
        for i in range(per * nb): dirs.append(os.path.join(top, 't%d' % i)); rand_tables(rng, dirs[-1])
        def do_tree(): return base_probe(chk, os.path.join(vp.REPO, 'base'), 'tree', qs, st)
        def do_regen():
            base, olds, p = regenerate(top); gen = os.path.join(base, 'components', 'gen'); news = sorted(os.listdir(gen))
            if p.returncode: chk.violation('base generator', 'ended with %s\n%s' % (p.returncode, p.stdout.decode('latin1')[-2000:])); return None
            if news != olds: chk.violation('base generator', 'wrote %s, checked in are %s' % (news, olds)); return None
            return base, base_probe(chk, base, 'regenerated', qs, st2)
        def do_rand():
            b = vp.build('enumgen', 'enum_gen.cpp', ['GEN_BUILD_DEBUG=1'])
            ok = {}
            def one(ds):
                p = subprocess.run([b] + ds, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vp.san_env(), timeout=300, cwd=top)
                n = p.stdout.decode('latin1').count('done '); return n, p
            parts = [dirs[i:i + per] for i in range(0, len(dirs), per)]
            with ThreadPoolExecutor(4) as ex: res = list(ex.map(one, parts))
            good = []
            for ds, (n, p) in zip(parts, res):
                good += [ds[:n]]
                if n < len(ds):
                    t = {f: open(os.path.join(ds[n], f), 'rb').read().decode('latin1')[:3000] for f in os.listdir(ds[n]) if f.endswith('.csv')}
                    chk.violation('generator: ' + (vp.san_key(p.stderr.decode('latin1'))), 'tables %s\n%s' % (t, (p.stdout + p.stderr).decode('latin1')[-2500:]), t)
            return good
        def do_probe(ds):
            sets = []; src = '#include "gen.cpp"\n#include "%s/enum_probe.h"\n#undef enum_underlying\n#define enum_underlying(t) : t\n' % vp.HARNESS + ''.join('#define %s vp_%s\n' % (x, x) for x in ('codetype_to_str', 'codetype_to_keyword_str', 'operator_to_str', 'spec_to_str', 'spec_is_trailing', 'str_to_specifier', 'toktype_to_str', 'str_to_toktype')); calls = []; srng = chk.rng(os.path.basename(ds[0]))
            for d in ds:
                for style in ('cpp', 'c'):
                    sid = os.path.basename(d) + style; s = Set(sid, '::' + sid, d, style); q = {t: queries(srng, srng.sample([x for n, x in s.rows[t]], min(12, len(s.rows[t]))), 20) for t in ('espec', 'etok')}
                    o = []; s.probe(q, o); sets.append((s, q)); src += '#undef GEN_DEFINE_ATTRIBUTE_TOKENS\n'
                    for t in TABLES: src += 'namespace gen { namespace %s {\n%s\n} }\n' % (sid, open(os.path.join(d, style + '.' + t), 'rb').read().decode('latin1'))
                    src += ATTRS % sid + 'static void %s() {\nusing namespace gen::%s; using gen::%s::TokType;\n%s\n{ using namespace gen::%s;\n#define ATTRS_NOW GEN_DEFINE_ATTRIBUTE_TOKENS\nATTRS_NOW\n#undef ATTRS_NOW\n}\n}\n' % (sid, sid, sid, '\n'.join(o), sid)
                    calls.append(sid + '();')
            src += 'int main() { %s printf("END\\n"); }\n' % ' '.join(calls)
            return sets, compile_run(chk, src, os.path.join(vp.REPO, 'base'), 'rand')
        with ThreadPoolExecutor(8) as ex:
            f1, f2, f3 = ex.submit(do_tree), ex.submit(do_regen), ex.submit(do_rand)
            for tag, s, r in (('checked-in headers', st, f1.result()), ('regenerated headers', st2, (f2.result() or (None, None))[1])):
                if r is None: continue
                lines, err = r
                if err is not None and lines is None and s is st: raise vp.HarnessError('probe: ' + err)
                if lines is None: chk.violation('regenerated: does not compile', err); continue
                if err: chk.violation(s.sid + ': ' + vp.san_key(err), tag + ': ' + err); continue
                s.judge(chk, lines, qs)
                for l in lines:
                    if l[0] == 'I':
                        chk.case((s.sid, l[2])); chk.count('conversions between code and its kinds')
                        if l[1] != '1': chk.violation('conversion: ' + l[2].split(': ')[1], '%s: %s' % (tag, l[2]))
            good = [g for g in f3.result() if g]
            for (sets, (lines, err)) in ex.map(do_probe, good):
                if lines is None: chk.violation('random tables: does not compile', err + '\n' + ' '.join(s.d for s, q in sets)); continue
                if err: chk.violation('random tables: ' + vp.san_key(err), err); continue
                for s, q in sets: s.judge(chk, lines, q); chk.count('sets of random tables')
            if f2.result() and f2.result()[0]:
                base = f2.result()[0]; progs = [p for p in open(os.path.join(vp.VERIF, 'lib', 'programs.txt'), encoding='latin1').read().split('%%') if p.strip()]
                cases = [dict(kind='global_body', src=p) for p in progs]
                def drv(rb): return vp.build('parse-regen', 'parse_drv.cpp', ['GEN_BUILD_DEBUG=1'], repo_inc=False, inc=[os.path.dirname(rb), rb], deps=[os.path.join(rb, 'components')])
                a = vp.run_cases(W.parse_bin(), cases); b2 = drv(base); b = vp.run_cases(b2, cases); os.remove(b2)
                for c, x, y in zip(cases, a, b):
                    chk.case(('parse', c['src'])); chk.count('programs parsed with the regenerated headers')
                    if (x.status, x.fields.get('text')) != (y.status, y.fields.get('text')): chk.violation('regenerated: parses differently', '%s/%s\n%s' % (x.status, y.status, c['src'][:1500]), c)
        chk.sample('random table: ' + open(os.path.join(dirs[0], 'ETokType.csv'), 'rb').read().decode('latin1')[:400])
    finally: shutil.rmtree(top, ignore_errors=True)
    chk.finish(min_evals=4000, min_distinct=3000)
vp.main(run, 'P17')
