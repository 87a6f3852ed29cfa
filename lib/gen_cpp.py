"""Grammar-based generator of C++ sources in the subset gencpp's parser supports, already in the spelling the library
emits (qualifiers after the type, explicit access on bases).  Everything is a list of tokens; lay() turns tokens into
text.  Directives and line comments are atomic tokens that end their line."""
import re

KEYW = set("""alignas alignof asm auto bool break case catch char class concept const consteval constexpr constinit continue
decltype default define delete do double else endif enum explicit export extern false final float for friend goto if
import include inline int ifdef ifndef elif error warning line undef long module mutable namespace new noexcept null nullptr operator override pragma
private protected public register requires restrict return short signed sizeof static static_assert struct switch template this
thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while local_persist internal global
NULL preprocess""".split())

class NL(str):
    """Mandatory end of line."""
    __slots__ = ()
EOL = NL('\n')
class Glue(str):
    """Tokens that must follow on the same line (an inline comment)."""
    __slots__ = ()

def is_dir(t): return t.startswith('#') and len(t) > 1 and t[1:2] != '#'

class G:
    def __init__(self, rng, macros=False, comments=True, directives=True, depth=3, blocks=True):
        self.r = rng; self.n = 0; self.comments = comments; self.directives = directives; self.maxd = depth
        self.noext = False; self.used = set(); self.names = set(); self.prods = set(); self.blocks = blocks; self.dense = False; self.seen = set()
    # ---- lexical
    def p(self, x):
        """A dense round makes the rare optional parts meet each other."""
        return self.r.random() < (max(x, .4) if self.dense and x < .4 else x)
    def q(self, x): return self.r.random() < x
    def pick(self, xs): return xs[self.r.randrange(len(xs))]
    def mark(self, x): self.prods.add(x)
    def name(self, pre=None):
        self.n += 1
        base = pre or self.pick(['a', 'b', 'foo', 'Bar', 'x', 'Vec', 'node', 'item', 'm_val', 'Cls', 'T_', '_q', 'classy', 'int_x', 'struct_', 'operatorx', 'ifx', 'define_', 'publicly', 'consta', 'enumerate', 'using1', 'do_it', 'forx', 'longer_name_than_usual_to_cross_some_buffer_boundary'])
        return '%s%d' % (base, self.n)
    def num(self):
        return self.pick(['0', '1', '2', '42', '0x1F', '1.5f', '3.25', '10u', '100ul', '0b101', '1e3', '077', '0xFFFFFFFFu', '2.f', '1ll'])
    def string(self):
        return self.pick(['"abc"', '""', '"a b  c"', '"q\\"q"', '"// no"', '"/* no */"', '"{ ( ["', '"a,b;c"', '"\\\\"', '"tab\\t"', '"#x"'])
    def char(self): return self.pick(["'a'", "'\\''", "'\\\\'", "'\"'", "'{'", "';'", "'\\n'"])
    def atom(self):
        k = self.r.randrange(8)
        if k < 3: return [self.num()]
        if k < 5: return [self.name()]
        if k == 5: return [self.string()]
        if k == 6: return [self.char()]
        return [self.pick(['true', 'false', 'nullptr'])]
    def expr(self, d=2, commas=True):
        """Token soup with balanced brackets."""
        k = self.r.randrange(12)
        if d <= 0 or k < 4: return self.atom()
        if k < 7: return self.expr(d - 1, commas) + [self.pick(['+', '-', '*', '/', '%', '&', '|', '^', '&&', '||', '==', '!=', '<=', '>=', '<<'])] + self.expr(d - 1, commas)
        if k == 7: return ['('] + self.expr(d - 1) + [')']
        if k == 8: return [self.name(), '('] + ([] if self.p(.3) else self.expr(d - 1) + ([',' ] + self.expr(d - 1) if commas and self.p(.4) else [])) + [')']
        if k == 9: return [self.name(), '['] + self.expr(d - 1) + [']']
        if k == 10: return [self.pick(['!', '~', '-', '&', '*'])] + self.atom()
        return [self.name(), self.pick(['.', '->', '::'])] + [self.name()]
    # ---- types
    BUILT = [['int'], ['char'], ['void'], ['float'], ['double'], ['bool'], ['unsigned', 'int'], ['unsigned'], ['long', 'long'], ['unsigned', 'char'], ['short'], ['signed', 'char'], ['unsigned', 'long', 'long'], ['long'], ['auto']]
    def base(self, d=2, void=False):
        k = self.r.randrange(10)
        if k < 5:
            b = list(self.pick(self.BUILT))
            if b[0] in ('void', 'auto') and not void: b = ['int']
            return b
        if k < 7 or d <= 0: return [self.name('T')]
        if k == 7: self.mark('type:qualified'); return [self.name('ns'), '::', self.name('T')]
        if k == 8:
            self.mark('type:template')
            a = [self.name('Tm'), '<'] + self.targ(d - 1)
            while self.p(.35): a += [','] + self.targ(d - 1)
            return a + ['>']
        self.mark('type:template-qualified')
        return [self.name('Tm'), '<'] + self.targ(d - 1) + ['>', '::', self.name('U')]
    def targ(self, d):
        return [self.num()] if self.p(.2) else self.type(d, ref=False)
    def type(self, d=2, ref=True, void=False, ptr=True):
        t = self.base(d, void)
        only_void = t == ['void']
        if only_void and void != 'ok': t += ['*']
        if self.p(.2) and not only_void and t[-1] != '*': t += self.pick([['const']] * 6 + [['volatile'], ['const', 'volatile']]); self.mark('type:const' if t[-1] == 'const' else 'type:volatile')
        if ptr:
            while self.p(.25) and t.count('*') < 4:
                t += ['*']
                if self.p(.2): t += self.pick([['const']] * 6 + [['volatile'], ['const', 'volatile']]); self.mark('type:const-pointer')
            if ref and self.p(.15) and 'void' not in t[-1:]: t += ['&']; self.mark('type:ref')
            elif ref and self.p(.05): t += ['&&']; self.mark('type:rref')
        return t
    def ret(self):
        if self.p(.35): return ['void']
        return self.type(2, void='ok') if self.p(.9) else ['auto']
    # ---- comments / directives between declarations
    def comment(self):
        self.mark('comment')
        k = self.r.randrange(5)
        w = self.pick(['note', 'two words', 'a; b { } (', '"quote', 'x = 1;', "it's", 'class struct #if'])
        if k < 3: return ['// ' + w, EOL]
        if k == 3: return ['/* ' + w + ' */', EOL]
        return ['/* ' + w + '\n   second line */', EOL]
    def cond(self):
        return self.pick(['1', '0', 'defined( %s )' % self.name('M'), '%s > 2' % self.name('M'), '! defined( %s )' % self.name('M'), '( %s == 3 )' % self.name('M')])
    def directive(self):
        k = self.r.randrange(11)
        kinds = ['include<>', 'include""', 'define-value', 'define-empty', 'define-fn', 'define-cont', 'pragma', 'undef', 'define-expr', 'define-variadic', 'define-named-variadic']
        self.mark('directive:' + kinds[k])
        n = self.name('MAC_').upper()
        t = ['#include <%s.h>' % self.name('hdr'), '#include "dir/%s.hpp"' % self.name('hdr'), '#define %s %s' % (n, self.num()),
             '#define %s' % n, '#define %s( a, b ) ( a + b )' % n, '#define %s( a ) do_it( a );\\\n\tother( a )' % n,
             '#pragma ' + self.pick(['once', 'pack(push, 1)', 'region name here']), '#undef %s' % n, '#define %s ( 1 << %s )' % (n, self.num()), '#define %s( ... ) do_it( __VA_ARGS__ )' % n, '#define %s( a, ... ) do_it( a, __VA_ARGS__ )' % n][k]
        return [EOL, t, EOL]
    def condblock(self, inner):
        self.mark('directive:conditional')
        o = [EOL, self.pick(['#if ' + self.cond(), '#ifdef ' + self.name('M'), '#ifndef ' + self.name('M')]), EOL] + inner()
        if self.p(.3): self.mark('directive:elif'); o += [EOL, '#elif ' + self.cond(), EOL] + inner()
        if self.p(.4): self.mark('directive:else'); o += [EOL, '#else', EOL] + inner()
        return o + [EOL, '#endif', EOL]
    def inl(self, t):
        """Perhaps an inline trailing comment."""
        if self.comments and self.q(.08):
            self.mark('inline-comment'); return t + [Glue('// ' + self.pick(['trailing', 'tail; {', 'x'])), EOL]
        return t
    # ---- declarations
    def attrs(self):
        if self.p(.06):
            self.mark('attributes')
            return self.pick([['__attribute__', '(', '(', 'unused', ')', ')'], ['__declspec', '(', 'dllexport', ')'], ['__attribute__', '(', '(', 'aligned', '(', '8', ')', ')', ')']])
        return []
    def var(self, member=False, top=True):
        self.mark('variable')
        o = self.attrs()
        if member:
            if self.p(.12): o += self.pick([['static'], ['static', 'constexpr'], ['static', 'inline'], ['inline', 'static', 'thread_local']])
            elif self.p(.08): o += ['mutable']
        elif self.p(.25): o += self.pick([['static'], ['extern'], ['inline'], ['global'], ['constinit'], ['static', 'inline'], ['inline', 'constexpr'], ['static', 'constexpr'], ['constexpr'], ['thread_local'], ['static', 'thread_local'], ['extern', 'thread_local']]); self.mark('variable:spec')
        o += self.type()
        ref = o[-1] in ('&', '&&')
        o += [self.name()]
        k = self.r.randrange(10)
        if k < 4: pass
        elif k < 6: o += ['='] + self.expr(); self.mark('variable:init')
        elif k == 6 and not ref:
            o += ['['] + self.expr(1) + [']']; self.mark('variable:array')
            while self.p(.3): o += ['['] + self.expr(1) + [']']; self.mark('variable:multidim')
            if self.p(.3): o += ['=', '{'] + self.elist() + ['}']
        elif k == 7 and member:
            if self.p(.15): o.pop(); self.mark('variable:unnamed-bitfield')
            o += [':', self.pick('12345678')]; self.mark('variable:bitfield')
        elif k == 8: o += ['=', '{'] + self.elist() + ['}']; self.mark('variable:braced')
        elif k == 9 and not ref:
            self.mark('variable:list')
            if self.p(.5): o += ['='] + self.expr(1, False)
            for _ in range(self.r.randrange(1, 4)):
                o += [','] + (['*'] if self.p(.2) else []) + [self.name()]
                if self.p(.3): o += ['='] + self.expr(1, False)
                elif self.p(.2): o += ['[', self.num(), ']']
                elif not member and self.p(.15): o += ['(', self.num(), ')']; self.mark('variable:list-paren-init')
        return self.inl(o + [';'])
    def elist(self):
        n = self.r.randrange(4); o = []
        for i in range(n):
            if i: o += [',']
            o += self.expr(1)
        return o
    def fnptrvar(self):
        self.mark('variable:fnptr')
        if self.p(.2): return self.type(1, ref=False, void='ok') + ['(', '*', self.name(), '[', self.num(), ']', ')', '('] + self.params(defaults=False) + [')', ';']
        if self.p(.2): return ['static'] + self.type(1, ref=False, void='ok') + ['(', '*', self.name(), ')', '('] + self.params(defaults=False) + [')', '=', 'nullptr', ';']
        if self.p(.2): self.mark('variable:elaborated'); return [self.pick(['struct', 'enum', 'union']), self.name('T'), self.name(), ';']
        return self.type(1, ref=False, void='ok') + ['(', '*', self.name(), ')', '('] + self.params(defaults=False) + [')', ';']
    def lambdavar(self):
        self.mark('variable:lambda')
        return ['auto', self.name(), '=', '[', self.pick(['', '=', '&']), ']', '('] + self.params(defaults=False) + [')', '{'] + self.stmts() + ['}', ';']
    def param(self, defaults=True, named=True):
        if self.p(.06):
            self.mark('param:fnptr'); return self.type(1, ref=False, void='ok') + ['(', '*', self.name(), ')', '('] + self.params(defaults=False) + [')']
        o = self.type()
        if o[1:2] == ['::'] and self.p(.3): o = ['typename'] + o; self.mark('param:typename')
        if named: o += [self.name()]
        return o
    def params(self, defaults=True, maxn=4):
        n = self.pick([0, 0, 1, 1, 2, 3, maxn]); o = []
        dflt = False
        for i in range(n):
            if i: o += [',']
            o += self.param(defaults)
            if defaults and (dflt or self.p(.12)) and o[-1] != ')':
                dflt = True; o += ['='] + (self.expr(1, False) if self.p(.8) else self.pick([['(', self.name(), '<', self.num(), ')'], ['(', self.name(), '>', self.num(), ')'], [self.name('Tm'), '<', 'int', ',', self.num(), '>', '(', ')'], [self.name('Tm'), '<', self.name('Tm'), '<', 'int', '>', '>', '::', 'v']])); self.mark('param:default')
        if n and self.p(.06): o += [',', '...']; self.mark('param:varargs')
        return o
    def stmts(self, d=2):
        o = []
        for _ in range(self.pick([0, 1, 1, 2, 3])):
            k = self.r.randrange(9)
            if k < 3: o += self.expr() + [';']
            elif k == 3: o += ['return'] + self.expr() + [';']
            elif k == 4 and d: o += ['if', '('] + self.expr(1) + [')', '{'] + self.stmts(d - 1) + ['}'] + (['else', '{'] + self.stmts(d - 1) + ['}'] if self.p(.4) else [])
            elif k == 5 and d: o += ['for', '(', 'int', 'i', '=', '0', ';', 'i', '<', '3', ';', '++', 'i', ')', '{'] + self.stmts(d - 1) + ['}']
            elif k == 6: o += self.type(1) + [self.name(), '='] + self.expr() + [';']
            elif k == 7 and d: o += ['switch', '('] + self.expr(1) + [')', '{', 'case', self.num(), ':'] + self.stmts(d - 1) + ['break', ';', 'default', ':', 'break', ';', '}']
            elif k == 8 and d: o += ['while', '('] + self.expr(1) + [')', '{'] + self.stmts(d - 1) + ['}']
            else: o += [self.name(), '(', ')', ';']
            if self.comments and self.q(.06): o += ['/* in body */']
        self.mark('statements') if o else None
        return o
    def body(self): return ['{'] + self.stmts() + ['}']
    def fn(self, definition=None, tmpl=False):
        d = self.p(.5) if definition is None else definition
        self.mark('function' if d else 'function-fwd')
        o = self.attrs()
        if self.p(.3): o += self.pick([['static'], ['inline'], ['constexpr'], ['extern'], ['static', 'inline'], ['inline', 'constexpr'], ['consteval'], ['forceinline'], ['static', 'constexpr']]); self.mark('function:spec')
        if not tmpl and self.p(.05): o += ['neverinline']
        o += self.ret() + [self.name(), '('] + self.params(defaults=True) + [')']
        if not d and self.p(.06): self.mark('function:deleted'); return o + ['=', 'delete', ';']
        return o + self.body() if d else self.inl(o + [';'])
    def base_list(self, kind='struct'):
        if self.p(.3):
            self.mark('bases')
            o = [':', self.pick(['public', 'public', 'private', 'protected']), *self.base_t()]
            while self.p(.3):      # further bases carry the access the library spells for them
                self.mark('bases:several')
                o += [','] + (['public'] if kind == 'class' else []) + self.base_t()
            return o
        return []
    def base_t(self):
        return self.pick([[self.name('B')], [self.name('ns'), '::', self.name('B')], [self.name('Tb'), '<'] + self.targ(1) + ['>']])
    def method(self, cname):
        k = self.r.randrange(13)
        suff = lambda: (['const'] if self.p(.3) else []) + ([self.pick(['&', '&&'])] if self.p(.08) and not self.mark('ref-qualifier') else [])
        if k < 3:
            self.mark('method:fwd'); return self.inl(self.attrs() + (self.pick([['static'], ['inline'], ['static', 'inline'], ['static', 'constexpr'], ['constexpr']]) if self.p(.2) else []) + self.ret() + [self.name(), '('] + self.params() + [')', ';'])
        if k < 5:
            self.mark('method:def'); return self.attrs() + (self.pick([['constexpr'], ['inline'], ['forceinline']]) if self.p(.15) else []) + self.ret() + [self.name(), '('] + self.params() + [')'] + suff() + self.body()
        if k == 5:
            self.mark('method:virtual'); return ['virtual'] + self.ret() + [self.name(), '('] + self.params(False) + [')'] + suff() + self.pick([[';'], ['=', '0', ';']])
        if k == 6:
            self.mark('method:override'); return self.ret() + [self.name(), '('] + self.params(False) + [')'] + suff() + [self.pick(['override', 'final'])] + [';']
        if k == 7:
            self.mark('constructor'); o = self.attrs() + (self.pick([['explicit'], ['inline'], ['constexpr'], ['constexpr', 'explicit']]) if self.p(.3) else []) + [cname, '('] + self.params() + [')']
            j = self.r.randrange(4)
            if j == 0: return o + [';']
            if j == 1: self.mark('constructor:init'); return o + [':', self.name(), '('] + self.expr(1) + [')'] + ([',', self.name(), '(', ')'] if self.p(.4) else []) + self.body()
            if j == 2: return o + self.body()
            self.mark('constructor:special'); return [cname, '('] + self.pick([[], [cname, 'const', '&', self.name()], [cname, '&&', self.name()]]) + [')', '=', self.pick(['default', 'delete']), ';']
        if k == 8:
            self.mark('destructor'); v = ['virtual'] if self.p(.4) else []
            return self.attrs() + v + ['~', cname, '(', ')'] + self.pick([[';'], self.body(), ['=', 'default', ';']] + ([['=', '0', ';']] if v else []))
        if k == 9: return self.oper(member=cname)
        if k == 10:
            self.mark('member:template'); return ['template', '<', 'class', self.name('P'), '>'] + self.ret() + [self.name(), '('] + self.params() + [')'] + self.pick([[';'], self.body()])
        if k == 11:
            self.mark('member:using'); return self.using()
        self.mark('member:friend'); return self.pick([['friend', 'class', self.name('F'), ';'], ['friend', 'struct', self.name('F'), ';'], ['friend'] + (['inline'] if self.p(.2) else []) + self.ret() + [self.name(), '('] + self.params(False) + [')'] + self.pick([[';'], self.body()]),
            ['friend'] + (['inline'] if self.p(.2) else []) + ['bool', 'operator', self.pick(['==', '!=', '<', '+', '&&', '->*', '<<', '|']), '(', cname, 'const', '&', self.name(), ',', cname, 'const', '&', self.name(), ')'] + self.pick([[';'], self.body()])])
    def members(self, cname, d, n=None):
        o = []
        for _ in range(self.pick([0, 1, 2, 3, 5]) if n is None else n):
            k = self.r.randrange(20)
            if k < 6: o += self.var(member=True)
            elif k < 12: o += self.method(cname)
            elif k == 12: self.mark('access'); o += [self.pick(['public', 'private', 'protected']), ':']
            elif k == 13 and d > 0: o += self.struct(d - 1)
            elif k == 14: o += self.enum()
            elif k == 15 and d > 0: o += self.union(d - 1, anon=self.p(.5))
            elif k == 16 and self.comments: o += [EOL] + self.comment()
            elif k == 17 and self.directives: o += self.directive() if self.p(.5) else self.condblock(lambda: self.var(member=True))
            elif k == 18: o += self.typedef()
            elif k == 19: o += self.static_assert() if self.p(.4) else self.fnptrvar() if self.p(.5) else self.var(member=True)
            else: o += self.var(member=True)
        return o
    def struct(self, d=None, fwd=None, kind=None):
        d = self.maxd if d is None else d
        k = kind or self.pick(['struct', 'class'])
        n = self.name('S')
        if fwd or (fwd is None and self.p(.15)): self.mark(k + '-fwd'); return self.inl([k] + self.attrs() + [n, ';'])
        self.mark(k)
        o = [k] + self.attrs() + [n]
        if self.p(.06): o += ['final']; self.mark('final')
        return self.inl(o + self.base_list(k) + ['{'] + self.members(n, d) + ['}', ';'])
    def union(self, d=None, anon=False):
        d = self.maxd if d is None else d
        self.mark('union-anon' if anon else 'union')
        o = ['union'] + ([] if anon else self.attrs() + [self.name('U')]) + ['{']
        for _ in range(self.r.randrange(1, 4)):
            if d > 0 and self.p(.2):
                self.mark('struct-anon'); o += ['struct', '{'] + self.type(ref=False) + [self.name(), ';'] + self.type(ref=False) + [self.name(), ';', '}', ';']
            else: o += self.attrs() + self.type(ref=False) + [self.name()] + (['[', self.num(), ']'] if self.p(.2) else []) + [';']
        return o + ['}', ';']
    def enum(self, fwd=None):
        cls = self.p(.4); ty = self.p(.4)
        o = ['enum'] + (['class'] if cls else []) + self.attrs() + [self.name('E')] + ([':'] + self.pick([['int'], ['unsigned', 'int'], [self.name('u')], ['char']]) if ty else [])
        if (ty or cls) and (fwd or (fwd is None and self.p(.2))): self.mark('enum-class-fwd' if cls else 'enum-fwd'); return self.inl(o + [';'])
        self.mark('enum-class' if cls else 'enum')
        if ty: self.mark('enum:type')
        o += ['{']
        n = self.r.randrange(0, 6)
        for i in range(n):
            o += [self.name('V')]
            if self.p(.35): o += ['='] + self.expr(1); self.mark('enumerator:value')
            if i < n - 1 or self.p(.5): o += [',']
            else: continue
            if self.comments and self.p(.1): o += [Glue('// val'), EOL]
            if self.comments and self.p(.06): o += [EOL, '// own line', EOL]
            if self.directives and self.p(.04): o += [EOL, self.pick(['#define %s 1' % self.name('ME'), '#undef %s' % self.name('ME'), '#pragma ' + self.name('p')]), EOL]
            elif self.directives and self.p(.05): self.mark('enumerator:conditional'); o += [EOL, self.pick(['#if ' + self.cond(), '#ifdef ' + self.name('M')]), EOL, self.name('V'), ',', EOL] + ([EOL, '#else', EOL, self.name('V'), ',', EOL] if self.p(.4) else []) + [EOL, '#endif', EOL]
        return self.inl(o + ['}', ';'])
    def typedef(self):
        k = self.r.randrange(12)
        self.mark('typedef:%s' % ['simple', 'struct', 'enum', 'union', 'fnptr', 'array', 'struct-named', 'fn', 'memfnptr', 'struct-tag', 'enum-tag', 'enum-named'][k])
        if k == 0: o = self.type(ref=True) + [self.name()]
        elif k == 1: o = ['struct', '{'] + self.type(ref=False) + [self.name(), ';', '}', self.name()]
        elif k == 2: o = ['enum', '{', self.name('V'), ',', self.name('V'), '=', self.num(), '}', self.name()]
        elif k == 3: o = ['union', '{'] + self.type(ref=False) + [self.name(), ';', '}', self.name()]
        elif k == 4: o = self.ret() + ['(', '*', self.name(), ')', '('] + self.params(False) + [')']
        elif k == 5: o = self.type(ref=False) + [self.name(), '[', self.num(), ']'] + (['[', self.num(), ']'] if self.p(.3) else [])
        elif k == 6: o = ['struct', self.name('S'), self.name()]
        elif k == 7: o = self.ret() + [self.name(), '('] + self.params(False) + [')']
        elif k == 8: o = self.ret() + ['(', self.name('S'), '::', '*', self.name(), ')', '('] + self.params(False) + [')']
        elif k == 9: o = ['struct', self.name('S'), '{'] + self.type(ref=False) + [self.name(), ';', '}', self.name()]
        elif k == 10: o = ['enum', self.name('E'), '{', self.name('V'), ',', self.name('V'), '}', self.name()]
        else: o = ['enum', self.name('E'), self.name()]
        return self.inl(['typedef'] + o + [';'])
    def using(self):
        self.mark('using')
        if self.p(.1): self.mark('using:array'); return self.inl(['using', self.name(), '='] + self.type(1, ref=False) + ['[', self.num(), ']', ';'])
        if self.p(.1): self.mark('using:fnptr'); return self.inl(['using', self.name(), '='] + self.ret() + ['(', '*', ')', '('] + self.params(False) + [')', ';'])
        if self.p(.2):
            self.mark('using:fn')
            return self.inl(['using', self.name(), '='] + self.ret() + ['('] + self.params(False) + [')', ';'])
        return self.inl(['using', self.name()] + self.attrs() + ['='] + self.type() + [';'])
    def using_ns(self):
        self.mark('using-namespace'); return self.inl(['using', 'namespace', self.name('ns'), ';'])
    def static_assert(self):
        self.mark('static_assert'); return ['static_assert', '('] + self.expr() + [',', self.string(), ')', ';']
    BINOPS = ['+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>=', '<<', '>>', '&', '|', '^', '&&', '||', '->*']
    MEMOPS = ['%=', '&=', '|=', '^=', '<<=', '>>=', '->*', ',', '()', '+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>=', '=', '+=', '-=', '*=', '/=', '[]']
    def oper(self, member=None):
        if member and self.p(.3):
            self.mark('operator-cast')
            return self.attrs() + (['explicit'] if self.p(.3) else []) + ['operator'] + self.type(1, ref=False) + ['(', ')'] + (['const'] if self.p(.5) else []) + self.pick([[';'], self.body()])
        if member and self.p(.3):
            self.mark('operator:unary')
            r, ops, ps = self.pick([([member, '&'], ['++'], []), ([member], ['++'], ['int']), ([member], ['~'], []), ([member], ['-'], []), ([member], ['+'], []), ([member, '*'], ['&'], []), ([member, '&'], ['--'], []), ([member], ['--'], ['int']), (['bool'], ['!'], []), ([self.name('T'), '*'], ['->'], []), ([self.name('T'), '&'], ['*'], []),
                (['void', '*'], ['new'], ['int', self.name()]), (['void'], ['delete'], ['void', '*', self.name()]), (['void', '*'], ['new', '[', ']'], ['int', self.name()]), (['void'], ['delete', '[', ']'], ['void', '*', self.name()])])
            return r + ['operator'] + ops + ['('] + ps + [')'] + self.pick([[';'], self.body()])
        op = self.pick(self.MEMOPS if member else self.BINOPS)
        self.mark('operator:' + op)
        opt = ['[', ']'] if op == '[]' else ['(', ')'] if op == '()' else [op]
        r = self.type(1, void=False)
        ps = [self.name('T'), 'const', '&', self.name()]
        if not member: ps = [self.name('T'), self.name(), ','] + ps
        if op == '()': ps = self.params()
        if not member and self.p(.15):
            self.mark('operator:unary-free'); opt = self.pick([['-'], ['+'], ['~'], ['!'], ['++'], ['--']]); t = self.name('T'); ps = [t, '&', self.name()]
            r = ['bool'] if opt == ['!'] else [t] if opt[0] in '-+~' else [t, '&']
            if opt[0] in ('++', '--') and self.p(.5): r = [t]; ps += [',', 'int']; self.mark('operator:postfix-free')
        return (self.attrs() if not member else []) + (self.pick([['inline'], ['static', 'inline'], ['constexpr']]) if not member and self.p(.2) else []) + r + ['operator'] + opt + ['('] + ps + [')'] + (['const'] if member and self.p(.3) and op[-1] != '=' or op in ('==', '!=', '<=', '>=') and self.p(.3) else []) + self.pick([[';'], self.body()])
    def tparams(self):
        o = []
        n = self.r.randrange(1, 4)
        for i in range(n):
            if i: o += [',']
            k = self.r.randrange(5)
            if k < 3: o += [self.pick(['class', 'typename']), self.name('P')]
            elif k == 3: o += ['int', self.name('N')]
            else: o += ['typename', self.name('P')]
            if i == n - 1 and self.p(.15): o += ['='] + ([self.num()] if 'int' in o[-2:] else self.pick([['int'], [self.name('Tm'), '<', 'int', '>'], [self.name('Tm'), '<', self.name('Tm'), '<', 'int', '>', '>']])); self.mark('template:default')
        if self.p(.12): o += [',', 'class', '...', self.name('Ps')]; self.mark('template:variadic')
        return o
    def template(self):
        self.mark('template')
        o = ['template', '<'] + self.tparams() + ['>']
        k = self.r.randrange(6)
        if k < 2: self.mark('template:class'); return o + self.struct(1, fwd=self.p(.2))
        if k < 4: self.mark('template:function'); return o + self.fn(tmpl=True)
        if k == 4: self.mark('template:using'); return o + ['using', self.name(), '='] + self.type() + [';']
        self.mark('template:variable'); return o + self.pick([['constexpr'], ['inline'], []]) + self.type(1, ref=False) + [self.name(), '='] + self.expr(1) + [';']
    def special(self):
        self.mark('template:specialization')
        n = self.name('S')
        k = self.r.randrange(4)
        if k == 0: return ['template', '<', 'class', 'T0', '>', self.pick(['struct', 'class']), n, '<', 'T0', '*', '>', '{'] + self.members(n, 0) + ['}', ';']
        if k == 1: return ['template', '<', '>'] + self.ret() + [self.name(), '<'] + self.type(1, ref=False) + ['>', '('] + self.params(False) + [')'] + self.pick([[';'], self.body()])
        return ['template', '<', '>', self.pick(['struct', 'class']), n, '<'] + self.type(1, ref=False) + ['>', '{'] + self.members(n, 0) + ['}', ';']
    def namespace(self, d):
        self.mark('namespace'); return ['namespace'] + self.pick([[self.name('ns')], [self.name('ns')], [self.name('ns'), '::', self.name('ns')], []]) + ['{'] + self.decls(d - 1, self.pick([0, 1, 2, 3])) + ['}']
    def externc(self, d):
        self.mark('extern-linkage'); self.noext = True
        try: return ['extern', '"C"', '{'] + self.decls(d - 1, self.pick([0, 1, 2])) + ['}']
        finally: self.noext = False
    def export(self, d):
        self.mark('export-block'); self.blocks, old = 'in export', self.blocks
        try: return ['export', '{'] + self.decls(d - 1, self.pick([0, 1, 2])) + ['}', ';']
        finally: self.blocks = old
    def outofclass(self):
        n = self.name('S'); k = self.r.randrange(6)
        if k == 4: self.mark('out-of-class:template'); return ['template', '<', 'class', 'T0', '>'] + (['inline'] if self.p(.2) else []) + self.ret() + [n, '<', 'T0', '>', '::', self.name(), '('] + self.params(False) + [')'] + (['const'] if self.p(.3) else []) + self.body()
        if k == 5: self.mark('out-of-class:ctor-template'); return ['template', '<', 'class', 'T0', '>', n, '<', 'T0', '>', '::', n, '('] + self.params(False) + [')'] + self.body()
        if k == 0: self.mark('out-of-class:method'); return self.ret() + [n, '::', self.name(), '('] + self.params(False) + [')'] + self.body()
        if k == 1: self.mark('out-of-class:ctor'); return (['inline'] if self.p(.2) else []) + [n, '::', n, '('] + self.params(False) + [')'] + ([':', self.name(), '('] + self.expr(1) + [')'] if self.p(.3) else []) + self.body()
        if k == 2: self.mark('out-of-class:dtor'); return (['inline'] if self.p(.2) else []) + [n, '::', '~', n, '(', ')'] + self.body()
        self.mark('out-of-class:cast'); return [n, '::', 'operator'] + self.type(1, ref=False) + ['(', ')'] + (['const'] if self.p(.5) else []) + self.body()
    def inplace_var(self):
        self.mark('variable:inplace'); return ['struct', self.name('S'), '{'] + self.type(ref=False) + [self.name(), ';', '}', self.name()] + ([',', self.name()] if self.p(.3) else []) + [';'] if self.p(.5) else ['enum', self.name('E'), '{', self.name('V'), '}', self.name(), ';']
    def decl(self, d):
        k = self.r.randrange(35)
        if k < 5: return self.var()
        if k < 11: return self.fn()
        if k < 15: return self.struct(d)
        if k < 17: return self.enum()
        if k == 17: return self.union(d)
        if k == 18 and d > 0 and self.blocks: return self.namespace(d)
        if k == 19 and d > 0 and self.blocks and not self.noext: return self.externc(d)
        if k == 20: return self.typedef()
        if k == 21: return self.using()
        if k == 22: return self.using_ns()
        if k < 25: return self.template()
        if k == 25: return self.oper()
        if k == 26: return self.outofclass()
        if k == 27 and self.comments: return [EOL] + self.comment()
        if k == 28 and self.directives: return self.directive()
        if k == 29 and self.directives and d > 0: return self.condblock(lambda: self.decls(d - 1, self.pick([0, 1, 2])))
        if k == 30: return self.static_assert()
        if k == 31: return self.fnptrvar()
        if k == 32: return self.special() if self.p(.5) else self.lambdavar()
        if k == 33: return self.inplace_var()
        if k == 34 and d > 0 and self.blocks and self.blocks != 'in export': return self.export(d)
        return self.var()
    def decls(self, d=None, n=3):
        d = self.maxd if d is None else d
        o = []
        for _ in range(n): o += self.decl(d)
        return o

# single-construct productions and the parse entry points that accept them
def entry_cases(g):
    """(entry point, tokens) pairs, one per construct."""
    return [(k, notail(t) if k in ('class', 'struct', 'enum', 'union', 'template', 'namespace') else t) for k, t in _entry_cases(g)]
def notail(t):
    """Without the comment after the closing brace, which is an entry of its own."""
    while t and (isinstance(t[-1], (Glue, NL))): t = t[:-1]
    return t
def _entry_cases(g):
    n = g.name('S')
    return [('class', g.struct(2, fwd=False, kind='class')), ('struct', g.struct(2, fwd=False, kind='struct')), ('class', g.struct(0, fwd=True, kind='class')),
            ('enum', g.enum(fwd=False)), ('enum', g.enum()), ('union', g.union(1)), ('function', g.fn(True)), ('function', g.fn(False)),
            ('variable', g.var()), ('variable', g.var()), ('typedef', g.typedef()), ('using', g.using()), ('using', g.using_ns()), ('template', g.template()),
            ('operator', g.oper()), ('namespace', g.namespace(2)), ('extern_link', g.externc(2)),
            ('friend', ['friend', 'class', n, ';']), ('constructor', [n, '::', n, '('] + g.params(False) + [')'] + g.body()),
            ('destructor', ['~', n, '(', ')', ';']), ('operator_cast', [n, '::', 'operator'] + g.type(1, ref=False) + ['(', ')', 'const'] + g.body()),
            ('type', g.type()), ('define', ['#define %s( a, b ) ( a * b )' % g.name('MC')]),
            ('struct', ['struct', n, '{'] + g.oper(member=n) + g.oper(member=n) + g.method(n) + g.method(n) + ['}', ';']), ('global_body', g.oper() + g.export(2) + g.enum(fwd=False)),
            ('global_body', g.decls(2, 4))]

ID = re.compile(r'[A-Za-z0-9_$"\'.]')
def need_space(a, b):
    """Must white space separate a and b so that they stay two tokens?"""
    if not a or not b: return False
    if ID.match(a[-1]) and ID.match(b[0]): return True
    if a[-1] in '+-*/%&|^=<>!:.#~,' and b[0] in '+-*/%&|^=<>!:.#~': return True
    if a == '[' and b == '[' or a == ']' and b == ']': return True
    return False

def lay(toks, rng=None, style='space'):
    """Text of the tokens. style: 'space' (one space between tokens, newline after ; { }), 'tight', 'wild', 'lines'."""
    out = []; prev = None; at_bol = True
    for t in toks:
        if isinstance(t, NL):
            if not at_bol: out.append('\n'); at_bol = True
            prev = None; continue
        if t == '': continue
        if is_dir(t) and not at_bol: out.append('\n'); at_bol = True; prev = None
        if isinstance(t, Glue):
            out.append(' ' if style == 'tight' else '  ' if style == 'wild' else ' ')
        elif prev is not None:
            if style == 'tight': out.append(' ' if need_space(prev, t) else '')
            elif style == 'wild':
                w = rng.choice(['', ' ', '  ', '\t', '\n', ' \n\t ', '\r\n', '   ', '\n\n', ' \\\n' if False else ' '])
                if w == '' and need_space(prev, t): w = ' '
                out.append(w)
            elif style == 'lines':
                out.append('\n' if prev in (';', '{', '}') or rng and rng.random() < .2 else ' ')
            else:
                out.append('\n' if prev in (';', '{', '}') and t not in (';', ',', ')') and not (prev == '}' and ID.match(t[0])) else ' ')
        out.append(t); prev = t; at_bol = False
    if out and out[-1] != '\n': out.append('\n')
    return ''.join(out)
