"""Sources that use registered macros of every kind, in every position where the library documents them."""
import re
import gen_cpp
from gen_cpp import G, EOL

# kind -> (MacroType, MacroFlags): bit 0 functional, 1 expects a body, 2 identifier, 3 attribute, 4 definition, 5 specifier
KINDS = dict(S0=(1, 0), S1=(1, 1), SB=(1, 3), SBN=(1, 2), E0=(0, 0), E1=(0, 1), T0=(2, 0), T1=(2, 1), A0=(0, 8), A1=(0, 9), P0=(0, 33), D0=(1, 16), D1=(1, 17), DB=(1, 19), I0=(0, 4), I1=(0, 5), IS1=(1, 5))
FORMS = ['%s_MACRO', 'M%s', '%s_', 'My%s', 'int_%s', 'operator%s', 'UE_%s_X', 'class%s', 'x%s', '_%s', 'const%sly', 'if%s', 'public%s']

class GM(G):
    def __init__(self, rng, **k):
        super().__init__(rng, **k); self.regs = {}; self.by = {}; self.notype = 0; self.rate = rng.choice([.05, .12, .3])
    def mname(self, kind):
        have = self.by.setdefault(kind, [])
        if not have or (len(have) < 3 and self.q(.2)):
            while True:
                n = self.pick(FORMS) % (kind + 'abcdefgh'[self.r.randrange(8)])
                if n not in self.regs: break
            have.append(n); self.regs[n] = KINDS[kind]
        self.mark('macro:' + kind)
        return self.pick(have)
    def args(self):
        o = []
        for i in range(self.pick([0, 1, 1, 2, 3])):
            if i: o += [',']
            k = self.r.randrange(6)
            o += [self.pick(['foo', 'EditAnywhere', 'x', 'a_b'])] if k < 2 else [self.string()] if k == 2 else ['(', 'a', ',', '(', ')', ')'] if k == 3 else ['Key', '=', '"v, )"'] if k == 4 else G.expr(self, 1)
        return o
    def call(self, kind): return [self.mname(kind) + '('] + self.args() + [')']
    def ev(self, p=None): return self.q(self.rate if p is None else p)
    def x(self): return [self.mname('E0')] if self.q(.5) else self.call('E1')
    def atom(self): return self.x() if self.ev() else super().atom()
    def base(self, d=2, void=False):
        if self.ev() and not self.notype: return [self.mname('T0')] if self.q(.5) else [self.mname('T1') + '('] + G.base(self, 0) + [')']
        return super().base(d, void)
    def typedef(self):
        self.notype += 1
        try: return super().typedef()
        finally: self.notype -= 1
    def attrs(self):
        if self.ev(): return [self.mname('A0')] if self.q(.5) else self.call('A1')
        return super().attrs()
    def stmt(self):
        k = self.r.randrange(9)
        if k == 0: return [self.mname('S0')]
        if k == 1: return [self.mname('S0'), ';']
        if k in (2, 3): return self.call('S1')
        if k == 4: return self.call('S1') + [';']
        if k == 5: return self.call('SB') + self.body()
        if k == 6: return self.call('SB') + [';']
        if k == 7: return [self.mname('SBN')] + self.body()
        return self.pick([['static'], ['inline'], []]) + self.pick([self.call('D1') + [';'], self.call('DB') + self.body()])
    def var(self, member=False, top=True):
        if self.ev(self.rate * 1.5): return self.stmt()
        o = super().var(member, top)
        return self.stmt() + o if self.ev(self.rate * .7) else o
    def method(self, cname):
        if self.ev(self.rate * .5): return ['virtual'] + self.ret() + [self.name(), '('] + self.params(False) + [')'] + self.pick([['const'], []]) + self.call('P0') + [';']
        o = super().method(cname)
        return self.stmt() + o if self.ev(self.rate * .7) else o
    def fn(self, definition=None, tmpl=False):
        o = super().fn(definition, tmpl)
        return self.stmt() + o if not tmpl and self.ev(self.rate * .7) else o
    def param(self, defaults=True, named=True):
        o = super().param(defaults, named)
        if named and o[-1] != ')':
            if self.ev(self.rate * .5): o = self.x() + o; self.mark('macro:before parameter')
            if self.ev(self.rate * .5): o = o + self.x(); self.mark('macro:after parameter')
        return o
    def stmts(self, d=2):
        o = super().stmts(d)
        return o + self.stmt() if self.ev() else o
    def lines(self): return ''.join('%d %d %s\n' % (t, f, n) for n, (t, f) in self.regs.items())

# every position on its own; N(...) stands for a macro of that kind, @ for arguments
USES = ['int a = E0;', 'int a = E1(@) + E0;', 'int a[E1(@)];', 'struct S { int a : E1(@); };', 'enum E { A = E1(@), B = E0, C };', 'enum E { A E1(@), B E0, C = 3 E1(@) };',
 'void f( E1(@) int a );', 'void f( E0 int a, E0 int b );', 'void f( int a E0 );', 'void f( int a E0, int b );', 'void f( int a E0 = 3, int b E1(@) = 4 );', 'void f( E1(@) int a E0 = 3 , E0 char b);', 'void f() { E1(@); S1(@); E0; S0 }',
 'int f( int a = E1(@) );', 'int f( int a = E0, int b = E1(@) );', 'T0 x;', 'T1(int) x;', 'T1(int) x = 3;', 'T1(int)* x;', 'T0 f();', 'T1(int) f( T1(char) a, T0 b );', 'T1(int) f( T1(char)* a ) { return 0; }',
 'struct S { T0 x; T1(int) y; T1(a) f(); T0 g( T0 a ) { } };', 'union U { T0 x; T1(int) y; };', 'static T1(int) x;', 'extern T0 x;', 'Vec< T1(int) > v;', 'T1(int) a, b;', 'T1(int) a[3];', 'T1(int) const x = 3;', 'T1(int) const* x;',
 'template< class T > T1(T) f( T1(T) a );', 'template< class T > struct S { T1(T) a; };', 'typedef T1(int) X;', 'typedef T0 X;', 'using X = T1(int);', 'using X = T0;', 'using X = T0*;', 'typedef S1(@);', 'typedef S0;', 'typedef S1(@) Y;',
 'A0 int f();', 'A1(@) void g();', 'A0 int x;', 'A0 void f() { }', 'A1(@) int y = 3;', 'class A0 N { };', 'struct A1(@) N { int a; };', 'enum A0 E { A };', 'enum class A0 E { A };', 'union A0 U { int a; };',
 'struct S { A0 int f(); A1(@) int y; A0 void g() { } A0 S(); A0 ~S(); A1(@) S( int a ) : b( a ) { c; } A0 operator int() const; };', 'A0 S::S() { } A1(@) S::~S() { } A0 S::operator int() { }', 'using X A0 = int;', 'A0 static int f();', 'A0 extern int x;', 'namespace n { A0 int f(); }',
 'template< class T > A0 T f();', 'A0 int operator +( S a, S b );', 'struct S { A0 S& operator =( S const& a ); };', 'extern "C" { A0 int f(); A1(@) int g; }', 'struct S { virtual void f() P0( S::f, ); };', 'struct S { virtual int f( int a ) const P0( S::f, return 0; ); };', 'struct S { void f() P0( x ) { } };',
 'D1(foo)', 'static D1(foo);', 'inline DB(foo) { body; }', 'A0 static DB(x) { y; }', 'namespace n { static D1(x); int a; }', 'struct S { static D1(x); int a; };', 'struct S { inline DB(x) { y; } int a; };', 'extern D1(x);', 'neverinline DB(q) { return; }', 'static constexpr D1(a);',
 'int I0;', 'int I0( int a );', 'int I1;', 'int I1( int a );', 'struct I1 { };', 'struct S { int I0; int I1; int I1( int a ); void I0(); };', 'int I1( int a ) { return I1(a); }', 'void IS1( int a );', 'struct S { void IS1( int a ); int IS1; };', 'enum E { I0, I1 };', 'namespace I1 { }', 'int x = I1(@) + I0;',
 'enum E enum_underlying( u32 );', 'enum E enum_underlying(u32) { A, B };', 'enum class E enum_underlying(u32) { A };', 'int S1;', 'int E1 = 3;', 'int T1;', 'struct E1 { int T1; };', 'void E1x( int a );', 'int f( int E1, int T1 );', 'S1 x;', 'T1 x;', 'int S0( int a );', 'int E0( int a );', 'struct S0x { };',
 'S0 int a; S0', 'int a; S1(@) int b;', 'S1(@)', 'S1(@) ;', 'SB(@) { x; { y; } }', 'SB(@);', 'SBN { x }', 'struct S { S0 int a; S1(@); SB(@) { x; } SBN { y; } int b; S0 };', 'union U { S0 int a; S1(@); int b; S1(@) };', 'namespace n { S0 int a; S1(@); SB(@) { x; } }', 'extern "C" { S1(@) int a; S0; }', 'class C { S1(@) public: S0; int a; S1(@); };',
 '#define S1( x ) x\nS1( 3 )\n', '#define SB( x ) void x()\nSB( a ) { b; }\n', '#define E0 3\nint a = E0;', '#define E1 3\n', '#define E0( a ) a\n', '#define T1( x ) x*\nT1( int ) a;', '#define T0\nT0 a;', '#if 1\n#define S1( x )\n#else\n#define S1( x ) x\n#endif\nS1( 2 )']
# the same without registering anything first: the directive does
DEFINED = ['#define M 3\nint a = M;', '#define M( x ) x\nint a = M( 3 );', '#define F() void\nint a = F();', '#define M( x ) x\nint M;', '#define M 3\nvoid M( int a );', '#if 1\n#define X( a ) a\n#else\n#define X\n#endif\nint a = X( 2 ), b = X;', '#define M\nint a = M + 2, c[ M ];',
 '#define M( a, b ) a\nint M, x = M( 1, 2 );\nenum E { A = M( 3, 4 ) };', '#define M 3\nstruct S { int a : M; int b[ M ]; };', '#define M( a ) a\nvoid f( int b = M( 2 ) );']

def use(rng, g, t):
    """One position with names and arguments of its own; g carries the registrations."""
    ren = {}
    def sub(m):
        w = m.group(0)
        if w not in KINDS: return w
        if w not in ren: ren[w] = g.mname(w)
        return ren[w]
    s = re.sub(r'\b[A-Z]+[0-9]?\b', sub, t)
    while '@' in s: s = s.replace('@', gen_cpp.lay(g.args(), rng).strip(), 1)
    return s
