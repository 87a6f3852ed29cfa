// P20: registrations against an exact table, and the tokens of every later use of a name.
#define VP_QUIET
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
struct Reg { int type; int flags; };
static Context ctxs[2]; static std::map<std::string, Reg> tab[2]; static int cur;
static std::vector<std::pair<std::string, std::string>> coll;
static void find_collisions() {
	std::unordered_map<u32, std::string> seen; VpRng g; g.s = 77;
	for (u32 i = 0; i < 400000 && coll.size() < 8; i++) { std::string b = vp_fmt("M%llx", (unsigned long long)(g.next() & 0xFFFFFFFFFF)); u32 h = crc32(b.data(), b.size()); auto& s = seen[h]; if (!s.empty() && s != b) coll.push_back({ s, b }); s = b; }
}
static std::vector<std::string> names;
static const char* tname(int t) { return t == MT_Expression ? "expression" : t == MT_Statement ? "statement" : "typename"; }
// a macro whose name lives in memory that goes away
struct Tmp { char* b; Macro m; Tmp(std::string const& n, Reg r) { b = (char*)::malloc(n.size()); memcpy(b, n.data(), n.size()); memset(&m, 0, sizeof m); m.Name = { b, (ssize)n.size() }; m.Type = (MacroType)r.type; m.Flags = (MacroFlags)r.flags; } void drop() { memset(b, '#', m.Name.Len); ::free(b); } };
static Reg some_reg() { Reg r = { (int)R.below(3), 0 }; if (R.chance(45)) r.flags |= MF_Functional; if (R.chance(15)) r.flags |= MF_Allow_As_Attribute; if (R.chance(15)) r.flags |= MF_Allow_As_Specifier; if (R.chance(10)) r.flags |= MF_Allow_As_Identifier; if (R.chance(10)) r.flags |= MF_Allow_As_Definition; if (R.chance(10)) r.flags |= MF_Expects_Body; return r; }
static std::string const& aname() { return names[R.below(names.size())]; }
static Str view(std::string const& s) { return Str{ s.data(), (ssize)s.size() }; }
static void verify(const char* op) {
	auto& t = tab[cur];
	for (auto& n : names) {
		char* b = (char*)::malloc(n.size()); memcpy(b, n.data(), n.size());
		Macro* m = lookup_macro(Str{ b, (ssize)n.size() }); ::free(b);
		auto i = t.find(n);
		if (i == t.end()) { if (m) VIOL("lookup", "%s was never registered here but is found as %.*s (%s)", n.c_str(), (int)m->Name.Len, m->Name.Ptr, op); COUNT("lookup of an unknown name"); continue; }
		if (!m) VIOL("lookup", "%s is registered but not found (%s)", n.c_str(), op);
		if (std::string(m->Name.Ptr, m->Name.Len) != n) VIOL("lookup", "%s found as %.*s", n.c_str(), (int)m->Name.Len, m->Name.Ptr);
		if (m->Type != i->second.type || m->Flags != i->second.flags) VIOL("lookup", "%s is %d/%d, registered last as %d/%d (%s)", n.c_str(), (int)m->Type, (int)m->Flags, i->second.type, i->second.flags, op);
		COUNT("lookup of a registered name");
	}
}
struct Exp { std::string text; int type; int flags; };
static bool keyword(std::string const& n) { return n == "inline" || n == "forceinline" || n == "typename" || n == "final"; }
static void lex_uses() {
	auto& t = tab[cur]; std::string src; std::vector<Exp> exp; int n = 1 + (int)R.below(10);
	static const char* plain[] = { "zz", "int1", "q_9", "macro", "x" };
	for (int i = 0; i < n; i++) {
		if (R.chance(12)) { // a define met on the way
			std::string m = aname(); int form = (int)R.below(6);
			static const char* tails[] = { "\n", " 3\n", " ( a + 1 )\n", "( a ) ( a )\n", "() 1\n", "(a, b, c) a\n" };
			if (!src.empty() && src.back() != '\n') src += '\n';
			src += R.chance(20) ? "#  define " : "#define "; src += m; src += tails[form];
			HIST("define %s%s", m.c_str(), vp_esc(tails[form]).c_str());
			if (!t.count(m)) { t[m] = { MT_Expression, form >= 3 ? MF_Functional : 0 }; COUNT(form >= 3 ? "defined: functional" : "defined: plain"); } else COUNT("defined: registered before");
			exp.push_back({ "\n", -2, 0 }); continue;
		}
		bool reg = R.chance(80); std::string w; do w = reg ? aname() : plain[R.below(5)]; while (keyword(w));
		bool call = R.chance(50);
		auto it = t.find(w); Exp e = { w, Tok_Identifier, 0 };
		if (it != t.end()) {
			bool fn = it->second.flags & MF_Functional;
			if (fn == call) {
				e.type = it->second.type == MT_Statement ? Tok_Preprocess_Macro_Stmt : it->second.type == MT_Typename ? Tok_Preprocess_Macro_Typename : Tok_Preprocess_Macro_Expr;
				if (call) e.flags |= TF_Macro_Functional; if (it->second.flags & MF_Allow_As_Attribute) e.flags |= TF_Attribute; if (it->second.flags & MF_Allow_As_Specifier) e.flags |= TF_Specifier;
				COUNT(vp_fmt("use as %s%s", tname(it->second.type), call ? "(...)" : "").c_str());
			} else COUNT(call ? "use of a plain macro with parentheses" : "use of a functional macro without parentheses");
		} else COUNT("use of an unregistered name");
		exp.push_back(e); src += w;
		if (call) { src += "("; exp.push_back({ "(", Tok_Paren_Open, -1 }); if (R.chance(60)) { src += " 7 "; exp.push_back({ "7", -1, -1 }); } src += ")"; exp.push_back({ ")", Tok_Paren_Close, -1 }); }
		switch (R.below(5)) { case 0: src += ";"; exp.push_back({ ";", Tok_Statement_End, -1 }); break; case 1: src += ","; exp.push_back({ ",", Tok_Comma, -1 }); break; case 2: src += "\n"; break; default: src += " "; break; }
	}
	HIST("lex %s", vp_esc(src).c_str());
	char* b = (char*)::malloc(src.size()); memcpy(b, src.data(), src.size());
	TokArray ta = lex(Str{ b, (ssize)src.size() });
	if (!ta.Arr) VIOL("lex", "no tokens for %s", vp_esc(src).c_str());
	size_t k = 0; ssize num = array_num(ta.Arr);
	for (ssize i = 0; i < num; i++) {
		Token tk = ta.Arr[i]; if (tk.Type == Tok_NewLine || tk.Type == Tok_Comment) continue;
		if (tk.Type == Tok_Preprocess_Hash) { // to the end of the directive
			if (k >= exp.size() || exp[k].type != -2) VIOL("lex", "a directive out of place in %s", vp_esc(src).c_str());
			k++; while (i + 1 < num && ta.Arr[i + 1].Line == tk.Line) i++; if (i + 1 < num && ta.Arr[i + 1].Type == Tok_Preprocess_Content && ta.Arr[i + 1].Text.Len == 0) i++; continue;
		}
		std::string x(tk.Text.Ptr, tk.Text.Len);
		if (k >= exp.size()) VIOL("lex", "token %s too many in %s", vp_esc(x).c_str(), vp_esc(src).c_str());
		Exp& e = exp[k++];
		if (x != e.text) VIOL("lex", "token %s where %s was written in %s", vp_esc(x).c_str(), vp_esc(e.text).c_str(), vp_esc(src).c_str());
		if (e.type >= 0 && tk.Type != e.type) VIOL("kind", "%s lexed as %.*s, registered for %.*s in %s", x.c_str(), (int)toktype_to_str(tk.Type).Len, toktype_to_str(tk.Type).Ptr, (int)toktype_to_str((TokType)e.type).Len, toktype_to_str((TokType)e.type).Ptr, vp_esc(src).c_str());
		int fl = tk.Flags & (TF_Macro_Functional | TF_Attribute | TF_Specifier);
		if (e.flags >= 0 && fl != e.flags) VIOL("flags", "%s lexed with flags %x, registered for %x in %s", x.c_str(), fl, e.flags, vp_esc(src).c_str());
	}
	if (k != exp.size()) VIOL("lex", "%zu of %zu tokens of %s", k, exp.size(), vp_esc(src).c_str());
	::free(b); COUNT("lexed text");
}
static void vp_round_fn(long r) {
	if (coll.empty()) find_collisions();
	tab[0].clear(); tab[1].clear(); cur = 0; context_counter = 0; _ctx = nullptr;
	bool two = R.chance(25);
	for (int k = 0; k < (two ? 2 : 1); k++) { ctxs[k] = Context{}; ctxs[k].CodePool_NumBlocks = 256; ctxs[k].InitSize_LexerTokens = 64; ctxs[k].InitSize_Fallback_Allocator_Bucket_Size = 1 << 20; init(&ctxs[k]); cur = k; tab[k]["enum_underlying"] = { MT_Expression, MF_Functional }; }
	names = { "enum_underlying", "A", "AB", "ABC", "S_1", "s_1", "UPROPERTY", "UFUNC", "declared", "_", "PURE", "inline", "final" };
	if (R.chance(50)) names.resize(5 + R.below(8));
	for (int i = (int)R.below(4); i > 0; i--) { auto& p = coll[R.below(coll.size())]; names.push_back(p.first); names.push_back(p.second); }
	bool many = r % 20 == 0; if (many) for (int i = 0; i < 400; i++) names.push_back(vp_fmt("N%d", i));
	int n = many ? 600 : (int)R.pick<int>({ 8, 20, 60 });
	for (int i = 0; i < n; i++) {
		auto& t = tab[cur];
		switch (R.below(many ? 8 : 12)) {
			case 0: case 1: case 2: { std::string x = aname(); Reg g = some_reg(); Tmp m(x, g); HIST("register_macro %s %d %d", x.c_str(), g.type, g.flags); register_macro(m.m); m.drop(); COUNT(t.count(x) ? "registered again" : "registered"); t[x] = g; break; }
			case 3: { int c = 1 + (int)R.below(4); std::vector<Tmp> v; for (int k = 0; k < c; k++) { std::string x = aname(); Reg g = some_reg(); v.push_back(Tmp(x, g)); HIST("register_macros %d of %d: %s %d %d", k, c, x.c_str(), g.type, g.flags); t[x] = g; }
				if (c == 1) register_macros(1, v[0].m); else if (c == 2) register_macros(2, v[0].m, v[1].m); else if (c == 3) register_macros(3, v[0].m, v[1].m, v[2].m); else register_macros(4, v[0].m, v[1].m, v[2].m, v[3].m);
				for (auto& m : v) m.drop(); COUNT("register_macros"); break; }
			case 4: { int c = 1 + (int)R.below(6); std::vector<Tmp> v; Macro* a = (Macro*)::malloc(sizeof(Macro) * c); for (int k = 0; k < c; k++) { std::string x = aname(); Reg g = some_reg(); v.push_back(Tmp(x, g)); a[k] = v[k].m; HIST("register_macros_arr %d of %d: %s %d %d", k, c, x.c_str(), g.type, g.flags); t[x] = g; }
				register_macros_arr(c, a); for (auto& m : v) m.drop(); ::free(a); COUNT("register_macros_arr"); break; }
			case 5: { std::string x = aname(); if (keyword(x)) break; Reg g = some_reg(); Opts_def_define o = {}; o.content = R.chance(50) ? Str{ "1", 1 } : Str{ nullptr, 0 }; o.flags = (MacroFlags)g.flags; o.dont_register_to_preprocess_macros = R.chance(30); HIST("def_define %s %d %d%s", x.c_str(), g.type, g.flags, o.dont_register_to_preprocess_macros ? " kept out" : "");
				CodeDefine d = def_define(view(x), (MacroType)g.type, o); if (!d) VIOL("define", "def_define of %s refused", x.c_str()); if (!o.dont_register_to_preprocess_macros) { t[x] = g; COUNT("def_define"); } else COUNT("def_define kept out of the registry"); break; }
			case 6: { std::string x = aname(); if (keyword(x)) break; static const char* forms[] = { "#define %s 1\n", "#define %s\n", "#define %s( a ) a\n", "#define %s (a)\n" }; int f = (int)R.below(4); std::string s = vp_fmt(forms[f], x.c_str()); HIST("parse %s", vp_esc(s).c_str());
				Code c = R.chance(50) ? (Code)parse_define(view(s)) : (Code)parse_global_body(view(s)); if (!c || c == Code_Invalid) VIOL("define", "%s was not parsed", vp_esc(s).c_str()); if (!t.count(x)) t[x] = { MT_Expression, f == 2 ? MF_Functional : 0 }; COUNT("define parsed"); break; }
			case 7: if (two) { cur = !cur; set_context(&ctxs[cur]); HIST("context %d", cur); COUNT("switched context"); } else if (R.chance(10)) { HIST("reset"); reset(&ctxs[cur]); t.clear(); t["enum_underlying"] = { MT_Expression, MF_Functional }; COUNT("reset"); verify("reset"); } break;
			default: lex_uses();
		}
		if (many ? i % 100 == 0 : R.chance(40)) verify("later");
	}
	verify("end"); for (int k = 0; k < 3; k++) lex_uses(); verify("end");
	if (two) { int c = cur; cur = !cur; set_context(&ctxs[cur]); verify("the other context"); (void)c; set_context(&ctxs[1]); deinit(&ctxs[1]); cur = 0; set_context(&ctxs[0]); verify("after the other context ended"); }
	deinit(&ctxs[0]);
}
