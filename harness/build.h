// Random construction requests: every node is built through the construction functions and described independently as C++ text.
#pragma once
using namespace gen;
typedef std::string S;
struct N { Code c; S t; bool parses = true; };              // a node, the text asked for, and whether the parser takes that text
static S text(Str s) { return S(s.Ptr ? s.Ptr : "", s.Len > 0 ? s.Len : 0); }
static S code_text(Code c) { return text(strbuilder_to_str(code_to_strbuilder(c))); }
// ---- tokens: words, quoted text, comments, single punctuation characters; the end of a directive is a token
static std::vector<S> toks(S const& s) {
	std::vector<S> r; size_t i = 0, n = s.size(); bool dir = false, bol = true;
	while (i < n) {
		char c = s[i];
		if (c == '\\' && i + 1 < n && s[i + 1] == '\n') { i += 2; continue; }
		if (c == '\n') { if (dir) { r.push_back("<eol>"); dir = false; } bol = true; i++; continue; }
		if (isspace((unsigned char)c)) { i++; continue; }
		if (c == '/' && i + 1 < n && s[i + 1] == '/') { size_t e = s.find('\n', i); if (e == S::npos) e = n; S x = s.substr(i, e - i); while (x.size() && isspace((unsigned char)x.back())) x.pop_back(); r.push_back(x); i = e; continue; }
		if (c == '/' && i + 1 < n && s[i + 1] == '*') { size_t e = s.find("*/", i + 2); e = e == S::npos ? n : e + 2; r.push_back(s.substr(i, e - i)); i = e; bol = false; continue; }
		if (c == '"' || c == '\'') { size_t e = i + 1; while (e < n && s[e] != c) e += s[e] == '\\' ? 2 : 1; if (e < n) e++; else e = n; r.push_back(s.substr(i, e - i)); i = e; bol = false; continue; }
		if (isalnum((unsigned char)c) || c == '_' || (unsigned char)c > 127) { size_t e = i; while (e < n && (isalnum((unsigned char)s[e]) || s[e] == '_' || (unsigned char)s[e] > 127)) e++; r.push_back(s.substr(i, e - i)); i = e; bol = false; continue; }
		if (c == '#' && bol) dir = true;
		r.push_back(S(1, c)); i++; bol = false;
	}
	if (dir) r.push_back("<eol>");
	return r;
}
static S join(std::vector<S> const& v, size_t a, size_t n) { S r; for (size_t i = a; i < v.size() && i < a + n; i++) r += (r.empty() ? "" : " ") + v[i].substr(0, 60); return r; }
static bool same_tokens(S const& got, S const& want, S& why) {
	auto a = toks(got), b = toks(want); size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	if (i == a.size() && i == b.size()) return true;
	size_t s = i > 6 ? i - 6 : 0; why = "token " + std::to_string(i) + ": got  '" + join(a, s, 16) + "'  asked  '" + join(b, s, 16) + "'"; return false;
}
// ---- strings handed over in exact-size buffers released after the call
static std::vector<char*> vp_bufs;
static Str mk(S const& s) { char* p = (char*)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); vp_bufs.push_back(p); return Str{ p, (ssize)s.size() }; }
static void drop_bufs() { for (auto p : vp_bufs) free(p); vp_bufs.clear(); }
static int uid;
static S ident(const char* pre) {
	if (R.chance(4)) return vp_fmt("%s%d_", pre, uid++) + S(R.range(1, 300), 'x');
	if (R.chance(2)) return vp_fmt("%s\xc3\xa9%d", pre, uid++);
	return vp_fmt("%s%d", pre, uid++);
}
struct Ty { CodeTypename c; S t, arr; bool parses = true; };
static std::vector<Ty> types; static std::vector<N> shared_params;
static S join_t(std::initializer_list<S> l) { S r; for (auto& x : l) if (x.size()) r += (r.size() ? " " : "") + x; return r; }
static CodeAttributes no_attr() { CodeAttributes a = { nullptr }; return a; }
static CodeSpecifiers no_specs() { CodeSpecifiers a = { nullptr }; return a; }
static CodeAttributes attr(S& t, int pct = 15) {
	if (!R.chance(pct)) { t.clear(); return no_attr(); }
	t = R.pick<const char*>({ "[[nodiscard]]", "__declspec(dllexport)", "__attribute__((packed))", "[[deprecated(\"old\")]]", "[[maybe_unused]]" });
	return def_attributes(mk(t));
}
static CodeSpecifiers specs_of(std::vector<Specifier> const& v) {
	if (v.empty()) return no_specs();
	switch (R.below(4)) {
	case 0: { Specifier* a = (Specifier*)malloc(v.size() * sizeof(Specifier)); for (size_t i = 0; i < v.size(); i++) a[i] = v[i]; vp_bufs.push_back((char*)a); return def_specifiers_arr(v.size(), a); }
	case 1: if (v.size() == 1) return def_specifier(v[0]); if (v.size() == 2) return def_specifiers(2, v[0], v[1]); if (v.size() == 3) return def_specifiers(3, v[0], v[1], v[2]);
	default: { CodeSpecifiers s = def_specifier(v[0]); for (size_t i = 1; i < v.size(); i++) specifiers_append(s, v[i]); return s; }
	}
}
static S spec_txt(Specifier s) {
	switch (s) { case Spec_Consteval: return "consteval"; case Spec_Constexpr: return "constexpr"; case Spec_Constinit: return "constinit"; case Spec_Explicit: return "explicit"; case Spec_External_Linkage: return "extern"; case Spec_ForceInline: return "forceinline"; case Spec_Global: return "global"; case Spec_Inline: return "inline"; case Spec_Internal_Linkage: return "internal"; case Spec_Local_Persist: return "local_persist"; case Spec_Mutable: return "mutable"; case Spec_NeverInline: return "neverinline"; case Spec_Ptr: return "*"; case Spec_Ref: return "&"; case Spec_RValue: return "&&"; case Spec_Static: return "static"; case Spec_Thread_Local: return "thread_local"; case Spec_Virtual: return "virtual"; case Spec_Const: return "const"; case Spec_Final: return "final"; case Spec_NoExceptions: return "noexcept"; case Spec_Override: return "override"; case Spec_Pure: return "= 0"; case Spec_Delete: return "= delete"; case Spec_Volatile: return "volatile"; case Spec_Restrict: return "restrict"; default: return "?"; }
}
static Ty type(bool arr_ok = false) {
	if (types.size() && R.chance(40)) { for (int k = 0; k < 4; k++) { Ty t = types[R.below(types.size())]; if (arr_ok || t.arr.empty()) { COUNT("type used again"); return t; } } }
	if (R.chance(10)) { Ty t; switch (R.below(4)) { case 0: t.c = t_int; t.t = "int"; break; case 1: t.c = t_bool; t.t = "bool"; break; case 2: t.c = t_char; t.t = "char"; break; default: t.c = t_auto; t.t = "auto"; t.parses = true; } return t; }
	Ty t; Opts_def_type o = {}; S a; o.attributes = attr(a, 4); if (a.size()) t.parses = false;
	S name = R.chance(60) ? S(R.pick<const char*>({ "int", "char", "float", "unsigned int", "u32", "Foo", "ns::Type", "::Glob", "std::vector<int>", "Map<Key, std::pair<int, char>>" })) : ident("T"); if (name[0] == ':') t.parses = false;
	S tag; if (R.chance(8) && name[0] == 'T') { switch (R.below(4)) { case 0: o.type_tag = Tag_Class; tag = "class"; break; case 1: o.type_tag = Tag_Struct; tag = "struct"; break; case 2: o.type_tag = Tag_Enum; tag = "enum"; break; default: o.type_tag = Tag_Union; tag = "union"; } }
	std::vector<Specifier> sp; S spt;
	if (R.chance(15)) sp.push_back(Spec_Const); if (R.chance(25)) { sp.push_back(Spec_Ptr); if (R.chance(20)) sp.push_back(Spec_Ptr); if (R.chance(20)) sp.push_back(Spec_Const); } else if (R.chance(20)) sp.push_back(R.chance(75) ? Spec_Ref : Spec_RValue);
	for (auto s : sp) spt += " " + spec_txt(s);
	o.specifiers = specs_of(sp);
	if (arr_ok && R.chance(25)) { S e = R.pick<const char*>({ "4", "N", "sizeof(int) * 2", "" }); if (e.size()) { t.arr = "[ " + e + " ]"; o.array_expr = untyped_str(mk(e)); } }
	t.t = join_t({ a, tag, name }) + spt; t.c = def_type(mk(name), o);
	HIST("type '%s'%s", t.t.c_str(), t.arr.c_str()); COUNT("def_type");
	if (types.size() < 40) types.push_back(t); else types[R.below(40)] = t;
	return t;
}
static S value_txt() { return R.pick<const char*>({ "0", "nullptr", "1 + 2", "f( a, b )", "\"text\"", "{ 1, 2 }", "'c'", "Foo()", "x ? y : z" }); }
static N param1() {
	if (shared_params.size() && R.chance(25)) { COUNT("parameter used again"); return shared_params[R.below(shared_params.size())]; }
	Ty t = type(); S n = ident("p"); Opts_def_param o = {}; N r; r.parses = t.parses; S v;
	if (R.chance(25)) { v = value_txt(); o.value = untyped_str(mk(v)); v = " = " + v; }
	r.c = cast(Code, def_param(t.c, mk(n), o)); r.t = t.t + " " + n + v; COUNT("def_param");
	HIST("param '%s'", r.t.c_str());
	if (R.chance(40)) { if (shared_params.size() < 12) shared_params.push_back(r); else shared_params[R.below(12)] = r; }
	return r;
}
static CodeParams list_params(std::vector<N> const& v) {
	CodeParams p[6]; for (size_t i = 0; i < v.size(); i++) p[i] = cast(CodeParams, v[i].c);
	switch (R.below(3)) {
	case 0: { CodeParams* a = (CodeParams*)malloc(v.size() * sizeof(CodeParams)); for (size_t i = 0; i < v.size(); i++) a[i] = p[i]; vp_bufs.push_back((char*)a); COUNT("def_params_arr"); return def_params_arr(v.size(), a); }
	case 1: { COUNT("params_append"); CodeParams h = cast(CodeParams, code_duplicate(cast(Code, p[0]))); for (size_t i = 1; i < v.size(); i++) params_append(h, p[i]); return h; }
	default: COUNT("def_params"); switch (v.size()) { case 1: return def_params(1, p[0]); case 2: return def_params(2, p[0], p[1]); case 3: return def_params(3, p[0], p[1], p[2]); case 4: return def_params(4, p[0], p[1], p[2], p[3]); default: return def_params(5, p[0], p[1], p[2], p[3], p[4]); }
	}
}
static N params(int lo, int hi) {
	int n = R.range(lo, hi); N r; r.c = { nullptr }; if (!n) return r;
	std::vector<N> v; for (int i = 0; i < n; i++) { N p = param1(); bool dup = false; for (auto& q : v) if (q.c == p.c) dup = true; if (dup) { i--; continue; } v.push_back(p); r.t += (i ? ", " : "") + p.t; r.parses = r.parses && p.parses; }
	HIST("params %d: %s", n, r.t.c_str());
	if (n == 1 && R.chance(50)) r.c = v[0].c; else r.c = cast(Code, list_params(v));
	return r;
}
enum { IN_GLOBAL, IN_CLASS, IN_FN, IN_NS };
static N decl(int where, int depth);
static N body(int where, CodeType ty, int lo, int hi, int depth);
static N stmt() {
	N r; r.t = R.pick<const char*>({ "return 0;", "x = y + 1;", "if ( a ) { b(); }", "call( 1, \"s\" );", "for (;;) {}", "i++;" }) + S("\n");
	if (R.chance(30)) { r.c = cast(Code, def_execution(mk(r.t))); COUNT("def_execution"); } else r.c = untyped_str(mk(r.t));
	return r;
}
static N fn_body(int depth, bool exec_ok = true, bool untyped_ok = true) {
	N r; int k = R.below(6);
	if (k == 0 && exec_ok) { r.t = "return f( 1 );\n"; r.c = cast(Code, def_execution(mk(r.t))); return r; }
	if (k == 1 && untyped_ok) { r.t = "int i = 0; (void) i;\n"; r.c = untyped_str(mk(r.t)); return r; }
	return body(IN_FN, CT_Function_Body, 1, 4, depth - 1);
}
static CodeBody B(Code c) { return cast(CodeBody, c); }
static const char* wh[] = { "file", "class", "function", "namespace" };
static ModuleFlag mflag(S& t, int where) { t.clear(); if (where != IN_CLASS && where != IN_FN && R.chance(6)) { t = "export"; return ModuleFlag_Export; } return ModuleFlag_None; }
static N var(int where) {
	Ty t = type(true); S n = ident("v"), a, m, v, st; Opts_def_variable o = {}; N r; o.attributes = attr(a, 8); o.mflags = mflag(m, where);
	std::vector<Specifier> sp; if (R.chance(25)) sp.push_back(R.pick({ Spec_Static, Spec_Constexpr, Spec_Inline, Spec_External_Linkage, Spec_Thread_Local, Spec_Constinit, Spec_Global, Spec_Internal_Linkage, Spec_Local_Persist, Spec_Mutable })); if (sp.size() && sp[0] == Spec_Static && R.chance(30)) sp.push_back(Spec_Constexpr);
	for (auto s : sp) st += (st.size() ? " " : "") + spec_txt(s); o.specifiers = specs_of(sp);
	if (R.chance(40)) { v = value_txt(); o.value = untyped_str(mk(v)); v = " = " + v; }
	r.c = cast(Code, def_variable(t.c, mk(n), o)); r.t = join_t({ m, a, st, t.t, n }) + t.arr + v + ";\n"; r.parses = false; COUNT("def_variable");
	r.parses = t.parses && a.empty() && st.empty() && m.empty() && v.find('{') == S::npos && t.arr.size() < 8;
	HIST("variable %s", r.t.c_str()); return r;
}
static N function(int where, int depth, bool fwd) {
	Ty t = type(); S n = ident("f"), a, m, st, tr; Opts_def_function o = {}; N r; o.attrs = attr(a, 10); o.mflags = mflag(m, where);
	std::vector<Specifier> pre, post, all;
	if (R.chance(30)) pre.push_back(where == IN_CLASS ? R.pick({ Spec_Static, Spec_Virtual, Spec_Inline, Spec_Constexpr, Spec_ForceInline }) : R.pick({ Spec_Static, Spec_Inline, Spec_Constexpr, Spec_ForceInline, Spec_NeverInline, Spec_External_Linkage, Spec_Internal_Linkage, Spec_Consteval }));
	if (pre.size() && pre[0] == Spec_Static && R.chance(30)) pre.push_back(Spec_Inline);
	if (where == IN_CLASS) { if (R.chance(25)) post.push_back(Spec_Const); if (R.chance(10)) post.push_back(Spec_NoExceptions); if (R.chance(10)) post.push_back(R.chance(50) ? Spec_Override : Spec_Final); if (fwd && R.chance(12)) post.push_back(R.chance(50) ? Spec_Pure : Spec_Delete); }
	else if (R.chance(8)) post.push_back(Spec_NoExceptions);
	for (auto s : pre) st += (st.size() ? " " : "") + spec_txt(s); for (auto s : post) tr += " " + spec_txt(s);
	if (R.chance(30)) { // the order in which specifiers are given must not move them across the name
		size_t i = 0, j = 0; while (i < pre.size() || j < post.size()) if (j >= post.size() || (i < pre.size() && R.chance(50))) all.push_back(pre[i++]); else all.push_back(post[j++]); } else { all = pre; all.insert(all.end(), post.begin(), post.end()); }
	o.specs = specs_of(all); N p = params(0, 4); o.params = cast(CodeParams, p.c);
	bool noret = R.chance(15); S rt = t.t; if (noret) rt = "void"; else o.ret_type = t.c;
	N b; if (!fwd) { b = fn_body(depth); o.body = B(b.c); }
	r.c = cast(Code, def_function(mk(n), o)); r.t = join_t({ m, a, st, rt, n }) + "( " + p.t + " )" + tr + (fwd ? S(";\n") : "\n{\n" + b.t + "}\n"); COUNT(fwd ? "def_function forward" : "def_function");
	r.parses = (noret || t.parses) && p.parses && a.empty() && m.empty() && st.empty() && post.empty();
	HIST("function %s", r.t.c_str()); return r;
}
static CodeTypename plain_type(S& t) { Ty x; if (R.chance(30)) for (int i = 0; i < 6; i++) if (types.size()) { x = types[R.below(types.size())]; if (x.arr.empty() && x.t.find_first_of("*&[ ") == S::npos) { t = x.t; COUNT("parent used again"); return x.c; } } Ty y; y.t = ident("P"); y.c = def_type(mk(y.t)); types.push_back(y); t = y.t; return y.c; }
static N record(int where, int depth, bool is_class, bool fwd) {
	S n = ident(is_class ? "C" : "St"), a, m; Opts_def_struct o = {}; N r; o.attributes = attr(a, 12); o.mflags = mflag(m, where); S bases, fin; CodeTypename ifs[3];
	std::vector<S> used;
	if (!fwd) {
		if (R.chance(25)) { S p; o.parent = plain_type(p); used.push_back(p); o.parent_access = R.pick({ AccessSpec_Default, AccessSpec_Public, AccessSpec_Protected, AccessSpec_Private }); bases = S(" : ") + (o.parent_access == AccessSpec_Public ? "public " : o.parent_access == AccessSpec_Protected ? "protected " : o.parent_access == AccessSpec_Private ? "private " : "") + p; }
		if (R.chance(20)) { int k = R.range(1, 3), got = 0; S it; for (int i = 0; i < k; i++) { S p; CodeTypename c = plain_type(p); if (std::find(used.begin(), used.end(), p) != used.end()) continue; used.push_back(p); ifs[got++] = c;
				if (bases.empty()) bases = " : public " + p; else { if (o.parent && o.parent_access == AccessSpec_Default && it.empty()) bases = " : public " + used[0]; it = p; bases += is_class ? ", public " + p : ", " + p; } }
			o.interfaces = ifs; o.num_interfaces = got; }
		if (R.chance(10)) { o.specifiers = def_specifier(Spec_Final); fin = " final"; }
	}
	N b; if (!fwd) { b = R.chance(10) && is_class ? N{ untyped_str(mk("int raw;\n")), "int raw;\n" } : body(IN_CLASS, is_class ? CT_Class_Body : CT_Struct_Body, 1, 5, depth - 1); o.body = B(b.c); }
	S def = join_t({ m, is_class ? "class" : "struct", a, n }) + fin + bases;
	r.c = is_class ? cast(Code, def_class(mk(n), o)) : cast(Code, def_struct(mk(n), o));
	if (!fwd) { S x = b.t; size_t at; while ((at = x.find("@@CLASS@@")) != S::npos) x.replace(at, 9, n); b.t = x; }
	r.t = def + (fwd ? S(";\n") : "\n{\n" + b.t + "};\n"); COUNT(is_class ? (fwd ? "def_class forward" : "def_class") : (fwd ? "def_struct forward" : "def_struct"));
	r.parses = b.parses && a.empty() && m.empty() && bases.empty() && fin.empty();
	HIST("record %s", r.t.substr(0, 400).c_str()); return r;
}
static N enumeration(int where) {
	S n = ident("E"), a, m, u; Opts_def_enum o = {}; N r; bool cls = R.chance(40), fwd = R.chance(25); o.attributes = attr(a, 10); o.mflags = mflag(m, where); if (cls) o.specifier = EnumDecl_Class;
	if (fwd && !cls && R.chance(25)) { S t = R.pick<const char*>({ "enum_underlying(u16)", "enum_underlying(u8)", "enum_underlying( s32 )" }); o.type_macro = untyped_str(mk(t)); u = " " + t; }
	else if ((fwd && !cls) || R.chance(40)) { S t = R.pick<const char*>({ "int", "u8", "unsigned int" }); o.type = def_type(mk(t)); u = " : " + t; }
	else if (R.chance(12) && !cls) { S t = R.pick<const char*>({ "enum_underlying(u16)", "enum_underlying(u8)", "enum_underlying( s32 )" }); o.type_macro = untyped_str(mk(t)); u = " " + t; }
	N b; if (!fwd) {
		if (R.chance(30)) { b.t = "A, B = 2, C"; b.c = untyped_str(mk(b.t)); }
		else { std::vector<Code> v; int k = R.range(1, 4); for (int i = 0; i < k; i++) { if (R.chance(20)) { S c = "note " + std::to_string(i); v.push_back(cast(Code, def_comment(mk(c)))); b.t += "//" + c + "\n"; } S e = ident("En") + (R.chance(30) ? " = 1 << 3" : "") + ",\n"; b.t += e; v.push_back(untyped_str(mk(e))); }
			if (R.chance(50)) { Code* arr = (Code*)malloc(v.size() * sizeof(Code)); for (size_t i = 0; i < v.size(); i++) arr[i] = v[i]; vp_bufs.push_back((char*)arr); b.c = cast(Code, def_enum_body_arr(v.size(), arr)); } else { v.resize(8, Code{ nullptr }); size_t c = 0; while (c < 8 && v[c]) c++; b.c = cast(Code, def_enum_body(c, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])); } COUNT("def_enum_body"); }
		o.body = B(b.c); }
	r.c = cast(Code, def_enum(mk(n), o)); r.t = join_t({ m, "enum", cls ? "class" : "", a, n }) + u + (fwd ? S(";\n") : "\n{\n" + b.t + "};\n"); COUNT(fwd ? "def_enum forward" : "def_enum");
	r.parses = a.empty() && m.empty() && u.find("enum_") == S::npos && b.t.find("//") == S::npos; HIST("enum %s", r.t.c_str()); return r;
}
static N op_overload(int where, int depth) {
	struct O { Operator op; const char* s; int kind; };  // kinds: 0 assign, 1 compound, 2 inc/dec, 3 unary sign, 4 bnot, 5 binary, 6 not, 7 compare, 8 member pointer ops, 9 member call, 10 allocation
	static const O ops[] = { { Op_Assign, "=", 0 }, { Op_Assign_Add, "+=", 1 }, { Op_Assign_Subtract, "-=", 1 }, { Op_Assign_Multiply, "*=", 1 }, { Op_Assign_Divide, "/=", 1 }, { Op_Assign_Modulo, "%=", 1 }, { Op_Assign_BAnd, "&=", 1 }, { Op_Assign_BOr, "|=", 1 }, { Op_Assign_BXOr, "^=", 1 }, { Op_Assign_LShift, "<<=", 1 }, { Op_Assign_RShift, ">>=", 1 },
		{ Op_Increment, "++", 2 }, { Op_Decrement, "--", 2 }, { Op_Unary_Plus, "+", 3 }, { Op_Unary_Minus, "-", 3 }, { Op_BNot, "~", 4 }, { Op_Add, "+", 5 }, { Op_Subtract, "-", 5 }, { Op_Multiply, "*", 5 }, { Op_Divide, "/", 5 }, { Op_Modulo, "%", 5 }, { Op_BAnd, "&", 5 }, { Op_BOr, "|", 5 }, { Op_BXOr, "^", 5 }, { Op_LShift, "<<", 5 }, { Op_RShift, ">>", 5 }, { Op_PtrToMemOfPtr, "->*", 5 }, { Op_UnaryNot, "!", 6 },
		{ Op_LAnd, "&&", 7 }, { Op_LOr, "||", 7 }, { Op_LEqual, "==", 7 }, { Op_LNot, "!=", 7 }, { Op_Lesser, "<", 7 }, { Op_Greater, ">", 7 }, { Op_LesserEqual, "<=", 7 }, { Op_GreaterEqual, ">=", 7 }, { Op_Indirection, "*", 8 }, { Op_AddressOf, "&", 8 }, { Op_MemberOfPointer, "->", 8 }, { Op_Subscript, "[]", 9 }, { Op_FunctionCall, "()", 9 }, { Op_Comma, ",", 9 }, { Op_New, "new", 10 }, { Op_Delete, "delete", 10 }, { Op_NewArray, "new[]", 10 }, { Op_DeleteArray, "delete[]", 10 } };
	bool member = where == IN_CLASS; N r; Opts_def_operator o = {}; S a, m, st, tr, ns; Ty rt = type(); std::vector<N> ps; O q;
	for (;;) { q = ops[R.below(sizeof ops / sizeof *ops)]; if (!member && (q.kind == 0 || q.kind == 8 || q.op == Op_Subscript || q.op == Op_FunctionCall)) continue; if (member && q.kind == 10) continue; break; }
	auto P = [&](Ty const& t) { N p; S n = ident("o"); p.c = cast(Code, def_param(t.c, mk(n))); p.t = t.t + " " + n; p.parses = t.parses; ps.push_back(p); };
	Ty ti; ti.c = t_int; ti.t = "int"; Ty tb; tb.c = t_bool; tb.t = "bool";
	switch (q.kind) {
	case 0: P(type()); break;
	case 1: if (member) P(type()); else { P(rt); P(type()); } break;
	case 2: if (member) { if (R.chance(50)) P(ti); } else { if (rt.t.find("int") != S::npos) { rt.t = ident("T"); rt.c = def_type(mk(rt.t)); } bool post = R.chance(50); if (post && R.chance(50)) P(type()); else P(rt); if (post) P(ti); } break;
	case 3: if (!member) P(rt); break;
	case 4: if (!member) P(type()); break;
	case 5: case 7: P(type()); if (!member) P(type()); break;
	case 6: rt = tb; if (!member) P(type()); break;
	case 8: break;
	case 9: if (q.op == Op_FunctionCall && R.chance(30)) { COUNT("operator () without parameters"); break; } P(type()); if (q.op == Op_Comma && !member) P(type()); if (q.op == Op_FunctionCall && R.chance(40)) P(type()); break;
	case 10: P(type()); break;
	}
	if (ps.size()) o.params = cast(CodeParams, ps.size() == 1 && R.chance(60) ? ps[0].c : cast(Code, list_params(ps))); o.ret_type = rt.c;
	o.attributes = attr(a, 6); o.mflags = mflag(m, where); std::vector<Specifier> sp; if (R.chance(20)) { sp.push_back(R.pick({ Spec_Inline, Spec_Constexpr, Spec_ForceInline })); st = spec_txt(sp[0]); } if (member && q.kind != 0 && R.chance(25)) { sp.push_back(Spec_Const); tr = " const"; } o.specifiers = specs_of(sp);
	bool fwd = R.chance(40); N b; if (!fwd) { b = fn_body(depth); o.body = B(b.c); } if (!member && R.chance(8) && q.kind != 10) ns = "Owner::";
	r.c = cast(Code, def_operator(q.op, mk(ns), o)); S pt; for (auto& p : ps) pt += (pt.size() ? ", " : "") + p.t;
	r.t = join_t({ m, a, st, rt.t, ns + "operator" }) + " " + q.s + "( " + pt + " )" + tr + (fwd ? S(";\n") : "\n{\n" + b.t + "}\n"); r.parses = false; COUNT(fwd ? "def_operator forward" : "def_operator"); COUNT(S("operator ") + q.s);
	CodeType want = member ? (fwd ? CT_Operator_Member_Fwd : CT_Operator_Member) : (fwd ? CT_Operator_Fwd : CT_Operator);
	HIST("operator %s", r.t.c_str());
	if (q.kind != 10 && r.c->Type != want) VIOL("operator kind", "a %s operator%s with %zu parameters becomes a node of kind %s", member ? "member" : "free", q.s, ps.size(), codetype_to_str(r.c->Type).Ptr);
	return r;
}
static void big_text(S& s) { if (R.chance(1)) s += S(R.range(1000, 200000), 'b'); }
static N decl(int where, int depth) {
	N r; S n, a, m; 
	for (;;) switch (R.below(25)) {
	case 0: case 1: return var(where);
	case 2: case 3: if (where == IN_FN) continue; return function(where, depth, false);
	case 4: if (where == IN_FN) continue; return function(where, depth, true);
	case 5: if (depth <= 0) continue; return record(where, depth, true, false);
	case 6: if (depth <= 0) continue; return record(where, depth, false, false);
	case 7: return record(where, depth, R.chance(50), true);
	case 8: return enumeration(where);
	case 9: { // union
		n = R.chance(85) ? ident("U") : S(); Opts_def_union o = {}; o.attributes = attr(a, 10); o.mflags = mflag(m, where); std::vector<Code> v; S bt; for (int i = R.range(1, 3); i--; ) { if (R.chance(20)) { v.push_back(cast(Code, def_comment(mk("u")))); bt += "//u\n"; } else { S e = "int " + ident("u") + ";\n"; v.push_back(untyped_str(mk(e))); bt += e; } }
		Code* arr = (Code*)malloc(v.size() * sizeof(Code)); for (size_t i = 0; i < v.size(); i++) arr[i] = v[i]; vp_bufs.push_back((char*)arr);
		CodeBody b = R.chance(50) ? def_union_body_arr(v.size(), arr) : v.size() == 1 ? def_union_body(1, v[0]) : v.size() == 2 ? def_union_body(2, v[0], v[1]) : def_union_body(3, v[0], v[1], v[2]);
		r.c = cast(Code, def_union(mk(n), b, o)); r.t = join_t({ m, "union", a, n }) + "\n{\n" + bt + "};\n"; r.parses = a.empty() && m.empty() && n.size() && bt.find("//") == S::npos; COUNT("def_union"); return r; }
	case 10: if (where == IN_CLASS || where == IN_FN || depth <= 0) continue; { n = ident("ns"); if (R.chance(15)) n += "::inner"; Opts_def_namespace o = {}; o.mflags = mflag(m, where); N b = R.chance(10) ? N{ untyped_str(mk("int q;\n")), "int q;\n" } : body(IN_NS, CT_Namespace_Body, 1, 4, depth - 1); r.c = cast(Code, def_namespace(mk(n), B(b.c), o)); r.t = join_t({ m, "namespace", n }) + "\n{\n" + b.t + "}\n"; r.parses = b.parses && m.empty() && n.find(':') == S::npos; COUNT("def_namespace"); return r; }
	case 11: if (where == IN_CLASS || where == IN_FN || depth <= 0) continue; { N b = R.chance(10) ? N{ untyped_str(mk("int q;\n")), "int q;\n" } : body(IN_GLOBAL, CT_Extern_Linkage_Body, 1, 4, depth - 1); n = R.chance(70) ? "C" : "C++"; r.c = cast(Code, def_extern_link(mk(n), B(b.c))); r.t = "extern \"" + n + "\"\n{\n" + b.t + "}\n"; r.parses = b.parses; COUNT("def_extern_link"); return r; }
	case 24: if (where == IN_CLASS || where == IN_FN || depth <= 0) continue; { N b = body(IN_GLOBAL, CT_Export_Body, 1, 4, depth - 1); r.c = b.c; r.t = "export\n{\n" + b.t + "};\n"; r.parses = b.parses && b.t.find("export") == S::npos; COUNT("export body as an entry"); return r; }
	case 12: { Ty t = type(true); n = ident("Us"); Opts_def_using o = {}; o.attributes = attr(a, 8); o.mflags = mflag(m, where); r.c = cast(Code, def_using(mk(n), t.c, o)); r.t = join_t({ m, "using", n, a }) + " = " + t.t + t.arr + ";\n"; r.parses = t.parses && a.empty() && m.empty() && t.arr.empty(); COUNT("def_using"); return r; }
	case 13: if (where == IN_CLASS) continue; n = R.chance(50) ? ident("ns") : "a::b"; r.c = cast(Code, def_using_namespace(mk(n))); r.t = "using namespace " + n + ";\n"; COUNT("def_using_namespace"); return r;
	case 14: { // typedef
		n = ident("Td"); Opts_def_typedef o = {}; o.mflags = mflag(m, where); if (R.chance(70)) { Ty t = type(true); r.c = cast(Code, def_typedef(mk(n), cast(Code, t.c), o)); r.t = join_t({ m, "typedef", t.t, n }) + t.arr + ";\n"; r.parses = t.parses && m.empty() && t.arr.empty(); COUNT("def_typedef"); return r; }
		S sn = ident("S"); S m2 = "int a;\n"; Opts_def_struct so = {}; N b = { cast(Code, def_struct_body(1, untyped_str(mk(m2)))), m2 }; so.body = B(b.c); Code st = cast(Code, def_struct(mk(sn), so)); HIST("typedef of struct"); r.c = cast(Code, def_typedef(mk(n), st, o)); r.t = join_t({ m, "typedef struct", sn }) + "\n{\n" + m2 + "} " + n + ";\n"; r.parses = false; COUNT("def_typedef of struct"); return r; }
	case 15: if (where == IN_FN) continue; { // template
		if (depth <= 0) continue; N p; if (R.chance(12)) p.c = { nullptr }; else { std::vector<N> v; for (int i = R.range(1, 3); i--; ) { N q; S tn = ident("A"); bool ty = R.chance(70); if (ty) { q.c = cast(Code, def_param(def_type(mk(R.chance(50) ? "typename" : "class")), mk(tn))); q.t = text(cast(CodeParams, q.c)->ValueType->Name) + " " + tn; } else { S v2; Opts_def_param po = {}; if (R.chance(40)) { po.value = untyped_str(mk("4")); v2 = " = 4"; } q.c = cast(Code, def_param(t_int, mk(tn), po)); q.t = "int " + tn + v2; } v.push_back(q); p.t += (p.t.size() ? ", " : "") + q.t; } p.c = v.size() == 1 ? v[0].c : cast(Code, list_params(v)); }
		N d; switch (R.below(4)) { case 0: d = record(where == IN_CLASS ? IN_CLASS : IN_FN, depth, true, false); break; case 1: d = record(IN_CLASS, depth, false, false); break; case 2: d = function(IN_FN, depth, false); break; default: d = var(IN_FN); }
		Opts_def_template o = {}; o.mflags = mflag(m, where); r.c = cast(Code, def_template(cast(CodeParams, p.c), d.c, o)); r.t = join_t({ m, "template<" }) + p.t + ">\n" + d.t; r.parses = d.parses && m.empty() && d.c->Type != CT_Variable; COUNT("def_template"); return r; }
	case 16: { if (where == IN_FN) continue; n = R.chance(50) ? "stdio.h" : ident("dir/") + ".hpp"; big_text(n); Opts_def_include o = {}; o.foreign = R.chance(50); r.c = cast(Code, def_include(mk(n), o)); r.t = "#include " + (o.foreign ? "<" + n + ">" : "\"" + n + "\"") + "\n"; COUNT("def_include"); return r; }
	case 17: { // define
		n = ident("MACRO"); Opts_def_define o = {}; S ps, c; o.dont_register_to_preprocess_macros = R.chance(50); if (R.chance(80)) { c = R.pick<const char*>({ "1", "( 1 + 2 )", "do { x; } while ( 0 )", "\"str\"", "int", "a \\\n\tb" }); big_text(c); o.content = mk(c); }
		if (R.chance(35)) { std::vector<CodeDefineParams> v; for (int i = R.range(1, 3); i--; ) { S pn = i == 0 && R.chance(20) ? "..." : ident("a"); CodeDefineParams q = cast(CodeDefineParams, make_code()); cast(Code, q)->Type = CT_Parameters_Define; q->Name = cache_str(mk(pn)); cast(Code, q)->NumEntries = 1; v.push_back(q); ps += (ps.size() ? ", " : "") + pn; }
			CodeDefineParams* arr = (CodeDefineParams*)malloc(v.size() * sizeof(*arr)); for (size_t i = 0; i < v.size(); i++) arr[i] = v[i]; vp_bufs.push_back((char*)arr);
			o.params = R.chance(50) ? def_define_params_arr(v.size(), arr) : v.size() == 1 ? def_define_params(1, v[0]) : v.size() == 2 ? def_define_params(2, v[0], v[1]) : def_define_params(3, v[0], v[1], v[2]); COUNT("def_define_params"); }
		if (o.params) o.flags = MF_Functional;
		r.c = cast(Code, def_define(mk(n), MT_Expression, o)); r.t = "#define " + n + (o.params ? "( " + ps + " )" : S()) + " " + c + "\n"; r.parses = true; COUNT("def_define"); return r; }
	case 18: n = R.pick<const char*>({ "once", "pack( push, 1 )", "region R" }); r.c = cast(Code, def_pragma(mk(n))); r.t = "#pragma " + n + "\n"; COUNT("def_pragma"); return r;
	case 19: { n = R.pick<const char*>({ "single", "first\nsecond", "a\n\nb", "trail\n", "\n", " spaced out ", "url http://x" }); S t; size_t i = 0; for (;;) { size_t e = n.find('\n', i); if (e == S::npos) { t += "//" + n.substr(i) + "\n"; break; } t += "//" + n.substr(i, e - i) + "\n"; i = e + 1; } big_text(n); if (n.size() > 900) { t = "//" + n.substr(n.rfind('\n') == S::npos ? 0 : n.rfind('\n') + 1) + "\n"; n = n.rfind('\n') == S::npos ? n : n.substr(n.rfind('\n') + 1); }
		r.c = cast(Code, def_comment(mk(n))); r.t = t; COUNT("def_comment"); return r; }
	case 20: if (where == IN_FN || where == IN_NS) continue; if (where == IN_GLOBAL) { if (depth < 3) continue; n = ident("mod"); Opts_def_module o = {}; int k = R.below(3); o.mflags = k == 0 ? ModuleFlag_Import : k == 1 ? ModuleFlag_Export : (ModuleFlag)(ModuleFlag_Export | ModuleFlag_Import); r.c = cast(Code, def_module(mk(n), o)); r.t = S(k == 0 ? "import " : k == 1 ? "export " : "export import ") + n + ";\n"; r.parses = false; COUNT("def_module"); return r; }
		{ N f; switch (R.below(4)) { case 0: f = record(IN_FN, 0, true, true); break; case 1: f = record(IN_FN, 0, false, true); break; case 2: f = function(IN_FN, 0, true); break; default: f = function(IN_FN, depth, false); } r.c = cast(Code, def_friend(f.c)); r.t = "friend " + f.t; r.parses = false; COUNT("def_friend"); return r; }
	case 21: if (where == IN_FN) continue; return op_overload(where, depth);
	case 22: if (where != IN_CLASS) continue;
		switch (R.below(4)) {
		case 0: { int k = R.below(3); r.c = cast(Code, k == 0 ? access_public : k == 1 ? access_protected : access_private); r.t = k == 0 ? "public:\n" : k == 1 ? "protected:\n" : "private:\n"; COUNT("access specifier"); return r; }
		case 1: { Ty t = type(); Opts_def_operator_cast o = {}; S tr; std::vector<Specifier> sp; if (R.chance(25)) { sp.push_back(Spec_Explicit); a = "explicit"; } if (R.chance(40)) { sp.push_back(Spec_Const); tr = " const"; } o.specs = specs_of(sp); bool fwd = R.chance(40); N b; if (!fwd) { b = fn_body(depth, true, false); o.body = B(b.c); } r.c = cast(Code, def_operator_cast(t.c, o)); r.t = join_t({ a, "operator", t.t }) + "()" + tr + (fwd ? S(";\n") : "\n{\n" + b.t + "}\n"); r.parses = false; COUNT("def_operator_cast"); return r; }
		case 2: { Opts_def_constructor o = {}; N p = params(0, 3); o.params = cast(CodeParams, p.c); bool fwd = R.chance(40); S il; N b; if (!fwd) { if (R.chance(30)) { il = " : a( 1 ), b( 2 )"; o.initializer_list = untyped_str(mk("a( 1 ), b( 2 )")); } b = fn_body(depth, false); o.body = b.c; } r.c = cast(Code, def_constructor(o)); r.t = "@@CLASS@@( " + p.t + " )" + il + (fwd ? S(";\n") : "\n{\n" + b.t + "}\n"); r.parses = false; COUNT("def_constructor"); return r; }
		default: { Opts_def_destructor o = {}; S tr; std::vector<Specifier> sp; bool fwd = R.chance(40); if (R.chance(40)) { sp.push_back(Spec_Virtual); a = "virtual "; } if (R.chance(20)) { sp.push_back(Spec_Override); tr = " override"; } if (fwd && a.size() && R.chance(25)) { sp.push_back(Spec_Pure); tr += " = 0"; } o.specifiers = specs_of(sp); N b; if (!fwd) { b = fn_body(depth, false); o.body = b.c; } r.c = cast(Code, def_destructor(o)); r.t = a + "~@@CLASS@@()" + tr + (fwd ? S(";\n") : "\n{\n" + b.t + "}\n"); r.parses = false; COUNT("def_destructor"); return r; }
		}
	default: if (where == IN_FN) return stmt(); if (R.chance(30)) { r.t = "/* raw */ int " + ident("raw") + ";\n"; r.c = untyped_str(mk(r.t)); r.parses = false; COUNT("untyped_str"); return r; } continue;
	}
}
static N body(int where, CodeType ty, int lo, int hi, int depth) {
	int n = R.range(lo, hi); N r; std::vector<Code> v;
	auto add = [&](Code c, S const& t) { v.push_back(c); r.t += t; };
	for (int i = 0; i < n; i++) {
		if (where != IN_FN && R.chance(5)) { // a conditional section
			S e = R.pick<const char*>({ "defined( X )", "X > 1", "FEATURE" }); int k = R.below(3); if (k) e = "FEATURE";
			add(cast(Code, def_preprocess_cond(k == 0 ? PreprocessCond_If : k == 1 ? PreprocessCond_IfDef : PreprocessCond_IfNotDef, mk(e))), S(k == 0 ? "#if " : k == 1 ? "#ifdef " : "#ifndef ") + e + "\n"); N d = var(where); add(d.c, d.t); r.parses = r.parses && d.parses;
			if (R.chance(40)) add(cast(Code, def_preprocess_cond(PreprocessCond_ElIf, mk("Y"))), "#elif Y\n"); if (R.chance(40)) add(cast(Code, preprocess_else), "#else\n"); add(cast(Code, preprocess_endif), "#endif\n"); COUNT("def_preprocess_cond"); continue; }
		N d = decl(where, depth); add(d.c, d.t); r.parses = r.parses && d.parses;
		if (R.chance(3) && d.c->Type != CT_Constructor) { add(d.c, d.t); COUNT("node appended twice"); }
		if (R.chance(8)) { add(cast(Code, fmt_newline), "\n"); }
	}
	HIST("body of %zu", v.size());
	size_t k = v.size(); CodeBody b; Code c[12]; for (size_t i = 0; i < 12; i++) c[i] = i < k ? v[i] : Code{ nullptr };
	int how = R.below(3); if (how == 1 && k > 12) how = 0;
#define VAR12(f) f(k, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11])
#define EACH(f, fa) if (how == 0) { Code* arr = (Code*)malloc(k * sizeof(Code)); for (size_t i = 0; i < k; i++) arr[i] = v[i]; vp_bufs.push_back((char*)arr); COUNT(#fa); b = fa(k, arr); } else { COUNT(#f); b = VAR12(f); }
	if (how == 2 && ty != CT_Extern_Linkage_Body) { b = def_body(ty); COUNT("def_body and append"); for (auto e : v) body_append(b, e); }
	else { if (how == 2) how = k > 12 ? 0 : 1; switch (ty) { case CT_Class_Body: EACH(def_class_body, def_class_body_arr) break; case CT_Struct_Body: EACH(def_struct_body, def_struct_body_arr) break; case CT_Function_Body: EACH(def_function_body, def_function_body_arr) break; case CT_Namespace_Body: EACH(def_namespace_body, def_namespace_body_arr) break; case CT_Extern_Linkage_Body: EACH(def_extern_link_body, def_extern_link_body_arr) break; case CT_Export_Body: EACH(def_export_body, def_export_body_arr) break; default: EACH(def_global_body, def_global_body_arr) } }
	if (!b || b->Type != ty) VIOL("body kind", "a %s body becomes a node of kind %s", wh[where], b ? codetype_to_str(b->Type).Ptr : "none");
	if (b->NumEntries != (s32)k) VIOL("body count", "a body of %zu entries counts %d", k, b->NumEntries);
	r.c = cast(Code, b); return r;
}
