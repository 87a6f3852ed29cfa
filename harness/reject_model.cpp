// P07: construction calls that break the stated contract of the construct are refused and leave everything else as it was.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#define VP_QUIET
#include "model.h"
#include "build.h"
static bool started; static Context ctx; static std::vector<Code> pool;
// ---- which arguments of this call break the contract
static std::set<int> bad_slots; static int slot_no; static std::string broke;
static bool V(const char* what) { bool b = bad_slots.count(slot_no++) > 0; if (b) { broke += (broke.size() ? " + " : "") + S(what); HIST("breaks: %s", what); } return b; }
static Str bad_text() {
	switch (R.below(5)) { case 0: HIST("text of length 0"); return Str{ mk("abc").Ptr, 0 }; case 1: HIST("null text"); return Str{ nullptr, 0 }; case 2: HIST("null text of length 3"); return Str{ nullptr, 3 }; case 3: HIST("text of length -1"); return Str{ mk("abc").Ptr, -1 }; default: HIST("null text of length -7"); return Str{ nullptr, -7 }; }
}
static Str nm(const char* what, const char* pre = "n") { return V(what) ? bad_text() : mk(ident(pre)); }
typedef std::set<int> K;
static K operator|(K a, K const& b) { a.insert(b.begin(), b.end()); return a; }
static const char* kname(Code c) { return c ? (c->Type < CT_NumTypes ? codetype_to_str(c->Type).Ptr : "?") : "null"; }
/* A node of none of these kinds. */
static Code wrong(K const& allowed, bool null_is_wrong = false) {
	if (null_is_wrong && R.chance(25)) { HIST("null"); return Code{ nullptr }; }
	if (R.chance(12)) { HIST("the invalid code"); return Code_Invalid; }
	std::set<int> kinds; for (auto c : pool) if (!allowed.count(c->Type)) kinds.insert(c->Type);
	auto it = kinds.begin(); std::advance(it, R.below(kinds.size())); std::vector<Code> m; for (auto c : pool) if (c->Type == *it) m.push_back(c);
	Code c = m[R.below(m.size())]; HIST("a node of kind %s", kname(c)); COUNT(vp_fmt("offered %s", kname(c))); return c;
}
template<class T> static T as(Code c) { T t; memset((void*)&t, 0, sizeof t); t = cast(T, c); return t; }
static Code ok_params() { N p = params(1, 3); return p.c; }
static Code ok_specs() { return cast(Code, def_specifier(R.pick({ Spec_Const, Spec_Static, Spec_Inline }))); }
static Code ok_attr() { return cast(Code, def_attributes(mk("[[nodiscard]]"))); }
static Code ok_type() { return cast(Code, type().c); }
static Code ok_fnbody() { return fn_body(1, false).c; }
static Code ok_untyped() { return untyped_str(mk("1 + 2")); }
#define OPT(T, what, kinds, good) (V(what) ? as<T>(wrong(kinds)) : R.chance(50) ? as<T>(Code{ nullptr }) : as<T>(good))
#define REQ(T, what, kinds, good) (V(what) ? as<T>(wrong(kinds, true)) : as<T>(good))
static const K ATTR = { CT_PlatformAttributes }, SPEC = { CT_Specifiers }, PARS = { CT_Parameters }, TYPE = { CT_Typename }, UNT = { CT_Untyped }, FB = { CT_Function_Body, CT_Untyped }, FBX = { CT_Function_Body, CT_Untyped, CT_Execution };
// ---- all nodes made so far, byte for byte
static size_t stride; static std::vector<std::pair<char*, std::vector<char>>> snap; static s32 snap_macros;
static void each_pool(void (*f)(char*, size_t)) { for (u64 i = 0; i < array_num(_ctx->CodePools); i++) { Pool* p = &_ctx->CodePools[i]; char* a = (char*)p->PhysicalStart; stride = align_forward_s64(p->BlockSize + p->BlockAlign, p->BlockAlign); size_t n = p->FreeList ? (char*)p->FreeList - a : p->TotalSize; if (p->FreeList && ((char*)p->FreeList < a || n > (size_t)p->TotalSize)) n = p->TotalSize; f(a, n); } }
static void take() { snap.clear(); each_pool([](char* a, size_t n) { snap.push_back({ a, std::vector<char>(a, a + n) }); }); snap_macros = array_num(_ctx->Macros.Entries); }
static void compare(S const& who) {
	for (auto& s : snap) { if (!memcmp(s.first, s.second.data(), s.second.size())) continue; size_t i = 0; while (s.first[i] == s.second[i]) i++; size_t bs = stride; char* n = s.first + i / bs * bs; AST* ast = (AST*)n; VIOL("changed by refused " + who, "a node of kind %s made earlier was changed (byte %zu of the node) by a refused call: %s", ast->Type < CT_NumTypes ? codetype_to_str(ast->Type).Ptr : "?", i % bs, broke.c_str()); }
	if ((s32)array_num(_ctx->Macros.Entries) != snap_macros) VIOL("macro registered by refused " + who, "%s", broke.c_str());
}
static Code result; static bool stopped;
static void record_pool() { for (int t = 0; t < 6; t++) { } }
static void add(Code c) { if (!c) return; if (pool.size() < 400) pool.push_back(c); else pool[R.below(400)] = c; }
static void walk(Code c, int d) { if (!c || d > 6 || c == Code_Invalid) return; add(c);
	if (c->Type == CT_Class || c->Type == CT_Struct || c->Type == CT_Union || c->Type == CT_Enum || c->Type == CT_Namespace || c->Type == CT_Function || c->Type == CT_Extern_Linkage) walk(c->Body, d + 1);
	switch (c->Type) { case CT_Class_Body: case CT_Struct_Body: case CT_Global_Body: case CT_Namespace_Body: case CT_Function_Body: case CT_Extern_Linkage_Body: case CT_Enum_Body: case CT_Union_Body: { Code e = c->Front; for (int i = 0; i < c->NumEntries && e; i++, e = e->Next) walk(e, d + 1); } default: break; } }
#define CALL(what, expr) do { take(); who = what; stopped = TRAPS(result = cast(Code, expr)); } while (0)
static CodeDefineParams mk_dparam() { CodeDefineParams q = cast(CodeDefineParams, make_code()); cast(Code, q)->Type = CT_Parameters_Define; q->Name = cache_str(mk(ident("d"))); cast(Code, q)->NumEntries = 1; return q; }
static const K COMMON = { CT_Invalid, CT_PlatformAttributes, CT_Class_Body, CT_Enum_Body, CT_Function_Body, CT_Namespace_Body, CT_Struct_Body, CT_Parameters, CT_Parameters_Define, CT_Specifiers, CT_Typename };
static const K IN_REC = COMMON | K{ CT_Extern_Linkage, CT_Global_Body, CT_Namespace, CT_Operator, CT_Operator_Fwd };
static const K IN_FUN = COMMON | K{ CT_Access_Public, CT_Access_Protected, CT_Access_Private, CT_Extern_Linkage, CT_Friend, CT_Function_Fwd, CT_Global_Body, CT_Namespace, CT_Operator, CT_Operator_Fwd, CT_Operator_Member, CT_Operator_Member_Fwd };
static const K IN_GLO = COMMON | K{ CT_Access_Public, CT_Access_Protected, CT_Access_Private, CT_Execution, CT_Friend, CT_Operator_Member, CT_Operator_Member_Fwd };
static Code of_kind(K const& k) { std::vector<Code> m; for (auto c : pool) if (k.count(c->Type)) m.push_back(c); if (m.empty()) return Code_Invalid; int t = m[R.below(m.size())]->Type; std::vector<Code> m2; for (auto c : m) if (c->Type == t) m2.push_back(c); Code c = m2[R.below(m2.size())]; HIST("an entry of kind %s", kname(c)); COUNT(vp_fmt("offered %s", kname(c))); return c; }
static int attempt(int f, S& who, int& slots);
#define NS(n) do { slots = n; if (!go) return; } while (0)
static void call(int f, S& who, int& slots, bool go) {
	switch (f) {
	case 0: NS(1); { Str t = nm("content", "[[a]]"); CALL("def_attributes", def_attributes(t)); } break;
	case 1: NS(1); { Str t = nm("content"); CALL("def_comment", def_comment(t)); } break;
	case 2: NS(3); { Opts_def_constructor o = {}; o.params = OPT(CodeParams, "params", PARS, ok_params()); o.body = OPT(Code, "body", FB, ok_fnbody()); o.initializer_list = OPT(Code, "initializer_list", UNT, ok_untyped()); CALL("def_constructor", def_constructor(o)); } break;
	case 3: case 4: NS(6); { Opts_def_struct o = {}; bool cls = f == 3; Str n = cls ? nm("name") : (V("name") ? (broke = "", bad_slots.size() == 1 ? (bad_slots = { 1 }, mk("n")) : mk("n")) : mk(ident("S")));
		o.attributes = OPT(CodeAttributes, "attributes", ATTR, ok_attr()); o.specifiers = OPT(CodeSpecifiers, "specifiers", SPEC, cast(Code, def_specifier(Spec_Final)));
		o.parent = V("parent") ? as<CodeTypename>(wrong(K{ CT_Class, CT_Struct, CT_Typename, CT_Untyped })) : R.chance(50) ? as<CodeTypename>(Code{ nullptr }) : as<CodeTypename>(cast(Code, def_type(mk(ident("P")))));
		o.body = OPT(CodeBody, "body", (K{ CT_Class_Body, CT_Struct_Body, CT_Untyped }), body(IN_CLASS, cls ? CT_Class_Body : CT_Struct_Body, 1, 3, 1).c);
		if (o.body && (bad_slots.count(4)) && o.body->Type == (cls ? CT_Struct_Body : CT_Class_Body)) {}
		int k = R.below(4); bool bi = V("interfaces"); if (bi && k == 0) k = 1; CodeTypename* a = (CodeTypename*)calloc(k + 1, sizeof(CodeTypename)); vp_bufs.push_back((char*)a); int at = R.below(k ? k : 1); for (int i = 0; i < k; i++) a[i] = bi && i == at ? as<CodeTypename>(wrong(TYPE, true)) : def_type(mk(ident("I"))); o.interfaces = a; o.num_interfaces = k; if (bi && R.chance(25)) { HIST("no interfaces given"); o.interfaces = nullptr; }
		if (cls) CALL("def_class", def_class(n, o)); else CALL("def_struct", def_struct(n, o)); } break;
	case 5: NS(2); { Opts_def_define o = {}; Str n = nm("name", "M"); o.content = mk("1"); o.params = OPT(CodeDefineParams, "params", (K{ CT_Parameters_Define }), cast(Code, mk_dparam())); CALL("def_define", def_define(n, MT_Expression, o)); } break;
	case 6: NS(2); { Opts_def_destructor o = {}; o.specifiers = OPT(CodeSpecifiers, "specifiers", SPEC, cast(Code, def_specifier(Spec_Virtual))); o.body = OPT(Code, "body", FB, ok_fnbody()); CALL("def_destructor", def_destructor(o)); } break;
	case 7: NS(6); { Opts_def_enum o = {}; Str n = nm("name"); o.attributes = OPT(CodeAttributes, "attributes", ATTR, ok_attr()); o.body = OPT(CodeBody, "body", (K{ CT_Enum_Body, CT_Untyped }), R.chance(50) ? ok_untyped() : cast(Code, def_enum_body(1, untyped_str(mk("A"))))); if (R.chance(50)) o.specifier = EnumDecl_Class; o.type = OPT(CodeTypename, "type", TYPE, cast(Code, def_type(mk("int")))); o.type_macro = V("type_macro") ? (o.type = CodeTypename{ nullptr }, wrong(UNT)) : Code{ nullptr };
		if (V("forward without type")) { o.body = CodeBody{ nullptr }; o.specifier = EnumDecl_Regular; o.type = CodeTypename{ nullptr }; o.type_macro = Code{ nullptr }; } else if (!o.body && !o.type && !o.type_macro) o.specifier = EnumDecl_Class; CALL("def_enum", def_enum(n, o)); } break;
	case 8: NS(1); { Str t = nm("content"); CALL("def_execution", def_execution(t)); } break;
	case 9: NS(2); { Str n = nm("name"); CodeBody b = REQ(CodeBody, "body", (K{ CT_Extern_Linkage_Body, CT_Untyped }), body(IN_GLOBAL, CT_Extern_Linkage_Body, 1, 3, 1).c); CALL("def_extern_link", def_extern_link(n, b)); } break;
	case 10: NS(1); { Code d = REQ(Code, "declaration", (K{ CT_Class_Fwd, CT_Function_Fwd, CT_Operator_Fwd, CT_Struct_Fwd, CT_Class, CT_Function, CT_Operator, CT_Struct }), function(IN_FN, 0, true).c); CALL("def_friend", def_friend(d)); } break;
	case 11: NS(6); { Opts_def_function o = {}; Str n = nm("name"); o.params = OPT(CodeParams, "params", PARS, ok_params()); o.ret_type = OPT(CodeTypename, "ret_type", TYPE, ok_type()); o.specs = OPT(CodeSpecifiers, "specs", SPEC, ok_specs()); o.attrs = OPT(CodeAttributes, "attrs", ATTR, ok_attr()); o.body = OPT(CodeBody, "body", FBX, ok_fnbody()); CALL("def_function", def_function(n, o)); } break;
	case 12: NS(1); { Str t = nm("path"); Opts_def_include o = {}; o.foreign = R.chance(50); CALL("def_include", def_include(t, o)); } break;
	case 13: NS(1); { Str t = nm("name"); CALL("def_module", def_module(t)); } break;
	case 14: NS(2); { Str n = nm("name"); CodeBody b = REQ(CodeBody, "body", (K{ CT_Namespace_Body, CT_Untyped }), body(IN_NS, CT_Namespace_Body, 1, 3, 1).c); CALL("def_namespace", def_namespace(n, b)); } break;
	case 15: NS(7); { // operators
		Opts_def_operator o = {}; struct O { Operator op; int lo, hi; bool need; }; static const O ops[] = { { Op_Assign, 1, 1, true }, { Op_Assign_Add, 1, 2, true }, { Op_Assign_RShift, 1, 2, true }, { Op_Increment, 0, 2, false }, { Op_Decrement, 0, 2, false }, { Op_Unary_Plus, 0, 1, false }, { Op_Unary_Minus, 0, 1, false }, { Op_BNot, 0, 1, false }, { Op_Add, 1, 2, true }, { Op_Multiply, 1, 2, true }, { Op_BXOr, 1, 2, true }, { Op_LShift, 1, 2, true }, { Op_UnaryNot, 0, 1, false }, { Op_LAnd, 1, 2, true }, { Op_LEqual, 1, 2, true }, { Op_Lesser, 1, 2, true }, { Op_Indirection, 0, 1, false }, { Op_AddressOf, 0, 1, false }, { Op_MemberOfPointer, 0, 1, false }, { Op_PtrToMemOfPtr, 1, 2, true }, { Op_Subscript, 1, 9, true }, { Op_FunctionCall, 0, 9, false }, { Op_Comma, 1, 9, true } };
		O q = ops[R.below(sizeof ops / sizeof *ops)]; Ty rt = type(); if (q.op == Op_UnaryNot) { rt.c = t_bool; rt.t = "bool"; } else while (rt.t.find("int") != S::npos || rt.t == "bool") rt = type();
		o.attributes = OPT(CodeAttributes, "attributes", ATTR, ok_attr()); o.specifiers = OPT(CodeSpecifiers, "specifiers", SPEC, ok_specs()); o.body = OPT(CodeBody, "body", FBX, ok_fnbody());
		o.ret_type = V("ret_type") ? as<CodeTypename>(wrong(TYPE, true)) : rt.c; bool bop = V("operator"), bpar = V("parameter kind"), barity = V("number of parameters"); int n = q.lo; if (q.hi > q.lo) n = R.range(q.lo, q.hi > 2 ? 2 : q.hi);
		if (barity && q.op == Op_FunctionCall) q = { Op_Subscript, 1, 9, true }; if (barity) { if (q.need && R.chance(40)) n = 0; else if (q.hi < 9) n = q.hi + R.range(1, 2); else n = 0; HIST("%d parameters", n); }
		CodeParams p = { nullptr }; for (int i = 0; i < n; i++) { CodeParams x = def_param(i == 1 && (q.op == Op_Increment || q.op == Op_Decrement) ? t_int : o.ret_type && o.ret_type->Type == CT_Typename ? o.ret_type : rt.c, mk(ident("o"))); if (!p) p = x; else params_append(p, x); }
		o.params = bpar ? as<CodeParams>(wrong(PARS)) : p; Operator op = bop ? Op_Invalid : q.op; HIST("operator %s", operator_to_str(op).Ptr); Str ns = R.chance(30) ? mk("A::B::") : Str{ nullptr, 0 };
		CALL("def_operator", def_operator(op, ns, o)); } break;
	case 16: NS(3); { Opts_def_operator_cast o = {}; CodeTypename t = REQ(CodeTypename, "type", TYPE, ok_type()); o.body = OPT(CodeBody, "body", FBX, fn_body(1, true, false).c); o.specs = OPT(CodeSpecifiers, "specs", SPEC, cast(Code, def_specifier(Spec_Const))); CALL("def_operator_cast", def_operator_cast(t, o)); } break;
	case 17: NS(3); { Opts_def_param o = {}; CodeTypename t = REQ(CodeTypename, "type", TYPE, ok_type()); Str n = nm("name"); o.value = OPT(Code, "value", UNT, ok_untyped()); CALL("def_param", def_param(t, n, o)); } break;
	case 18: NS(1); { Str t = nm("content"); CALL("def_pragma", def_pragma(t)); } break;
	case 19: NS(2); { Str t = nm("expression"); EPreprocessCond c = R.pick({ PreprocessCond_If, PreprocessCond_IfDef, PreprocessCond_IfNotDef, PreprocessCond_ElIf }); if (V("kind of conditional")) c = (EPreprocessCond)R.range(4, 9); CALL("def_preprocess_cond", def_preprocess_cond(c, t)); } break;
	case 20: NS(1); { Specifier s = R.pick({ Spec_Const, Spec_Static, Spec_Ptr }); if (V("specifier")) s = R.chance(50) ? Spec_Invalid : (Specifier)(Spec_NumSpecifiers + R.below(3)); CALL("def_specifier", def_specifier(s)); } break;
	case 21: NS(2); { int n = R.range(1, 4); Specifier a[40]; for (auto& s : a) s = R.pick({ Spec_Const, Spec_Static, Spec_Ptr, Spec_Inline }); if (V("specifier")) a[R.below(n)] = R.chance(50) ? Spec_Invalid : (Specifier)(Spec_NumSpecifiers + R.below(3)); if (V("number")) n = R.pick({ 0, -1, -5, (int)AST_ArrSpecs_Cap + 1, (int)AST_ArrSpecs_Cap + 9 }); HIST("%d specifiers", n);
		if (R.chance(50)) CALL("def_specifiers", def_specifiers(n, a[0], a[1], a[2], a[3])); else CALL("def_specifiers_arr", def_specifiers_arr(n, a)); } break;
	case 22: NS(2); { CodeParams p = OPT(CodeParams, "params", PARS, ok_params()); Code d = REQ(Code, "declaration", (K{ CT_Class, CT_Function, CT_Struct, CT_Variable, CT_Using, CT_Class_Fwd, CT_Struct_Fwd, CT_Function_Fwd, CT_Operator, CT_Operator_Fwd, CT_Operator_Member, CT_Operator_Member_Fwd, CT_Operator_Cast, CT_Operator_Cast_Fwd, CT_Union, CT_Union_Fwd, CT_Constructor, CT_Constructor_Fwd, CT_Friend }), record(IN_FN, 1, R.chance(50), false).c); CALL("def_template", def_template(p, d)); } break;
	case 23: NS(4); { Opts_def_type o = {}; Str n = nm("name"); o.attributes = OPT(CodeAttributes, "attributes", ATTR, ok_attr()); o.specifiers = OPT(CodeSpecifiers, "specifiers", SPEC, ok_specs()); o.array_expr = OPT(Code, "array_expr", UNT, ok_untyped()); CALL("def_type", def_type(n, o)); } break;
	case 24: NS(3); { Opts_def_typedef o = {}; Str n = nm("name"); o.attributes = OPT(CodeAttributes, "attributes", ATTR, ok_attr()); Code t = REQ(Code, "type", (K{ CT_Class, CT_Class_Fwd, CT_Enum, CT_Enum_Fwd, CT_Enum_Class, CT_Enum_Class_Fwd, CT_Function_Fwd, CT_Struct, CT_Struct_Fwd, CT_Union, CT_Union_Fwd, CT_Typename, CT_Untyped, CT_Parameters_Define }), R.chance(50) ? ok_type() : record(IN_FN, 1, false, false).c); CALL("def_typedef", def_typedef(n, t, o)); } break;
	case 25: NS(2); { Opts_def_union o = {}; CodeBody b = REQ(CodeBody, "body", (K{ CT_Union_Body, CT_Untyped }), cast(Code, def_union_body(1, untyped_str(mk("int a;\n"))))); o.attributes = OPT(CodeAttributes, "attributes", ATTR, ok_attr()); CALL("def_union", def_union(mk(ident("U")), b, o)); } break;
	case 26: NS(3); { Opts_def_using o = {}; Str n = nm("name"); CodeTypename t = REQ(CodeTypename, "type", TYPE, ok_type()); o.attributes = OPT(CodeAttributes, "attributes", ATTR, ok_attr()); CALL("def_using", def_using(n, t, o)); } break;
	case 27: NS(1); { Str t = nm("name"); CALL("def_using_namespace", def_using_namespace(t)); } break;
	case 28: NS(5); { Opts_def_variable o = {}; CodeTypename t = REQ(CodeTypename, "type", TYPE, ok_type()); Str n = nm("name"); o.value = OPT(Code, "value", UNT, ok_untyped()); o.specifiers = OPT(CodeSpecifiers, "specifiers", SPEC, ok_specs()); o.attributes = OPT(CodeAttributes, "attributes", ATTR, ok_attr()); CALL("def_variable", def_variable(t, n, o)); } break;
	case 29: case 30: case 31: case 32: case 33: case 34: case 35: case 36: case 37: { NS(3); // bodies
		const int kind = f - 29; int n = R.range(1, 5); Code a[8]; K const& dis = kind < 2 ? IN_REC : kind == 2 ? IN_FUN : IN_GLO; bool bn = V("number"), be = V("entry"), b2 = V("array or second entry");
		for (auto& c : a) c = Code{ nullptr };
		for (int i = 0; i < n; i++) a[i] = kind >= 7 ? (R.chance(50) ? cast(Code, def_comment(mk("c"))) : untyped_str(mk("A"))) : kind == 2 ? stmt().c : decl(kind < 2 ? IN_CLASS : kind == 3 ? IN_NS : IN_GLOBAL, 1).c;
		auto bad = [&]() { if (R.chance(25)) { HIST("a null entry"); return Code{ nullptr }; } if (kind >= 7) return wrong(K{ CT_Untyped, CT_Comment }, true); return of_kind(dis); };
		int at = R.below(n); if (be) a[at] = bad(); bool arr = R.chance(50); if (b2) { if (arr && R.chance(40)) HIST("no array"); else { a[R.below(n)] = bad(); b2 = false; } }
		int k = bn ? R.pick({ 0, -1, -9 }) : n; HIST("%d entries, bad at %d", k, at); Code* p = arr && b2 ? nullptr : a;
#define BODY(fn, fna) if (arr) CALL(#fna, fna(k, p)); else CALL(#fn, fn(k, a[0], a[1], a[2], a[3], a[4]))
		switch (kind) { case 0: BODY(def_class_body, def_class_body_arr); break; case 1: BODY(def_struct_body, def_struct_body_arr); break; case 2: BODY(def_function_body, def_function_body_arr); break; case 3: BODY(def_namespace_body, def_namespace_body_arr); break; case 4: BODY(def_global_body, def_global_body_arr); break; case 5: BODY(def_extern_link_body, def_extern_link_body_arr); break; case 6: BODY(def_export_body, def_export_body_arr); break; case 7: BODY(def_enum_body, def_enum_body_arr); break; default: BODY(def_union_body, def_union_body_arr); } } break;
	case 38: NS(3); { int n = R.range(1, 4); CodeParams a[4] = { { nullptr }, { nullptr }, { nullptr }, { nullptr } }; for (int i = 0; i < n; i++) a[i] = as<CodeParams>(param1().c); bool bn = V("number"), be = V("entry"), b2 = V("array or second entry"), arr = R.chance(50); if (be) a[R.below(n)] = as<CodeParams>(wrong(PARS, true)); CodeParams* p = a; if (b2) { if (arr && R.chance(40)) { HIST("no array"); p = nullptr; } else a[R.below(n)] = as<CodeParams>(wrong(PARS, true)); } int k = bn ? R.pick({ 0, -1, -9 }) : n; HIST("%d entries", k);
		if (arr) CALL("def_params_arr", def_params_arr(k, p)); else CALL("def_params", def_params(k, a[0], a[1], a[2], a[3])); } break;
	case 39: NS(3); { const K DP = { CT_Parameters_Define }; int n = R.range(1, 4); CodeDefineParams a[4]; for (int i = 0; i < 4; i++) a[i] = i < n ? mk_dparam() : CodeDefineParams{ nullptr }; bool bn = V("number"), be = V("entry"), b2 = V("array or second entry"), arr = R.chance(50); if (be) a[R.below(n)] = as<CodeDefineParams>(wrong(DP, true)); CodeDefineParams* p = a; if (b2) { if (arr && R.chance(40)) { HIST("no array"); p = nullptr; } else a[R.below(n)] = as<CodeDefineParams>(wrong(DP, true)); } int k = bn ? R.pick({ 0, -1, -9 }) : n; HIST("%d entries", k);
		if (arr) CALL("def_define_params_arr", def_define_params_arr(k, p)); else CALL("def_define_params", def_define_params(k, a[0], a[1], a[2], a[3])); } break;
	case 40: NS(1); { CodeType t = R.pick({ CT_Class_Body, CT_Enum_Body, CT_Export_Body, CT_Extern_Linkage_Body, CT_Function_Body, CT_Global_Body, CT_Namespace_Body, CT_Struct_Body, CT_Union_Body }); if (V("kind of body")) do t = (CodeType)R.below(CT_NumTypes); while (codetype_to_str(t).Len > 4 && S(codetype_to_str(t).Ptr, codetype_to_str(t).Len).find("Body") != S::npos); HIST("body of kind %s", codetype_to_str(t).Ptr); CALL("def_body", def_body(t)); } break;
	}
}
enum { NCALLS = 41 };
static std::map<S, long> cover;
static void vp_round_fn(long r) {
	if (!started) { init(&ctx); started = true; }
	if (r % 100 == 99) { reset(&ctx); types.clear(); shared_params.clear(); pool.clear(); }
	uid = r * 1000 % 1000000; pool.erase(std::remove_if(pool.begin(), pool.end(), [](Code c) { return !c; }), pool.end());
	if (pool.empty()) { // some node of every kind
		for (int i = 0; i < 12; i++) walk(body(IN_GLOBAL, CT_Global_Body, 1, 6, 3).c, 0);
		add(cast(Code, access_public)); add(cast(Code, access_private)); add(cast(Code, access_protected)); add(cast(Code, fmt_newline)); add(cast(Code, preprocess_else)); add(cast(Code, preprocess_endif)); add(ok_attr()); add(ok_specs()); add(ok_type()); add(ok_untyped()); add(ok_params()); add(cast(Code, def_params(2, def_param(t_int, mk("a")), def_param(t_int, mk("b"))))); add(cast(Code, mk_dparam())); add(cast(Code, def_execution(mk("x;")))); add(record(IN_CLASS, 1, true, false).c); add(record(IN_CLASS, 1, false, false).c); add(enumeration(IN_GLOBAL).c);
		for (auto t : { CT_Class_Body, CT_Enum_Body, CT_Export_Body, CT_Function_Body, CT_Global_Body, CT_Namespace_Body, CT_Struct_Body, CT_Union_Body }) { CodeBody b = def_body(t); body_append(b, cast(Code, def_comment(mk("in a body")))); add(cast(Code, b)); }
		add(body(IN_GLOBAL, CT_Extern_Linkage_Body, 1, 2, 1).c); for (int i = 0; i < 6; i++) { walk(decl(IN_CLASS, 2).c, 0); add(op_overload(IN_CLASS, 1).c); add(op_overload(IN_GLOBAL, 1).c); }
	}
	for (int i = 0; i < 2; i++) walk(decl(R.pick({ IN_GLOBAL, IN_CLASS, IN_NS }), 2).c, 0);
	int f = R.below(NCALLS), slots = 0; S who; int nb = R.below(10) < 2 ? 0 : R.chance(70) ? 1 : 2;
	bad_slots.clear(); broke.clear(); slot_no = 0; call(f, who, slots, false); while ((int)bad_slots.size() < nb && (int)bad_slots.size() < slots) bad_slots.insert(R.below(slots));
	result = Code{ nullptr }; stopped = false; call(f, who, slots, true); drop_bufs();
	if (broke.empty()) {
		if (stopped) VIOL("refused: " + who, "a valid call of %s is stopped", who.c_str());
		if (!result || result == Code_Invalid || result->Type == CT_Invalid) VIOL("refused: " + who, "a valid call of %s is refused", who.c_str());
		COUNT("valid calls: " + who); S t = code_text(result); (void)t; if (R.chance(50)) walk(result, 4);
	} else {
		COUNT("refusals: " + who + (stopped ? " (diagnosed stop)" : ""));
		if (stopped) { }
		else if (result != Code_Invalid) VIOL("accepted: " + who, "%s with a bad %s returns %s", who.c_str(), broke.c_str(), result ? kname(result) : "null");
		compare(who);
		if (!Code_Invalid || Code_Invalid->Type != CT_Invalid) VIOL("invalid code changed", "%s", broke.c_str());
		for (int i = 0; i < 3; i++) { Code c = pool[R.below(pool.size())]; S t = code_text(c); (void)t; }
	}
}
