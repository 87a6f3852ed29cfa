// P24: members, overloads, operators and conversions of the C++ interface against the functions they stand for.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#undef check
#define VP_QUIET
#include "model.h"
#include "build.h"
#include "fields.h"
#include <unistd.h>
static bool started; static Context ctx;
static S sb(StrBuilder s) { return S((char*)s, (size_t)strbuilder_length(s)); }
#define SAME(what, a, b) do { auto a_ = (a); auto b_ = (b); COUNT(what); if (!(a_ == b_)) VIOL(what, "the member or overload gives another result than its function"); } while (0)
#define SAMETEXT(what, a, b) do { S a_ = (a), b_ = (b); COUNT(what); if (a_ != b_) VIOL(what, "'%s' where the function gives '%s'", a_.substr(0, 200).c_str(), b_.substr(0, 200).c_str()); } while (0)
// ---- text
static S word(int lo, int hi) { S s; for (int n = R.range(lo, hi); n--; ) s += R.pick({ 'a', 'b', ' ', '\n', '\t', 'x', '/', '\r' }); return s; }
static void strings() {
	S a = word(1, 12), b = R.chance(60) ? a.substr(0, R.below(a.size()) + 1) : word(1, 4); if (R.chance(30) && a.size() > 2) b = a.substr(1 + R.below(a.size() - 1)); if (R.chance(25)) b = a; HIST("text '%s' and '%s'", a.c_str(), b.c_str());
	Str x = mk(a), y = mk(b);
	SAME("Str::is_equal", x.is_equal(y), str_are_equal(x, y)); SAME("Str::back", x.back(), str_back(x)); SAME("Str::contains", x.contains(y), str_contains(x, y)); SAME("Str::starts_with", x.starts_with(y), str_starts_with(x, y));
	SAMETEXT("Str::duplicate", text(x.duplicate(heap())), a); SAMETEXT("Str::visualize_whitespace", text(x.visualize_whitespace(heap())), text(str_visualize_whitespace(x, heap())));
	SAME("Str operator char const*", (char const*)x, x.Ptr); SAME("begin(Str)", begin(x), str_begin(x)); SAME("end(Str)", end(x), str_end(x)); SAME("next(Str)", next(x, x.Ptr), str_next(x, x.Ptr)); for (ssize i = 0; i < x.Len; i++) SAME("Str operator []", & x[i], x.Ptr + i);
	AllocatorInfo h = heap(); StrBuilder p, q;
	switch (R.below(5)) {
	case 0: p = StrBuilder::make(h, a.c_str()); q = strbuilder_make_c_str(h, a.c_str()); break; case 1: p = StrBuilder::make(h, x); q = strbuilder_make_str(h, x); break;
	case 2: { ssize c = R.range(1, 40); p = StrBuilder::make_reserve(h, c); q = strbuilder_make_reserve(h, c); SAME("StrBuilder::capacity", p.capacity(), strbuilder_capacity(q)); p.append(x); strbuilder_append_str(&q, x); break; }
	case 3: p = StrBuilder::make_length(h, a.c_str(), a.size() / 2 + 1); q = strbuilder_make_length(h, a.c_str(), a.size() / 2 + 1); break;
	default: { char const* parts[3] = { a.c_str(), b.c_str(), "z" }; p = StrBuilder::join(h, parts, 3, "|"); q = strbuilder_join(h, parts, 3, "|"); } }
	SAMETEXT("StrBuilder made", sb(p), sb(q));
	for (int steps = R.range(1, 8); steps--; ) { S what; int k = R.below(17);
		switch (k) {
		case 0: what = "append(char)"; p.append('c'); strbuilder_append_char(&q, 'c'); break; case 1: what = "append(c string)"; p.append(b.c_str()); strbuilder_append_c_str(&q, b.c_str()); break; case 2: what = "append(c string, length)"; { S z = a; if (R.chance(50)) for (auto& c : z) if (R.chance(30)) c = 0; ssize n = R.range(0, (int)z.size()); if (R.chance(50)) p.append(z.c_str(), n); else append(p, z.c_str(), n); strbuilder_append_c_str_len(&q, z.c_str(), n); } break;
		case 3: what = "append(Str)"; p.append(y); strbuilder_append_str(&q, y); break; case 4: { what = "append(StrBuilder)"; StrBuilder o = strbuilder_make_str(h, y); p.append(o); strbuilder_append_string(&q, o); strbuilder_free(&o); break; }
		case 5: what = "append_fmt"; p.append_fmt("%s-%d", b.c_str(), 42); strbuilder_append_fmt(&q, "%s-%d", b.c_str(), 42); break; case 6: if (R.chance(80)) continue; what = "clear"; p.clear(); strbuilder_clear(q); break; case 7: what = "trim"; p.trim("ab"); strbuilder_trim(q, "ab"); break; case 8: what = "trim_space"; p.trim_space(); strbuilder_trim_space(q); break;
		case 9: what = "skip_line"; p.skip_line(); strbuilder_skip_line(q); break; case 10: what = "strip_space"; p.strip_space(); strbuilder_strip_space(q); break;
		case 11: what = "append(overload)"; append(p, 'd'); append(p, b.c_str()); append(p, a.c_str(), (ssize)1); append(p, y); strbuilder_append_char(&q, 'd'); strbuilder_append_c_str(&q, b.c_str()); strbuilder_append_c_str_len(&q, a.c_str(), 1); strbuilder_append_str(&q, y); break;
		case 12: { what = "append(StrBuilder overload)"; StrBuilder o = strbuilder_make_str(h, y); append(p, o); strbuilder_append_string(&q, o); strbuilder_free(&o); break; } case 13: what = "append_fmt(overload)"; append_fmt(p, "%d %s", 7, "t"); strbuilder_append_fmt(&q, "%d %s", 7, "t"); break;
		case 14: { what = "duplicate"; StrBuilder d = p.duplicate(h); p.free(); p = d; break; } case 15: what = "make_space_for"; { S add = word(1, 60); if (R.chance(50)) { p.make_space_for(add.c_str(), add.size()); } else make_space_for(p, add.c_str(), add.size()); strbuilder_make_space_for(&q, add.c_str(), add.size()); } break;
		default: if (R.chance(80)) continue; what = "clear(overload)"; clear(p); strbuilder_clear(q); break; }
		HIST("%s", what.c_str()); SAMETEXT(("StrBuilder " + what).c_str(), sb(p), sb(q)); SAMETEXT("StrBuilder terminated", S((char*)p), S((char*)q));
	}
	SAME("StrBuilder::length", p.length(), strbuilder_length(q)); SAME("StrBuilder::get_header", p.get_header().Length, strbuilder_get_header(q)->Length); SAME("StrBuilder::avail_space", p.avail_space(), strbuilder_avail_space(p)); SAME("StrBuilder::capacity", p.capacity(), strbuilder_capacity(p));
	if (p.length()) { SAME("StrBuilder::back", p.back(), strbuilder_back(p)); SAME("back(StrBuilder)", & back(p), strbuilder_back(p)); for (ssize i = 0; i < p.length(); i++) SAME("StrBuilder operator []", & p[i], (char*)p + i); }
	StrBuilder o = strbuilder_make_str(h, R.chance(50) ? mk(sb(p)) : y); Str os = strbuilder_to_str(o);
	SAME("StrBuilder::contains(Str)", p.contains(y), strbuilder_contains_str(q, y)); SAME("StrBuilder::contains(StrBuilder)", p.contains(o), strbuilder_contains_string(q, o)); SAME("StrBuilder::is_equal(StrBuilder)", p.is_equal(o), strbuilder_are_equal(q, o)); SAME("StrBuilder::is_equal(Str)", p.is_equal(os), strbuilder_are_equal_str(q, os));
	SAME("StrBuilder::starts_with(Str)", p.starts_with(y), strbuilder_starts_with_str(q, y)); SAME("StrBuilder::starts_with(StrBuilder)", p.starts_with(o), strbuilder_starts_with_string(q, o)); SAMETEXT("StrBuilder::to_str", text(p.to_str()), sb(q)); SAMETEXT("StrBuilder operator Str", text((Str)p), sb(q));
	SAMETEXT("StrBuilder::visualize_whitespace", sb(p.visualize_whitespace()), sb(strbuilder_visualize_whitespace(q)));
	SAME("StrBuilder begin", p.begin(), strbuilder_begin(p)); SAME("StrBuilder end", p.end(), strbuilder_end(p)); SAME("begin(StrBuilder)", begin(p), strbuilder_begin(p)); SAME("end(StrBuilder)", end(p), strbuilder_end(p)); SAME("next(StrBuilder)", next(p, (char*)p), strbuilder_next(p, (char*)p));
	SAME("StrBuilder::grow_formula", StrBuilder::grow_formula(a.size()), strbuilder_grow_formula(a.size())); { S it; for (char c : p) it += c; SAMETEXT("for over StrBuilder", it, sb(q)); S is; for (char c : x) is += c; SAMETEXT("for over Str", is, a); }
	{ char buf[400]; StrBuilder f = StrBuilder::fmt(h, buf, sizeof buf, "%s<%d>", a.c_str(), 5), g = strbuilder_fmt(h, buf, sizeof buf, "%s<%d>", a.c_str(), 5); SAMETEXT("StrBuilder::fmt", sb(f), sb(g)); StrBuilder f2 = StrBuilder::fmt_buf(h, "%s<%d>", a.c_str(), 6), g2 = strbuilder_fmt_buf(h, "%s<%d>", a.c_str(), 6); SAMETEXT("StrBuilder::fmt_buf", sb(f2), sb(g2)); f.free(); free(g); f2.free(); g2.free(); SAME("StrBuilder freed", f == nullptr, g == nullptr); }
	{ StrBuilder n = { nullptr }; SAME("StrBuilder == nullptr", n == nullptr, true); SAME("StrBuilder != nullptr", n != nullptr, false); SAME("StrBuilder == nullptr", p == nullptr, false); SAME("StrBuilder != nullptr", p != nullptr, true); SAME("nullptr == StrBuilder", nullptr == n, true); SAME("nullptr != StrBuilder", nullptr != p, true); SAME("nullptr == StrBuilder", nullptr == p, false); SAME("nullptr != StrBuilder", nullptr != n, false); }
	p.free(); q.free(); o.free();
}
// ---- memory
static S arena_txt(Arena const& a) { return std::to_string(a.TotalSize) + " " + std::to_string(a.TotalUsed) + " " + std::to_string(a.TempCount); }
static void memory() {
	static char m1[8192], m2[8192]; memset(m1, 1, sizeof m1); memset(m2, 1, sizeof m2); ssize n = R.range(200, 8000); bool heapb = R.chance(40); ssize al = R.pick({ 8, 16, 32, 64 });
	Arena a = heapb ? Arena::init_from_allocator(heap(), n) : Arena::init_from_memory(m1, n), b = heapb ? arena_init_from_allocator(heap(), n) : arena_init_from_memory(m2, n); SAMETEXT("Arena init", arena_txt(a), arena_txt(b));
	auto off = [](Arena const& x, void* p) { return p ? (char*)p - (char*)x.PhysicalStart : -1; };
	for (int k = R.range(1, 10); k--; ) { ssize s = R.range(1, 300); AllocatorInfo i = R.chance(50) ? (AllocatorInfo)a : allocator_info(a), j = arena_allocator_info(&b); void* p, *q; if (a.size_remaining(16) < s + 64) break;
		SAME("Arena info data", i.Data, (void*)&a); HIST("alloc %ld", (long)s); if (R.chance(30)) { p = Arena::allocator_proc(&a, EAllocation_ALLOC, s, 16, nullptr, 0, 0); q = arena_allocator_proc(&b, EAllocation_ALLOC, s, 16, nullptr, 0, 0); } else { p = alloc_align(i, s, 16); q = alloc_align(j, s, 16); }
		if (heapb) { SAME("Arena alloc", p != nullptr, q != nullptr); } else { SAME("Arena alloc offset", off(a, p) - off(b, q) < 16 && off(b, q) - off(a, p) < 16, true); } }
	SAME("Arena::size_remaining", a.size_remaining(al), arena_size_remaining(&a, al)); SAME("size_remaining(Arena)", size_remaining(a, al), arena_size_remaining(&a, al)); SAME("Arena::alignment_of", a.alignment_of(al), arena_alignment_of(&a, al)); SAME("alignment_of(Arena)", alignment_of(a, al), arena_alignment_of(&a, al));
	a.check(); check(a); if (heapb) { Arena c = R.chance(50) ? Arena::init_sub(a, 100) : init_sub(a, 100), d = arena_init_sub(&a, 100); SAMETEXT("Arena init_sub", arena_txt(c), arena_txt(d)); if (R.chance(50)) c.free(); else free(c); arena_free(&d); SAME("Arena freed", c.PhysicalStart, d.PhysicalStart); if (R.chance(50)) a.free(); else free(a); arena_free(&b); SAME("Arena freed", a.PhysicalStart, b.PhysicalStart); }
	{ static FixedArena<1024> f; f = FixedArena<1024>::init(); fixed_arena_init(&f); ssize k = R.range(1, 400); void* p = alloc_align(R.chance(50) ? (AllocatorInfo)f : allocator_info(f), k, 16); if (!p || (char*)p < f.memory || (char*)p + k > f.memory + 1024) VIOL("FixedArena alloc", "outside of its memory"); SAME("FixedArena::size_remaining", f.size_remaining(16), fixed_arena_size_remaining(&f, 16)); SAME("size_remaining(FixedArena)", size_remaining(f, 16), fixed_arena_size_remaining(&f, 16)); }
	ssize nb = R.range(2, 9), bs = R.pick({ 16, 24, 64, 100 }); Pool p = R.chance(50) ? Pool::init(heap(), nb, bs) : Pool::init_align(heap(), nb, bs, GEN_DEFAULT_MEMORY_ALIGNMENT), q = pool_init(heap(), nb, bs);
	auto pt = [](Pool const& x) { return std::to_string(x.BlockSize) + " " + std::to_string(x.BlockAlign) + " " + std::to_string(x.TotalSize) + " " + std::to_string(x.NumBlocks); }; SAMETEXT("Pool init", pt(p), pt(q));
	int k = R.range(1, nb); for (int i = 0; i < k; i++) { AllocatorInfo ai = R.chance(50) ? (AllocatorInfo)p : allocator_info(p); SAME("Pool info data", ai.Data, (void*)&p); void* x = R.chance(30) ? Pool::allocator_proc(&p, EAllocation_ALLOC, bs, GEN_DEFAULT_MEMORY_ALIGNMENT, nullptr, 0, 0) : alloc_align(ai, bs, GEN_DEFAULT_MEMORY_ALIGNMENT); void* y = alloc_align(pool_allocator_info(&q), bs, GEN_DEFAULT_MEMORY_ALIGNMENT); SAME("Pool alloc", x != nullptr, y != nullptr); SAMETEXT("Pool after alloc", pt(p), pt(q)); }
	if (R.chance(50)) p.clear(); else clear(p); pool_clear(&q); SAMETEXT("Pool cleared", pt(p), pt(q)); SAME("Pool cleared list", p.FreeList != nullptr, q.FreeList != nullptr); if (R.chance(50)) p.free(); else free(p); pool_free(&q); COUNT("memory");
}
// ---- code
template<class T> static void node_of(const char* name, T k, Code c, Code other) {
	HIST("%s", name);
	SAMETEXT("debug_str", text(k.debug_str()), text(code_debug_str(c))); SAME("is_equal", k.is_equal(c), true); SAME("is_equal other", k.is_equal(other), code_is_equal(c, other)); SAME("is_body", k.is_body(), code_is_body(c)); SAME("is_valid", k.is_valid(), code_is_valid(c));
	Code d = k.duplicate(); S t, here = code_text(c); t = code_text(code_duplicate(c)); SAMETEXT("duplicate", code_text(d), t); SAME("duplicate is another node", d == c, false);
	SAME("== Code", k == c, true); SAME("!= Code", k != c, false); SAME("== other Code", k == d, false); SAME("!= other Code", k != d, true); SAME("== nullptr", k == nullptr, false); SAME("!= nullptr", k != nullptr, true); SAME("operator bool", (bool)k, true);
	Code back = k; SAME("operator Code", (void*)back.ast, (void*)c.ast); SAME("operator ->", (void*)k.operator->(), (void*)c.ast);
	T n = { nullptr }; SAME("null == nullptr", n == nullptr, true); SAME("null operator bool", (bool)n, false); SAME("null != nullptr", n != nullptr, false);
	n = d; SAME("operator = Code", (void*)n.ast, (void*)d.ast); SAMETEXT("operator = Code text", code_text(cast(Code, n)), t); T n2 = { nullptr }; n2 = c; { S u = code_text(cast(Code, n2)); SAMETEXT("operator = Code of a body", u, u == t ? t : here); } SAMETEXT("after operator =", code_text(c), here);
	T null = NullCode; SAME("NullCode", (void*)null.ast, (void*)nullptr); T inv = InvalidCode; SAME("InvalidCode", (void*)inv.ast, (void*)Code_Invalid.ast);
	T g = cast(T, d); g.set_global(); SAME("set_global", (void*)d->Parent.ast, (void*)Code_Global.ast);
	COUNT(S("members of ") + name);
}
#define CONV(T) { T k = (T)c; SAME("Code operator " #T, (void*)k.ast, (void*)c.ast); node_of<T>(#T, k, c, other); T m = tmpl_cast<T>(c); SAME("tmpl_cast", (void*)m.ast, (void*)c.ast); }
static void node(Code c, Code other) {
	SAMETEXT("Code::debug_str", text(c.debug_str()), text(code_debug_str(c))); SAMETEXT("Code::type_str", text(c.type_str()), text(code_type_str(c))); SAME("Code::has_entries", c.has_entries(), code_has_entries(c)); SAMETEXT("Code::to_strbuilder", sb(c.to_strbuilder()), code_text(c)); SAME("Code::is_body", c.is_body(), code_is_body(c)); SAME("Code::is_equal", c.is_equal(other), code_is_equal(c, other)); SAME("Code::is_valid", c.is_valid(), code_is_valid(c)); SAMETEXT("Code::duplicate", code_text(c.duplicate()), code_text(code_duplicate(c)));
	SAMETEXT("codetype to_str", text(to_str(c->Type)), text(codetype_to_str(c->Type))); { Str kw = codetype_to_keyword_str(c->Type); SAMETEXT("codetype to_keyword_str", text(to_keyword_str(c->Type)), text(kw)); static const struct { CodeType t; const char* k; } W[] = { { CT_Class, "class" }, { CT_Struct, "struct" }, { CT_Union, "union" }, { CT_Enum, "enum" }, { CT_Namespace, "namespace" }, { CT_Template, "template" }, { CT_Typedef, "typedef" }, { CT_Using, "using" }, { CT_Friend, "friend" } }; for (auto& w : W) if (c->Type == w.t) SAMETEXT("keyword of a kind", text(kw), w.k); }
	if (c.is_body()) { SAME("Code::validate_body", c.validate_body(), code_validate_body(c)); for (int i = 0; i < c->NumEntries && i < 6; i++) SAME("Code::entry", (void*)c.entry(i), (void*)code_entry(c, i)); }
	{ Code inv = InvalidCode, nul = NullCode; CodeModule im = InvalidCode, nm = NullCode; SAME("InvalidCode as Code", inv.ast, Code_Invalid.ast); SAME("NullCode as Code", nul.ast, (AST*)nullptr); SAME("InvalidCode as CodeModule", (void*)im.ast, (void*)Code_Invalid.ast); SAME("NullCode as CodeModule", (void*)nm.ast, (void*)nullptr); }
	#define TEXTS(member, fn) { StrBuilder s1 = strbuilder_make_reserve(heap(), 32), s2 = strbuilder_make_reserve(heap(), 32); member(s1); fn(k, &s2); SAMETEXT(#member, sb(s1), sb(s2)); COUNT(#fn); s1.free(); s2.free(); }
	if (c->Type == CT_Preprocess_Else) { CodePreprocessCond k = (CodePreprocessCond)c; TEXTS(k.to_strbuilder_else, preprocess_to_strbuilder_else) }
	if (c->Type == CT_Preprocess_EndIf) { CodePreprocessCond k = (CodePreprocessCond)c; TEXTS(k.to_strbuilder_endif, preprocess_to_strbuilder_endif) }
	if (c->Type == CT_Union_Fwd) { CodeUnion k = (CodeUnion)c; TEXTS(k.to_strbuilder_fwd, union_to_strbuilder_fwd) }
	SAME("Code == ", c == c, true); SAME("Code !=", c != other, c.ast != other.ast); SAME("Code == nullptr", c == nullptr, false); SAME("Code bool", (bool)c, true); SAME("* Code", (* c).ast, c.ast); SAME("Code ->", c.operator->(), c.ast);
	switch (c->Type) {
	case CT_Class_Body: case CT_Enum_Body: case CT_Export_Body: case CT_Extern_Linkage_Body: case CT_Function_Body: case CT_Global_Body: case CT_Namespace_Body: case CT_Struct_Body: case CT_Union_Body: {
		CONV(CodeBody) CodeBody b = (CodeBody)c; SAME("CodeBody::begin", b.begin().ast, begin_CodeBody(b).ast); SAME("CodeBody::end", b.end().ast, end_CodeBody(b).ast); SAME("begin(CodeBody)", begin(b).ast, begin_CodeBody(b).ast); SAME("end(CodeBody)", end(b).ast, end_CodeBody(b).ast); SAME("CodeBody::has_entries", b.has_entries(), code_has_entries(c));
		{ std::vector<AST*> one, two; for (Code e : b) { one.push_back(e.ast); if (one.size() > 100000) break; } for (Code e = begin_CodeBody(b); e.ast != end_CodeBody(b).ast; e = Code{ next_CodeBody(b, e).ast }) two.push_back(e.ast); SAME("for over CodeBody", one == two, true); Code w = begin_CodeBody(b); for (AST* e : two) { SAME("++Code", w.ast, e); ++w; } }
		Code x = begin(b), y = begin_CodeBody(b); for (int i = 0; i < c->NumEntries; i++) { SAME("next(CodeBody)", x.ast, y.ast); x = Code{ next(b, x).ast }; y = Code{ next_CodeBody(b, y).ast }; }
		if (c->NumEntries < 40) { CodeBody d1 = def_body(c->Type), d2 = def_body(c->Type), d3 = def_body(c->Type); for (Code e = b.begin(); e != b.end(); e = next_CodeBody(b, e)) { Code e1 = code_duplicate(e), e2 = code_duplicate(e), e3 = code_duplicate(e); if (R.chance(50)) d1.append(e1); else append(d1, e1); body_append(d2, e2); cast(Code, d3).append(e3); } SAMETEXT("CodeBody::append(Code)", code_text(cast(Code, d1)), code_text(cast(Code, d2))); if (c->Type != CT_Export_Body) SAMETEXT("Code::append", code_text(cast(Code, d3)), code_text(cast(Code, d2)));
			CodeBody s1 = def_body(c->Type), s2 = def_body(c->Type); if (R.chance(50)) s1.append(b); else append(s1, b); body_append_body(s2, b); SAMETEXT("CodeBody::append(CodeBody)", code_text(cast(Code, s1)), code_text(cast(Code, s2))); }
		if (c->Type == CT_Export_Body) { StrBuilder s1 = strbuilder_make_reserve(heap(), 32), s2 = strbuilder_make_reserve(heap(), 32), s3 = strbuilder_make_reserve(heap(), 32); b.to_strbuilder_export(s1); body_to_strbuilder_export(b, &s2); to_strbuilder_export(b, s3); SAMETEXT("CodeBody::to_strbuilder_export", sb(s1), sb(s2)); SAMETEXT("to_strbuilder_export", sb(s3), sb(s2)); s1.free(); s2.free(); s3.free(); }
		break; }
	case CT_PlatformAttributes: CONV(CodeAttributes) break; case CT_Comment: CONV(CodeComment) break; case CT_Class: case CT_Class_Fwd: CONV(CodeClass) break; case CT_Constructor: case CT_Constructor_Fwd: CONV(CodeConstructor) break; case CT_Preprocess_Define: CONV(CodeDefine) break;
	case CT_Destructor: case CT_Destructor_Fwd: CONV(CodeDestructor) break; case CT_Execution: CONV(CodeExec) break; case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: CONV(CodeEnum) break; case CT_Extern_Linkage: CONV(CodeExtern) break; case CT_Preprocess_Include: CONV(CodeInclude) break; case CT_Friend: CONV(CodeFriend) break; case CT_Function: case CT_Function_Fwd: CONV(CodeFn) break; case CT_Module: CONV(CodeModule) break; case CT_Namespace: CONV(CodeNS) break;
	case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: CONV(CodeOperator) { SAMETEXT("operator to_str", text(to_str(c->Op)), text(operator_to_str(c->Op))); } break; case CT_Operator_Cast: case CT_Operator_Cast_Fwd: CONV(CodeOpCast) break; case CT_Preprocess_Pragma: CONV(CodePragma) break;
	case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf: case CT_Preprocess_Else: case CT_Preprocess_EndIf: CONV(CodePreprocessCond) break;
	case CT_Struct: case CT_Struct_Fwd: CONV(CodeStruct) break; case CT_Template: CONV(CodeTemplate) break; case CT_Typename: CONV(CodeTypename) break; case CT_Typedef: CONV(CodeTypedef) break; case CT_Union: case CT_Union_Fwd: CONV(CodeUnion) break; case CT_Using: case CT_Using_Namespace: CONV(CodeUsing) break; case CT_Variable: CONV(CodeVar) break;
	case CT_Parameters: { CONV(CodeParams) CodeParams p = (CodeParams)c; SAME("CodeParams::has_entries", p.has_entries(), params_has_entries(p)); SAME("has_entries(CodeParams)", has_entries(p), params_has_entries(p)); int n = p->NumEntries > 1 ? p->NumEntries : 1; for (int i = 0; i <= n; i++) { SAME("CodeParams::get", p.get(i).ast, params_get(p, i).ast); SAME("get(CodeParams)", get(p, i).ast, params_get(p, i).ast); }
		SAME("CodeParams::begin", p.begin().ast, begin_CodeParams(p).ast); SAME("CodeParams::end", p.end().ast, end_CodeParams(p).ast); SAME("begin(CodeParams)", begin(p).ast, begin_CodeParams(p).ast); SAME("end(CodeParams)", end(p).ast, end_CodeParams(p).ast); { int k = 0; CodeParams w = p; for (CodeParams e : p) { SAME("for over CodeParams", e.ast, w.ast); w = CodeParams{ next_CodeParams(p, w).ast }; k++; } { COUNT("for over CodeParams length"); if (k != n && !(c->Parent.ast && c->Parent->Type == CT_Parameters)) VIOL("for over CodeParams length", "%d of %d: %s in %s", k, n, code_text(c).c_str(), c->Parent.ast ? code_text(c->Parent).c_str() : ""); } } CodeParams x = p, y = p, z = p; for (int i = 0; i < n; i++) { SAME("next(CodeParams)", x.ast, y.ast); SAME("++CodeParams", z.ast, y.ast); SAME("* CodeParams", (* z).ast, y.ast); x = CodeParams{ next(p, x).ast }; y = CodeParams{ next_CodeParams(p, y).ast }; ++z; }
		CodeParams d1 = cast(CodeParams, code_duplicate(c)), d2 = cast(CodeParams, code_duplicate(c)), e1 = cast(CodeParams, code_duplicate(c)), e2 = cast(CodeParams, code_duplicate(c)); if (R.chance(50)) d1.append(e1); else append(d1, e1); params_append(d2, e2); SAMETEXT("CodeParams::append", code_text(cast(Code, d1)), code_text(cast(Code, d2))); break; }
	case CT_Parameters_Define: { CONV(CodeDefineParams) CodeDefineParams p = (CodeDefineParams)c; SAME("CodeDefineParams::has_entries", p.has_entries(), define_params_has_entries(p)); SAME("has_entries(CodeDefineParams)", has_entries(p), define_params_has_entries(p)); int n = p->NumEntries > 1 ? p->NumEntries : 1; for (int i = 0; i <= n; i++) { SAME("CodeDefineParams::get", p.get(i).ast, define_params_get(p, i).ast); SAME("get(CodeDefineParams)", get(p, i).ast, define_params_get(p, i).ast); }
		SAME("CodeDefineParams::begin", p.begin().ast, begin_CodeDefineParams(p).ast); SAME("CodeDefineParams::end", p.end().ast, end_CodeDefineParams(p).ast); { int k = 0; CodeDefineParams w = p; for (CodeDefineParams e : p) { SAME("for over CodeDefineParams", e.ast, w.ast); w = CodeDefineParams{ next_CodeDefineParams(p, w).ast }; k++; } SAME("for over CodeDefineParams length", k, n); } CodeDefineParams z = p, y = p; for (int i = 0; i < n; i++) { SAME("++CodeDefineParams", z.ast, y.ast); SAME("* CodeDefineParams", (* z).ast, y.ast); ++z; y = CodeDefineParams{ next_CodeDefineParams(p, y).ast }; }
		CodeDefineParams d1 = cast(CodeDefineParams, code_duplicate(c)), d2 = cast(CodeDefineParams, code_duplicate(c)), e1 = cast(CodeDefineParams, code_duplicate(c)), e2 = cast(CodeDefineParams, code_duplicate(c)); if (R.chance(50)) d1.append(e1); else append(d1, e1); define_params_append(d2, e2); SAMETEXT("CodeDefineParams::append", code_text(cast(Code, d1)), code_text(cast(Code, d2))); break; }
	case CT_Specifiers: { CONV(CodeSpecifiers) CodeSpecifiers s = (CodeSpecifiers)c; { int k = 0; for (Specifier e : s) { SAME("for over CodeSpecifiers", e, s->ArrSpecs[k]); k++; } SAME("for over CodeSpecifiers length", k, s->NumEntries); } SAME("begin(CodeSpecifiers)", begin(s), begin_CodeSpecifiers(s)); SAME("end(CodeSpecifiers)", end(s), end_CodeSpecifiers(s)); if (s->NumEntries) SAME("next(CodeSpecifiers)", next(s, * begin(s)), next_CodeSpecifiers(s, begin_CodeSpecifiers(s)));
		for (int i = 0; i < 6; i++) { Specifier q = R.chance(50) && s->NumEntries ? s->ArrSpecs[R.below(s->NumEntries)] : (Specifier)R.range(Spec_Invalid + 1, Spec_NumSpecifiers - 1); SAME("CodeSpecifiers::has", s.has(q), specifiers_has(s, q)); SAME("has(CodeSpecifiers)", has(s, q), specifiers_has(s, q)); SAME("CodeSpecifiers::index_of", s.index_of(q), specifiers_index_of(s, q)); SAME("index_of(CodeSpecifiers)", index_of(s, q), specifiers_index_of(s, q)); SAMETEXT("specifier to_str", text(to_str(q)), text(spec_to_str(q))); SAME("specifier is_trailing", is_trailing(q), spec_is_trailing(q));
			CodeSpecifiers d1 = cast(CodeSpecifiers, code_duplicate(c)), d2 = cast(CodeSpecifiers, code_duplicate(c)); if (d1->NumEntries < AST_ArrSpecs_Cap) { bool r1 = R.chance(50) ? d1.append(q) : append(d1, q), r2 = specifiers_append(d2, q); SAME("CodeSpecifiers::append", r1, r2); } SAMETEXT("CodeSpecifiers::append", code_text(cast(Code, d1)), code_text(cast(Code, d2))); Specifier w = R.chance(50) ? q : (Specifier)R.range(Spec_Invalid + 1, Spec_NumSpecifiers - 1); s32 r1 = R.chance(50) ? d1.remove(w) : remove(d1, w), r2 = specifiers_remove(d2, w); SAME("CodeSpecifiers::remove", r1, r2); SAMETEXT("CodeSpecifiers::remove", code_text(cast(Code, d1)), code_text(cast(Code, d2))); }
		break; }
	default: COUNT("node without a type of its own"); }
}
static void interfaces() {
	{ Code e = R.chance(50) ? cast(Code, preprocess_else) : code_duplicate(cast(Code, preprocess_else)), f = R.chance(50) ? cast(Code, preprocess_endif) : code_duplicate(cast(Code, preprocess_endif)); node(e, f); node(f, e); node(cast(Code, parse_union(mk(vp_fmt(R.chance(50) ? "union __declspec(x) U%d;" : "union U%d;", uid++)))), e); }
	for (int i = 0; i < 2; i++) { N r = record(IN_FN, 1, true, false); CodeClass a = cast(CodeClass, code_duplicate(r.c)), b = cast(CodeClass, code_duplicate(r.c)); CodeTypename t = def_type(mk(ident("I"))); if (r.c->Type == CT_Class) { CodeTypename t2 = cast(CodeTypename, code_duplicate(cast(Code, t))); if (R.chance(50)) a.add_interface(t); else add_interface(a, t); class_add_interface(b, t2); SAMETEXT("CodeClass::add_interface", code_text(cast(Code, a)), code_text(cast(Code, b))); }
		N q = record(IN_FN, 1, false, false); CodeStruct c = cast(CodeStruct, code_duplicate(q.c)), d = cast(CodeStruct, code_duplicate(q.c)); CodeTypename u = def_type(mk(ident("I"))); if (q.c->Type == CT_Struct) { CodeTypename u2 = cast(CodeTypename, code_duplicate(cast(Code, u))); if (R.chance(50)) c.add_interface(u); else add_interface(c, u); struct_add_interface(d, u2); SAMETEXT("CodeStruct::add_interface", code_text(cast(Code, c)), code_text(cast(Code, d))); } }
}
static void definitions() {   // arrays given to the variadic names
	static Code arr[6]; int n = R.range(1, 5); Code x[6]; S want;
	#define BODY(f, fa, mkx) { for (int i = 0; i < n; i++) { arr[i] = mkx; x[i] = code_duplicate(arr[i]); } CodeBody p = f((s32)n, arr), q = fa(n, x); SAMETEXT(#f "(num, codes)", code_text(cast(Code, p)), code_text(cast(Code, q))); SAME(#f " kind", p->Type, q->Type); }
	auto member = []() { return untyped_str(mk("int " + ident("m") + ";\n")); };
	switch (R.below(12)) {
	case 0: BODY(def_class_body, def_class_body_arr, member()) break; case 1: BODY(def_struct_body, def_struct_body_arr, member()) break; case 2: BODY(def_union_body, def_union_body_arr, member()) break; case 3: BODY(def_enum_body, def_enum_body_arr, untyped_str(mk(ident("E") + ",\n"))) break; case 4: BODY(def_export_body, def_export_body_arr, member()) break; case 5: BODY(def_extern_link_body, def_extern_link_body_arr, member()) break;
	case 6: BODY(def_function_body, def_function_body_arr, member()) break; case 7: BODY(def_global_body, def_global_body_arr, member()) break; case 8: BODY(def_namespace_body, def_namespace_body_arr, member()) break;
	case 9: { CodeParams p[6], q[6]; for (int i = 0; i < n; i++) { p[i] = cast(CodeParams, def_param(t_int, mk(ident("p")))); q[i] = cast(CodeParams, code_duplicate(cast(Code, p[i]))); } SAMETEXT("def_params(num, params)", code_text(cast(Code, def_params((s32)n, p))), code_text(cast(Code, def_params_arr(n, q)))); break; }
	case 10: { CodeDefineParams p[6], q[6]; for (int i = 0; i < n; i++) { CodeDefineParams d = cast(CodeDefineParams, make_code()); cast(Code, d)->Type = CT_Parameters_Define; d->Name = cache_str(mk(ident("d"))); cast(Code, d)->NumEntries = 1; p[i] = d; q[i] = cast(CodeDefineParams, code_duplicate(cast(Code, d))); } SAMETEXT("def_define_params(num, params)", code_text(cast(Code, def_define_params((s32)n, p))), code_text(cast(Code, def_define_params_arr(n, q)))); break; }
	default: { Specifier s[6]; for (int i = 0; i < n; i++) s[i] = R.pick({ Spec_Const, Spec_Static, Spec_Ptr, Spec_Inline, Spec_Virtual }); SAMETEXT("def_specifiers(num, specs)", code_text(cast(Code, def_specifiers((s32)n, s))), code_text(cast(Code, def_specifiers_arr(n, s)))); } }
	Macro m = { mk(ident("MC")), R.pick({ MT_Expression, MT_Statement, MT_Typename }), (MacroFlags)((R.chance(50) ? MF_Functional : 0) | (R.chance(50) ? MF_Expects_Body : 0)) }; SAME("is_functional(Macro)", (bool)is_functional(m), (bool)macro_is_functional(m)); SAME("expects_body(Macro)", (bool)expects_body(m), (bool)macro_expects_body(m)); SAME("macro_is_functional", (bool)macro_is_functional(m), (m.Flags & MF_Functional) != 0); SAME("macro_expects_body", (bool)macro_expects_body(m), (m.Flags & MF_Expects_Body) != 0);
	{ Macro ms[2] = { m, m }; ms[1].Name = mk(ident("MD")); register_macros(2, ms); for (auto& q : ms) { Macro* f = lookup_macro(q.Name); if (!f || f->Type != q.Type || f->Flags != q.Flags) VIOL("register_macros(num, macros)", "a macro is not found as it was registered"); } COUNT("register_macros"); }
}
static void builders() {
	S d = S("b"); S f1 = d + "a.txt", f2 = d + "b.txt"; bool over = R.chance(50);
	auto slurp = [](S const& f) { S r; FILE* h = fopen(f.c_str(), "rb"); if (!h) return S("(none)"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) r.append(b, n); fclose(h); return r; };
	Builder a = Builder::open(f1.c_str()), b = builder_open(f2.c_str()); N n = body(IN_GLOBAL, CT_Global_Body, 1, 3, 1);
	for (int k = R.range(1, 6); k--; ) switch (R.below(3)) {
	case 0: { int l = R.range(1, 4); HIST("pad %d", l); if (over) builder_pad_lines(a, l); else a.pad_lines(l); builder_pad_lines(&b, l); break; }
	case 1: HIST("print"); if (over) builder_print(a, n.c); else a.print(n.c); builder_print(&b, n.c); break;
	default: HIST("fmt"); if (over) builder_print_fmt(a, "%s=%d\n", "k", 12); else a.print_fmt("%s=%d\n", "k", 12); builder_print_fmt(&b, "%s=%d\n", "k", 12); }
	SAMETEXT("Builder buffer", sb(a.Buffer), sb(b.Buffer)); if (over) builder_write(a); else a.write(); builder_write(&b); SAMETEXT("Builder file", slurp(f1), slurp(f2)); unlink(f1.c_str()); unlink(f2.c_str()); COUNT(over ? "builder overloads" : "builder members");
}
static void vp_round_fn(long r) {
	if (!started) { init(&ctx); started = true; }
	if (r % 150 == 149) { reset(&ctx); types.clear(); shared_params.clear(); }
	uid = r * 1000 % 1000000; R.flip = -1;
	switch (R.below(9)) {
	case 0: case 1: strings(); break; case 2: memory(); break; case 3: definitions(); interfaces(); break; case 4: builders(); break;
	default: { N n = R.chance(20) ? body(IN_GLOBAL, CT_Export_Body, 1, 3, 1) : body(IN_GLOBAL, CT_Global_Body, 1, 3, 2); S before = code_text(n.c); Fields fs; fs.walk(n.c.ast); std::vector<AST*> all(fs.seen.begin(), fs.seen.end()); int left = 12; for (AST* a : all) { if (fs.seen.size() > 12 && !R.chance(100 * 12 / (int)fs.seen.size() + 1)) continue; if (!left--) break; node(Code{ a }, Code{ all[R.below(all.size())] }); } SAMETEXT("looking at code leaves it", code_text(n.c), before); } }
	drop_bufs();
}
