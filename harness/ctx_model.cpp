// P16: context lifecycle histories: isolation, reset and re-initialization against a fresh context, and a ledger of every allocation.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include <sanitizer/allocator_interface.h>
#include "model.h"
using namespace gen;
// ---- heap ledger: blocks the library takes from the C heap (its own heap() allocator included)
static int in_lib, in_hook; static std::unordered_map<const volatile void*, size_t>* hp; static size_t heap_live, heap_bytes, heap_total;
static void on_malloc(const volatile void* p, size_t n) { if (!in_lib || in_hook) return; in_hook = 1; (*hp)[p] = n; in_hook = 0; heap_live++; heap_bytes += n; heap_total++; }
static void on_free(const volatile void* p) { if (in_hook || !hp || !p) return; in_hook = 1; auto i = hp->find(p); if (i != hp->end()) { heap_live--; heap_bytes -= i->second; hp->erase(i); } in_hook = 0; }
#define LIB(stmt) do { in_lib = 1; stmt; in_lib = 0; } while (0)
// ---- user allocators: one ledger per context and role
struct Ledger { int ctx, role; std::unordered_map<char*, size_t> live; size_t bytes = 0, total = 0; bool closed = true; };
static Ledger led[4][4]; static int fail_in; static const char* role_name[] = { "dynamic containers", "pools", "string cache", "temporary" };
static std::string ledger_error;
static void* user_proc(void* data, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64 flags) {
	Ledger* l = (Ledger*)data; int sv = in_lib; in_lib = 0; void* res = nullptr;
	if (l->closed && ledger_error.empty()) ledger_error = vp_fmt("the %s allocator of context %d is called after its context was released", role_name[l->role], l->ctx);
	if (type == EAllocation_ALLOC) {
		if (fail_in && l->role != 3 && --fail_in == 0) { in_lib = sv; return nullptr; }
		char* p = (char*)aligned_alloc(align < 16 ? 16 : align, (size + 15) / 16 * 16 + (align > 16 ? align : 0)); if (align > 16) { ::free(p); p = (char*)aligned_alloc(align, (size + align - 1) / align * align); }
		memset(p, flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO ? 0 : 0xCD, size); l->live[p] = size; l->bytes += size; l->total++; res = p;
	} else if (type == EAllocation_FREE) { if (old) { auto i = l->live.find((char*)old); if (i == l->live.end()) { if (ledger_error.empty()) ledger_error = vp_fmt("the %s allocator of context %d is given memory to free it does not own", role_name[l->role], l->ctx); } else { l->bytes -= i->second; l->live.erase(i); ::free(old); } } }
	else if (type == EAllocation_RESIZE) { AllocatorInfo a = { user_proc, data }; res = default_resize_align(a, old, old_size, size, align); }
	else if (type == EAllocation_FREE_ALL) { for (auto& b : l->live) ::free(b.first); l->live.clear(); l->bytes = 0; }
	in_lib = sv; return res;
}
// ---- work: sources and construction programs, with the text a fresh context gives
static const char* SRC[] = {
	"int a;\n", "struct S { int x; float y; };\n", "class C { public: int f( int a, char const* b ); private: C(); ~C(); };\n", "enum E : int { A, B = 2, C };\n", "namespace N { void g(); using T = int; }\n",
	"template< typename T, int N > struct V { T data[N]; };\n", "#define VALUE 12\nint b = VALUE;\n", "#if 1\nint c;\n#else\nint d;\n#endif\n", "typedef unsigned long long u64_t;\n", "extern \"C\" { int q; void r( void ); }\n",
	"static inline int h( int x ) { return x * 2; }\n", "union U { int i; float f; };\n", "enum class Col : unsigned char { Red, Green };\nfriend_t* p = nullptr;\n", "struct Base { virtual void v() = 0; };\nstruct Der : public Base { void v() override; };\n", "int m = 1, n = 2;\n", "using namespace std;\n", "struct W { W operator+( W const& o ); operator int(); };\n", "#include <stdio.h>\n#pragma once\n// note\nint last; // tail\n", "bool operator==( W a, W b );\n", "constexpr int k[] = { 1, 2, 3 };\n",
};
static const int NSRC = sizeof SRC / sizeof *SRC, NCON = 9; static std::string REF[64];
static Str S(const char* s) { return Str{ s, (ssize)strlen(s) }; }
static Code construct(int k) {
	switch (k) {
		case 0: return (Code)def_variable(t_int, txt("cv")); 
		case 1: { CodeParams p = def_params(2, def_param(t_int, txt("a")), def_param(t_char, txt("b"))); Opts_def_function o = {}; o.params = p; o.ret_type = t_bool; return (Code)def_function(txt("cf"), o); }
		case 2: { CodeBody b = def_struct_body(2, def_variable(t_int, txt("x")), def_variable(t_bool, txt("y"))); Opts_def_struct o = {}; o.body = b; return (Code)def_struct(txt("CS"), o); }
		case 3: { Opts_def_function o = {}; o.specs = spec_inline; o.ret_type = t_void; o.body = def_function_body(1, untyped_str(txt("return;"))); return (Code)def_function(txt("ci"), o); }
		case 4: { Opts_def_enum o = {}; o.body = parse_enum(txt("enum Tmp { P, Q };"))->Body; return (Code)def_enum(txt("CE"), o); }
		case 5: return (Code)def_comment(txt("a comment made in a context"));
		case 6: return (Code)def_using(txt("CU"), t_wchar_t);
		case 7: { CodeBody b = def_class_body(3, access_public, def_variable(t_int, txt("x")), access_private); Opts_def_struct o = {}; o.body = b; return (Code)def_class(txt("CC"), o); }
		default: { return (Code)parse_struct(token_fmt("name", txt("tk"), "struct <name> { int <name>_v; };")); }
	}
}
static Code work(int k) { return k < NSRC ? (Code)parse_global_body(S(SRC[k])) : construct(k - NSRC); }
static StrBuilder ser(Code c) { return code_to_strbuilder(c); }
static std::string txt_of(StrBuilder s) { VP_WRITTEN((char*)s, (size_t)strbuilder_length(s) + 1); return std::string((char*)s, (size_t)strbuilder_length(s)); }
struct Live { Code c; int k; }; struct Cached { const char* p; std::string s; };
struct Ctx { Context c; bool up = false; int mask = 0; std::vector<Live> live; std::vector<Cached> strs; std::set<std::string> macros; int gen = 0; size_t snap = 0; };
static Ctx C[4]; static int cur = -1; static int base = -1;
static void ledger_ok(const char* where) { if (!ledger_error.empty()) { std::string e = ledger_error; ledger_error.clear(); VIOL("allocator", "%s: %s", where, e.c_str()); } }
static void constants_ok() {
	Code k[] = { (Code)t_int, (Code)t_void, (Code)t_auto, (Code)t_bool, (Code)t_char, (Code)t_wchar_t, (Code)spec_const, (Code)spec_inline, (Code)spec_static_member, (Code)spec_virtual, (Code)param_varadic, access_public, access_private, access_protected, (Code)pragma_once };
	static std::vector<std::string> ref; int n = 0; for (auto x : k) { StrBuilder b; LIB(b = ser(x)); std::string g = txt_of(b); if (n == (int)ref.size()) ref.push_back(g); else if (g != ref[n]) VIOL("constants", "constant %d serializes as \"%s\", at first as \"%s\"", n, vp_esc(g).c_str(), vp_esc(ref[n]).c_str()); if (x->Next || x->Prev) VIOL("constants", "the constant \"%s\" is linked into code", vp_esc(g).c_str()); n++; }
	COUNT("constants checked");
}
static void verify(int i, const char* after) {
	Ctx& x = C[i]; if (!x.up) return;
	for (auto& l : x.live) { StrBuilder s; LIB(s = ser(l.c)); if (txt_of(s) != REF[l.k]) VIOL("isolation", "after %s, code %d made in context %d serializes as \"%s\", expected \"%s\"", after, l.k, i, vp_esc(txt_of(s), 300).c_str(), vp_esc(REF[l.k], 300).c_str()); COUNT("objects re-serialized"); }
	for (auto& c : x.strs) if (strlen(c.p) != c.s.size() || memcmp(c.p, c.s.data(), c.s.size())) VIOL("isolation", "after %s, an interned string of context %d changed", after, i);
}
static void config(Context& c, int i, int mask) {
	Context z = {}; c = z; AllocatorInfo* a[] = { &c.Allocator_DyanmicContainers, &c.Allocator_Pool, &c.Allocator_StrCache, &c.Allocator_Temp };
	for (int r = 0; r < 4; r++) { led[i][r].closed = true; if (mask & (1 << r)) { led[i][r].closed = false; *a[r] = AllocatorInfo{ user_proc, &led[i][r] }; } }
	if (R.chance(85)) { c.InitSize_Fallback_Allocator_Bucket_Size = (u32)R.pick<int>({ 65536, 200000, 1 << 20 }); c.CodePool_NumBlocks = (u32)R.pick<int>({ 2, 8, 64, 333, 1000 }); c.SizePer_StringArena = (u32)R.pick<int>({ 1024, 4096, 65536 }); c.InitSize_LexerTokens = (u32)R.pick<int>({ 2, 16, 1024 }); c.InitSize_CodePoolsArray = (u32)R.pick<int>({ 1, 2, 16 }); c.InitSize_StringArenasArray = (u32)R.pick<int>({ 1, 4 }); }
}
static void closed_ok(int i) { for (int r = 0; r < 4; r++) { Ledger& l = led[i][r]; if (r == 3) { for (auto& b : l.live) ::free(b.first); l.live.clear(); l.bytes = 0; } /* text handed out belongs to the user */ if (!l.live.empty()) VIOL("released completely", "context %d leaves %zu blocks (%zu bytes) with its %s allocator", i, l.live.size(), l.bytes, role_name[r]); l.closed = true; } }
static void only_source(int i, size_t before) { if (C[i].mask == 15 && heap_live > before) VIOL("only source", "context %d has allocators of its own but keeps %zu blocks of the heap", i, heap_live - before); }
static void up(int i) {
	int mask = R.chance(35) ? 15 : R.chance(50) ? 0 : (int)R.below(16); config(C[i].c, i, mask); C[i].mask = mask; HIST("init %d mask %d pool %u arena %u bucket %u", i, mask, C[i].c.CodePool_NumBlocks, C[i].c.SizePer_StringArena, C[i].c.InitSize_Fallback_Allocator_Bucket_Size);
	size_t b = heap_live; LIB(init(&C[i].c)); C[i].up = true; C[i].live.clear(); C[i].strs.clear(); C[i].macros.clear(); if (get_context() != &C[i].c) VIOL("init", "does not make the context current"); cur = i; only_source(i, b); ledger_ok("init"); COUNT(mask == 15 ? "init with allocators of its own" : mask ? "init with some allocators" : "init with default allocators");
}
static void down(int i) {
	HIST("deinit %d", i); Context* was = get_context(); LIB(deinit(&C[i].c)); C[i].up = false; ledger_ok("deinit"); closed_ok(i); C[i].live.clear(); C[i].strs.clear();
	if (was == &C[i].c) { if (get_context() != nullptr) VIOL("deinit", "a released context stays current"); cur = -1; } else if (get_context() != was) VIOL("deinit", "changes the current context"); COUNT("deinit");
}
static void do_work(int k) {
	size_t b = heap_live; Code c; LIB(c = work(k)); HIST("work %d in %d", k, cur); if (c == Code_Invalid || !c) VIOL("fresh behaviour", "work %d fails in context %d", k, cur);
	StrBuilder s; LIB(s = ser(c)); if (txt_of(s) != REF[k]) VIOL("fresh behaviour", "work %d in context %d gives \"%s\", in a fresh one \"%s\"", k, cur, vp_esc(txt_of(s), 300).c_str(), vp_esc(REF[k], 300).c_str());
	C[cur].live.push_back({ c, k }); only_source(cur, b); ledger_ok("work"); COUNT("objects made");
}
static void sw(int i) { if (i == cur) return; HIST("set_context %d", i); set_context(&C[i].c); cur = i; if (get_context() != &C[i].c) VIOL("set_context", "not current"); }
static void refs() { static bool done; if (done) return; done = true; Context c = {}; init(&c); constants_ok(); for (int k = 0; k < NSRC + NCON; k++) REF[k] = txt_of(ser(work(k))); deinit(&c); }
static size_t held(int i) { size_t n = 0; for (int r = 0; r < 4; r++) n += led[i][r].bytes; return n; }
static void cleanup() { // after an aborted round
	in_lib = 0; fail_in = 0; ledger_error.clear(); for (auto& a : led) for (auto& l : a) { for (auto& b : l.live) ::free(b.first); l.live.clear(); l.bytes = 0; l.closed = true; } if (hp) { in_hook = 1; hp->clear(); in_hook = 0; } heap_live = heap_bytes = 0; for (auto& c : C) { c.up = false; c.live.clear(); c.strs.clear(); c.macros.clear(); Context z = {}; c.c = z; } context_counter = 0; _ctx = nullptr; cur = base = -1;
}
static void r_life() {
	up(0); base = 0; int steps = 3 + (int)R.below(25);
	for (int st = 0; st < steps; st++) {
		int op = (int)R.below(100); int i = (int)R.below(4); if (cur < 0) { int j; do j = (int)R.below(4); while (!C[j].up); sw(j); }
		const char* what = "work";
		if (op < 40) do_work((int)R.below(NSRC + NCON));
		else if (op < 52) { if (!C[i].up) { up(i); what = "init"; } else sw(i); }
		else if (op < 60) { if (C[i].up && i != 0) { down(i); what = "deinit"; } }
		else if (op < 68) { if (C[i].up) { bool dependents = false; if (i == 0) for (int j = 1; j < 4; j++) dependents |= C[j].up; if (!dependents) { HIST("reset %d (current %d)", i, cur); Context* was = get_context(); size_t b = heap_live; LIB(reset(&C[i].c)); if (get_context() != was) VIOL("reset", "changes the current context"); only_source(i, b); C[i].live.clear(); C[i].strs.clear(); C[i].macros.clear(); ledger_ok("reset"); COUNT("reset"); what = "reset"; } } }
		else if (op < 80) { std::string s; size_t n = R.below(R.chance(5) ? 30000 : 40); for (size_t j = 0; j < n; j++) s += (char)('a' + R.below(3)); Str q; Str in = { s.data(), (ssize)s.size() }; LIB(q = cache_str(in)); HIST("cache_str %zu in %d", n, cur); if (std::string(q.Ptr, q.Len) != s) VIOL("fresh behaviour", "an interned string differs"); C[cur].strs.push_back({ q.Ptr, s }); for (int j = 0; j < 4; j++) if (j != cur) for (auto& o : C[j].strs) if (o.p == q.Ptr) VIOL("isolation", "two contexts share an interned string"); COUNT("strings"); }
		else if (op < 90) { char nm[8]; snprintf(nm, 8, "MAC%d", (int)R.below(6)); Macro m = {}; m.Name = S(nm); m.Type = MT_Expression; LIB(register_macro(m)); C[cur].macros.insert(nm); HIST("register %s in %d", nm, cur); ledger_ok("register_macro"); what = "register_macro"; }
		else { for (int j = 0; j < 6; j++) { char nm[8]; snprintf(nm, 8, "MAC%d", j); Macro* m = lookup_macro(S(nm)); if (!!m != !!C[cur].macros.count(nm)) VIOL("isolation", "macro %s is %s in context %d", nm, m ? "known" : "unknown", cur); COUNT("macro lookups"); } if (!lookup_macro(txt("enum_underlying"))) VIOL("fresh behaviour", "context %d does not know enum_underlying", cur); }
		int v = (int)R.below(4); if (cur >= 0) { verify(v, what); if (R.chance(10)) constants_ok(); }
	}
	for (int j = 0; j < 4 && cur >= 0; j++) verify(j, "the history"); 
	if (cur >= 0) constants_ok();
	for (int j = 3; j >= 0; j--) if (C[j].up) { if (j && R.chance(20)) {} down(j); }
	if (heap_live) VIOL("released completely", "%zu blocks (%zu bytes) of the heap stay after every context is released", heap_live, heap_bytes);
	if (context_counter != 0) VIOL("deinit", "a context is still counted");
	COUNT("complete lives");
}
static void r_cycle() { // the same work after each reset: same results, no more memory
	config(C[0].c, 0, 15); C[0].mask = 15; HIST("init 0 mask 15 pool %u arena %u", C[0].c.CodePool_NumBlocks, C[0].c.SizePer_StringArena); LIB(init(&C[0].c)); C[0].up = true; cur = 0; base = 0; int n = 1 + (int)R.below(40); std::vector<int> w; for (int i = 0; i < n; i++) w.push_back((int)R.below(NSRC + NCON)); size_t first = 0, before[4] = { 0 }; int cycles = 2 + (int)R.below(5);
	for (int k = 0; k < cycles; k++) { led[0][3].total = 0; for (int x : w) do_work(x); for (int r = 0; r < 3; r++) { if (k == 1) before[r] = led[0][r].bytes; if (k > 1 && led[0][r].bytes > before[r]) VIOL("reset reuses memory", "%s holds %zu bytes in cycle %d, %zu in cycle 1, for the same work", role_name[r], led[0][r].bytes, k, before[r]); } LIB(reset(&C[0].c)); C[0].live.clear(); HIST("reset 0"); COUNT("reset cycles"); }
	constants_ok(); down(0); if (heap_live) VIOL("released completely", "%zu blocks of the heap stay", heap_live);
}
static void r_fail() { // an allocator that refuses: a diagnosed stop, or the work is done all the same
	int mask = 1 + (int)R.below(15); config(C[0].c, 0, mask); C[0].mask = mask; fail_in = 1 + (int)R.below(30); HIST("init 0 mask %d, allocation %d fails", mask, fail_in);
	bool t = TRAPS(LIB(init(&C[0].c))); if (!t) { C[0].up = true; cur = 0; int n = 1 + (int)R.below(6); for (int i = 0; i < n && !t; i++) { int k = (int)R.below(NSRC + NCON); HIST("work %d", k); Code c; StrBuilder s; t = TRAPS(LIB(c = work(k); s = ser(c))); if (!t && c && c != Code_Invalid && s && !fail_in && 0) {} } }
	COUNT(t ? "refused allocation diagnosed" : fail_in > 0 ? "allocation not reached" : "refused allocation survived"); fail_in = 0; vp_jb_on = 1; cleanup();
}
static void vp_round_fn(long r) {
	if (!hp) { hp = new std::unordered_map<const volatile void*, size_t>(); for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) led[i][k].ctx = i, led[i][k].role = k; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
	cleanup(); refs();
	if (r % 4 == 3) r_cycle(); else if (r % 8 == 5) r_fail(); else r_life();
}
