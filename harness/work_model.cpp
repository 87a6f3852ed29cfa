// P27: how much is done (edges of the control flow graph taken) and how much is asked for or copied (bytes) for an input, against the same for one sixteen times as long.
#define VP_QUIET
#include <fstream>
#include <iterator>
#include <sstream>
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
#include <functional>


using namespace gen;
typedef std::string S;
static bool on; static double edges, bytes, limit = 1e18, blimit = 1e18; static void over(); static void overb();
#define BYTES(n) do { if (on && (bytes += (n)) > blimit) overb(); } while (0)
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (on && ++edges > limit) over(); }
void* __real_malloc(size_t); void* __wrap_malloc(size_t n) { BYTES(n); return __real_malloc(n); }
void* __real_calloc(size_t, size_t); void* __wrap_calloc(size_t k, size_t n) { BYTES(k * n); return __real_calloc(k, n); }
void* __real_realloc(void*, size_t); void* __wrap_realloc(void* p, size_t n) { BYTES(n); return __real_realloc(p, n); }
int __real_posix_memalign(void**, size_t, size_t); int __wrap_posix_memalign(void** p, size_t a, size_t n) { BYTES(n); return __real_posix_memalign(p, a, n); }
void* __real_memcpy(void*, const void*, size_t); void* __wrap_memcpy(void* a, const void* b, size_t n) { BYTES(n); return __real_memcpy(a, b, n); }
void* __real_memmove(void*, const void*, size_t); void* __wrap_memmove(void* a, const void* b, size_t n) { BYTES(n); return __real_memmove(a, b, n); }
void* __real_memset(void*, int, size_t); void* __wrap_memset(void* a, int b, size_t n) { BYTES(n); return __real_memset(a, b, n); }
int __real_memcmp(const void*, const void*, size_t); int __wrap_memcmp(const void* a, const void* b, size_t n) { BYTES(n); return __real_memcmp(a, b, n); }
size_t __real_strlen(const char*); size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); BYTES(n); return n; }
}
#define WORK(...) do { on = true; __VA_ARGS__; on = false; } while (0)
struct Scene { S name; std::function<void(int)> run; int n; };
static std::vector<Scene> scenes;
static int factor = 16;   // pools and arenas are as large as needed not to have very many of them
static Context* ctx_new() {
	Context* c = (Context*)calloc(1, sizeof(Context)); c->CodePool_NumBlocks = 16 * factor; c->SizePer_StringArena = kilobytes(4) * factor; c->InitSize_Fallback_Allocator_Bucket_Size = kilobytes(16) * factor; c->InitSize_LexerTokens = 1024; c->InitSize_BuilderBuffer = kilobytes(4); init(c); return c;
}
static void ctx_end(Context* c) { deinit(c); free(c); }
static Str V(S const& s) { return { s.data(), (ssize)s.size() }; }
static S rep(int n, const char* pre, const char* f, const char* post) { S r = pre; char b[400]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, f, i, i, i); r += b; } return r + post; }
struct Row { const char* name, *pre, *item, *post; };
static Row ROWS[] = {
 {"variables", "", "int v%d = 3;\n", ""}, {"functions", "", "void f%d( int a ) { return a; }\n", ""}, {"members", "struct S {\n", "int a%d;\n", "};\n"}, {"enumerators", "enum E {\n", "A%d,\n", "};\n"}, {"enumerators with values", "enum class E : int {\n", "A%d = 3 + 2,\n", "};\n"},
 {"parameters", "void f(", "int a%d, ", "int z);\n"}, {"statements", "void f() {\n", "x%d = g( 2 );\n", "}\n"}, {"line comments", "", "// abc %d\n", "int a;\n"}, {"block comments", "", "/* a %d\n */\n", "int a;\n"}, {"one block comment", "/* a", "b %d\n", "*/\nint a;\n"},
 {"empty lines", "int a;", "\n\n", "int b;\n"}, {"defines", "", "#define A%d 3\n", ""}, {"defines with parameters", "", "#define A%d( a, b ) a\n", ""}, {"parameters of a define", "#define A( ", "a%d, ", "z ) 3\n"}, {"includes", "", "#include <a%d>\n", ""}, {"pragmas", "", "#pragma a%d\n", ""},
 {"conditions", "", "#if A%d\nint a;\n#endif\n", ""}, {"conditions in an enum", "enum E {\n", "#ifdef A%d\nB%d,\n#endif\n", "};\n"}, {"conditions in a struct", "struct S {\n", "#ifdef A%d\nint b%d;\n#endif\n", "};\n"}, {"namespaces", "", "namespace n%d { int a; }\n", ""}, {"a namespace", "namespace n {\n", "int v%d;\n", "}\n"},
 {"templates", "", "template< class T > struct S%d { T a; };\n", ""}, {"template parameters", "template< ", "class T%d, ", "class Z > struct S { };\n"}, {"template arguments", "V< ", "A%d, ", "Z > a;\n"}, {"initializer", "int a[] = {", "%d, ", "};\n"}, {"a string", "char const* a = \"", "abc%d ", "\";\n"},
 {"a name", "int a", "b%d", ";\n"}, {"comma variables", "int a", ", b%d", ";\n"}, {"expression", "int a = 1", " + b%d", ";\n"}, {"member initializers", "S::S() : z( 1 )", ", b%d( 2 )", " { }\n"}, {"qualified name", "int ", "a%d::", "x;\n"}, {"friends", "struct S {\n", "friend void f%d();\n", "};\n"},
 {"operators", "struct S {\n", "bool operator ==( A%d a );\n", "};\n"}, {"casts", "struct S {\n", "operator A%d() { return a; }\n", "};\n"}, {"typedefs", "", "typedef int t%d;\n", ""}, {"usings", "", "using t%d = int;\n", ""}, {"union members", "union U {\n", "int a%d;\n", "};\n"}, {"extern linkage", "extern \"C\" {\n", "int a%d;\n", "}\n"},
 {"static asserts", "", "static_assert( a%d, \"x\" );\n", ""}, {"spaces", "int", "                ", " a;\n"}, {"continued define", "#define A ", "b%d \\\n", "c\n"}, {"attributes", "", "__attribute__((a%d)) int x;\n", ""}, {"macros and their uses", "", "#define M%d( a ) a\nint x = M%d( 2 );\n", ""}, {"forwards", "", "struct S%d;\n", ""},
 {"constructors", "struct S {\n", "S( A%d a ) : b( a ) { }\n", "};\n"}, {"casts outside", "", "A%d::operator int() { }\n", ""}, {"constructors outside", "", "A%d::A%d() { }\n", ""}, {"access", "struct S {\n", "public:\nint a%d;\nprivate:\n", "};\n"}, {"the same", "", "int v;\n", ""}, {"comments behind", "", "int a%d; // c\n", ""}, {"comments behind members", "struct S {\n", "int a%d; // c\n", "};\n"},
 {"comments behind enumerators", "enum E {\n", "A%d, // c\n", "};\n"}, {"types", "", "struct S%d { int a; enum E { A, B }; };\n", ""}, {"enums", "", "enum E%d { A%d, B };\n", ""}, {"classes", "", "class C%d : public B { public: int a; };\n", ""}, {"unions", "", "union U%d { int a; };\n", ""}, {"a statement", "void f() { a = 1", " + b%d", "; }\n"}, {"nothing but stops", "int a;", " ;", "\nint b;\n"},
};
static void parse_scene(S name, std::function<S(int)> text, int n) {
	scenes.push_back({ "lex " + name, [text](int k) { S s = text(k); Context* c = ctx_new(); LexContext* x = nullptr; WORK(TokArray t = lex(V(s)); (void)t; (void)x); ctx_end(c); }, n });
	scenes.push_back({ "parse " + name, [text](int k) { S s = text(k); Context* c = ctx_new(); WORK(parse_global_body(V(s))); ctx_end(c); }, n });
	scenes.push_back({ "write " + name, [text](int k) { S s = text(k); Context* c = ctx_new(); Code r = (Code)parse_global_body(V(s)); WORK(code_to_strbuilder(r)); ctx_end(c); }, n });
	scenes.push_back({ "compare and duplicate " + name, [text](int k) { S s = text(k); Context* c = ctx_new(); Code r = (Code)parse_global_body(V(s)), q = (Code)parse_global_body(V(s)); WORK(code_is_equal(r, q); code_duplicate(r)); ctx_end(c); }, n });
}
static S num(const char* f, int i) { return vp_fmt(f, i); }
static StrCached N(const char* f, int i) { return cache_str(V(num(f, i))); }
static void scene(S name, int n, std::function<void(int)> f) { scenes.push_back({ name, f, n }); }
static CodeTypename t_i() { return def_type(txt("int")); }
static CodeVar var(int i) { return def_variable(t_i(), N("v%d", i)); }
#define CTX Context* c_ = ctx_new()
#define END ctx_end(c_)
static void api() {
	scene("names interned", 1500, [](int n) { CTX; std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("name%d", i)); WORK(for (auto& x : s) cache_str(V(x))); END; });
	scene("names interned again", 1500, [](int n) { CTX; std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("name%d", i)); for (auto& x : s) cache_str(V(x)); WORK(for (auto& x : s) cache_str(V(x))); END; });
	scene("long texts interned", 300, [](int n) { CTX; std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(S(700, 'a') + num("%d", i)); WORK(for (auto& x : s) cache_str(V(x))); END; });
	scene("nodes made", 1500, [](int n) { CTX; WORK(for (int i = 0; i < n; i++) make_code()); END; });
	scene("nodes released", 1500, [](int n) { CTX; for (int i = 0; i < n; i++) var(i); on = true; END; on = false; });
	scene("context reset", 1500, [](int n) { CTX; for (int i = 0; i < n; i++) var(i); WORK(reset(c_)); END; });
	scene("variables made", 1500, [](int n) { CTX; CodeTypename t = t_i(); std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("v%d", i)); WORK(for (auto& x : s) def_variable(t, V(x))); END; });
	scene("types made", 1500, [](int n) { CTX; std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("T%d", i)); WORK(for (auto& x : s) def_type(V(x))); END; });
	scene("functions made", 1500, [](int n) { CTX; CodeTypename t = t_i(); std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("f%d", i)); WORK(for (auto& x : s) { Opts_def_function o = {}; o.params = def_param(t, txt("a")); o.ret_type = t; def_function(V(x), o); }); END; });
	scene("defines and macros made", 700, [](int n) { CTX; std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("M%d", i)); WORK(for (auto& x : s) { Opts_def_define o = {}; o.content = txt("3"); def_define(V(x), MT_Expression, o); }); END; });
	scene("macros registered", 1500, [](int n) { CTX; std::vector<Macro> m; for (int i = 0; i < n; i++) { Macro x = {}; x.Name = N("M%d", i); x.Type = MT_Expression; m.push_back(x); } WORK(for (auto& x : m) register_macro(x); for (auto& x : m) lookup_macro(x.Name)); END; });
	scene("macros registered at once", 1500, [](int n) { CTX; std::vector<Macro> m; for (int i = 0; i < n; i++) { Macro x = {}; x.Name = N("M%d", i); x.Type = MT_Expression; m.push_back(x); } WORK(register_macros_arr(n, m.data())); END; });
	scene("comments made", 700, [](int n) { CTX; WORK(for (int i = 0; i < n; i++) def_comment(txt("a comment"))); END; });
	scene("a comment made", 700, [](int n) { CTX; S s = rep(n, "", "line %d\n", ""); WORK(def_comment(V(s))); END; });
	scene("an execution made", 700, [](int n) { CTX; S s = rep(n, "", "line( %d );\n", ""); WORK(def_execution(V(s)); untyped_str(V(s))); END; });
	scene("body appended to", 1500, [](int n) { CTX; std::vector<Code> v; for (int i = 0; i < n; i++) v.push_back(var(i)); CodeBody b = def_body(CT_Global_Body); WORK(for (auto x : v) body_append(b, x)); END; });
	scene("body appended to a body", 1500, [](int n) { CTX; CodeBody a = def_body(CT_Global_Body); for (int i = 0; i < n; i++) body_append(a, (Code)var(i)); CodeBody b = def_body(CT_Global_Body); WORK(body_append_body(b, a)); END; });
	scene("body iterated", 1500, [](int n) { CTX; CodeBody a = def_body(CT_Global_Body); for (int i = 0; i < n; i++) body_append(a, (Code)var(i)); WORK(int k = 0; for (Code c = begin_CodeBody(a); c != end_CodeBody(a); c = next_CodeBody(a, c)) k++; if (k != n) VIOL("iteration", "%d of %d entries", k, n)); END; });
	typedef CodeBody (*BA)(s32, Code*); struct { const char* n; BA f; } ba[] = { {"class", def_class_body_arr}, {"struct", def_struct_body_arr}, {"export", def_export_body_arr}, {"extern linkage", def_extern_link_body_arr}, {"function", def_function_body_arr}, {"global", def_global_body_arr}, {"namespace", def_namespace_body_arr} };
	for (auto& x : ba) { BA f = x.f; scene(S(x.n) + " body made of an array", 1500, [f](int n) { CTX; std::vector<Code> v; for (int i = 0; i < n; i++) v.push_back(var(i)); CodeBody b; WORK(b = f(n, v.data())); if (b->NumEntries != n) VIOL("array", "%d of %d entries", (int)b->NumEntries, n); WORK(body_to_strbuilder(b)); END; }); }
	scene("union body made of an array", 1500, [](int n) { CTX; std::vector<Code> v; for (int i = 0; i < n; i++) { S s = num("int a%d;", i); v.push_back(untyped_str(V(s))); } CodeBody b; WORK(b = def_union_body_arr(n, v.data())); if (b->NumEntries != n) VIOL("array", "%d of %d entries", (int)b->NumEntries, n); WORK(body_to_strbuilder(b)); END; });
	scene("enum body made of an array", 1500, [](int n) { CTX; std::vector<Code> v; for (int i = 0; i < n; i++) { S s = num("A%d,", i); v.push_back(untyped_str(V(s))); } WORK(CodeBody b = def_enum_body_arr(n, v.data()); body_to_strbuilder(b)); END; });
	scene("parameters made of an array", 1500, [](int n) { CTX; std::vector<CodeParams> v; for (int i = 0; i < n; i++) v.push_back(def_param(t_i(), N("p%d", i))); CodeParams p; WORK(p = def_params_arr(n, v.data())); if (p->NumEntries != n) VIOL("array", "%d of %d parameters", (int)p->NumEntries, n); WORK(params_to_strbuilder(p)); END; });
	scene("parameters appended", 1500, [](int n) { CTX; std::vector<CodeParams> v; for (int i = 0; i < n; i++) v.push_back(def_param(t_i(), N("p%d", i))); CodeParams p = def_param(t_i(), txt("first")); WORK(for (auto x : v) params_append(p, x)); END; });
	scene("parameters of a define appended", 1500, [](int n) { CTX; std::vector<CodeDefineParams> v; for (int i = 0; i < n; i++) { CodeDefineParams d = (CodeDefineParams)make_code(); d->Type = CT_Parameters_Define; d->Name = N("p%d", i); d->NumEntries = 1; v.push_back(d); } WORK(CodeDefineParams d = def_define_params_arr(n, v.data()); define_params_to_strbuilder(d)); END; });
	scene("text appended", 3000, [](int n) { StrBuilder s = strbuilder_make_str(heap(), txt("")); WORK(for (int i = 0; i < n; i++) strbuilder_append_str(&s, txt("some text"))); if (strbuilder_length(s) != 9 * n) VIOL("text", "length %ld", (long)strbuilder_length(s)); strbuilder_free(&s); });
	scene("characters appended", 8000, [](int n) { StrBuilder s = strbuilder_make_str(heap(), txt("")); WORK(for (int i = 0; i < n; i++) strbuilder_append_char(&s, 'a'); for (int i = 0; i < n; i++) strbuilder_append_c_str(&s, "b")); strbuilder_free(&s); });
	scene("formatted text appended", 1500, [](int n) { StrBuilder s = strbuilder_make_str(heap(), txt("")); WORK(for (int i = 0; i < n; i++) strbuilder_append_fmt(&s, "%d %s %S", i, "abc", txt("def"))); strbuilder_free(&s); });
	scene("texts joined", 1500, [](int n) { std::vector<const char*> p(n, "part"); WORK(StrBuilder s = strbuilder_join(heap(), p.data(), n, ", "); strbuilder_free(&s)); });
	scene("text examined", 20000, [](int n) { S t(n, 'a'); t += "b \t"; StrBuilder s = strbuilder_make_str(heap(), V("   " + t)), u = strbuilder_duplicate(s, heap()); WORK(strbuilder_are_equal(s, u); strbuilder_starts_with_string(s, u); strbuilder_contains_str(s, txt("zz")); str_contains(strbuilder_to_str(s), txt("b ")); strbuilder_trim_space(s); strbuilder_strip_space(u)); strbuilder_free(&s); strbuilder_free(&u); });
	scene("white space made visible", 8000, [](int n) { S t; for (int i = 0; i < n; i++) t += "a \n"; WORK(str_visualize_whitespace(V(t), heap())); });
	scene("text of any length formatted", 20000, [](int n) { S t(n, 'x'); char* b = (char*)malloc(n + 100); WORK(c_str_fmt(b, n + 100, "%s-%S-%d", t.c_str(), txt("x"), 3)); free(b); StrBuilder s; WORK(s = strbuilder_fmt_buf(heap(), "%s", "short")); strbuilder_free(&s); });
	scene("elements appended", 8000, [](int n) { Array<int> a = array_init<int>(heap()); WORK(for (int i = 0; i < n; i++) array_append(&a, i)); array_free(&a); });
	scene("elements appended from an array", 3000, [](int n) { Array<int> a = array_init<int>(heap()); int two[2] = { 1, 2 }; WORK(for (int i = 0; i < n; i++) array_append_items(&a, two, 2)); array_free(&a); });
	scene("elements popped", 8000, [](int n) { Array<int> a = array_init<int>(heap()); for (int i = 0; i < n; i++) array_append(&a, i); WORK(for (int i = 0; i < n; i++) array_pop(a)); array_free(&a); });
	scene("table entries", 3000, [](int n) { HashTable<int> h = hashtable_init<int>(heap()); WORK(for (int i = 0; i < n; i++) hashtable_set(&h, (u64)i * 2654435761u, i); for (int k = 0; k < 8; k++) for (int i = 0; i < n; i++) if (!hashtable_get(h, (u64)i * 2654435761u)) VIOL("table", "entry %d is missing", i)); hashtable_destroy(&h); });
	scene("table entries with neighbouring keys", 3000, [](int n) { HashTable<int> h = hashtable_init<int>(heap()); WORK(for (int i = 0; i < n; i++) hashtable_set(&h, (u64)i, i); for (int k = 0; k < 8; k++) for (int i = 0; i < n; i++) hashtable_get(h, (u64)(i + n))); hashtable_destroy(&h); });
	scene("pool blocks", 3000, [](int n) { Pool p = pool_init(heap(), n, 64); std::vector<void*> v; AllocatorInfo a = pool_allocator_info(&p); WORK(for (int i = 0; i < n; i++) v.push_back(alloc(a, 64))); WORK(for (auto x : v) allocator_free(a, x)); pool_free(&p); });
	scene("arena allocations", 3000, [](int n) { Arena a = arena_init_from_allocator(heap(), 64 * n + 4096); AllocatorInfo i_ = arena_allocator_info(&a); WORK(for (int i = 0; i < n; i++) alloc(i_, 24)); arena_free(&a); });
	scene("table file read", 700, [](int n) { S s = rep(n, "a,b\n", "%d,text\n", ""); std::vector<char> t(s.begin(), s.end()); t.push_back(0); CSV_Object o; memset(&o, 0, sizeof o); u8 e; WORK(e = csv_parse(&o, t.data(), heap(), true)); if (e) VIOL("csv", "error %d", e); csv_free(&o); });
	scene("wide table file read", 700, [](int n) { S s = rep(n, "", "c%d,", "z\n") + rep(n, "", "%d,", "1\n"); std::vector<char> t(s.begin(), s.end()); t.push_back(0); CSV_Object o; memset(&o, 0, sizeof o); u8 e; WORK(e = csv_parse(&o, t.data(), heap(), true)); if (e) VIOL("csv", "error %d", e); csv_free(&o); });
	scene("table file written", 700, [](int n) { S s = rep(n, "a,b\n", "%d,text\n", ""); std::vector<char> t(s.begin(), s.end()); t.push_back(0); CSV_Object o; memset(&o, 0, sizeof o); csv_parse(&o, t.data(), heap(), true); WORK(StrBuilder w = csv_write_string(heap(), &o); strbuilder_free(&w)); csv_free(&o); });
	scene("long cell read", 8000, [](int n) { S s = "a,b\n\"" + S(n, 'x') + "\",1\n"; std::vector<char> t(s.begin(), s.end()); t.push_back(0); CSV_Object o; memset(&o, 0, sizeof o); WORK(csv_parse(&o, t.data(), heap(), true)); csv_free(&o); });
	scene("tree children appended", 1500, [](int n) { ADT_Node r; memset(&r, 0, sizeof r); adt_set_obj(&r, "root", heap()); WORK(for (int i = 0; i < n; i++) adt_append_int(&r, "x", i)); WORK(adt_destroy_branch(&r)); });
	scene("stream written", 3000, [](int n) { FileInfo f; file_stream_new(&f, heap()); WORK(for (int i = 0; i < n; i++) file_write(&f, "some text", 9)); ssize k; file_stream_buf(&f, &k); if (k != 9 * n) VIOL("stream", "%ld bytes", (long)k); file_close(&f); });
	scene("printed into a stream", 1500, [](int n) { FileInfo f; file_stream_new(&f, heap()); WORK(for (int i = 0; i < n; i++) c_str_fmt_file(&f, "%d %s\n", i, "abc")); file_close(&f); });
	scene("built", 700, [](int n) { CTX; std::vector<Code> v; for (int i = 0; i < n; i++) v.push_back((Code)var(i)); Builder b = builder_open("out.txt"); WORK(for (auto x : v) builder_print(&b, x); for (int i = 0; i < n; i++) builder_print_fmt(&b, "%d\n", i); builder_pad_lines(&b, n); builder_write(&b)); END; });
	scene("file read", 20000, [](int n) { CTX; { std::ofstream o("in.txt"); o << S(n, 'x'); } WORK(FileContents f = file_read_contents(heap(), true, "in.txt"); allocator_free(heap(), f.data)); END; });
	scene("tokens replaced", 700, [](int n) { CTX; S f = rep(n, "", "a <x> b ", ""); S o(12 * n + 100, 0); Str x = txt("v"); WORK(untyped_token_fmt(1, f.c_str(), "x", x)); END; });
	scene("sources parsed one after another", 400, [](int n) { CTX; std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("struct S { int a%d; };", i)); WORK(for (auto& x : s) parse_struct(V(x))); END; });
	scene("sources lexed one after another", 400, [](int n) { CTX; std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("int a%d = 3;", i)); WORK(for (auto& x : s) parse_variable(V(x))); END; });
	scene("refused sources one after another", 200, [](int n) { CTX; std::vector<S> s; for (int i = 0; i < n; i++) s.push_back(num("int a%d = ", i)); for (auto& x : s) { if (TRAPS(WORK(parse_variable(V(x))))) on = false; } END; });
	scene("written one after another", 700, [](int n) { CTX; std::vector<Code> v; for (int i = 0; i < n; i++) v.push_back((Code)var(i)); WORK(for (auto x : v) code_to_strbuilder(x)); END; });
	scene("contexts one after another", 40, [](int n) { WORK(for (int i = 0; i < n; i++) { CTX; parse_struct(txt("struct S { int a; };")); END; }); });
}
static void hostile() {
	const char* fr[] = { "{", "(", "<", "[", "}", ")", ">", "::", "~", "operator ", "\\\n", "'", "' ", "\"", "\" ", "//", "/*", "/* */", "#", "#\n", "#define A", "#define A\n", "#define A(", "#if", "#if\n", "#endif\n", "#else\n", "#include <", "#pragma", "a", "a ", "1", "1 ", ".", "...", "-", "+ ", "\n", " ", "\t", "\r\n", ";", ",", ":", "=", "a<", "a(", "template<", "__attribute__((", "R\"(", "\xc3", "a::b<c>::", "'\\''", "'\"'", "\"//\"", "/*\n", "static ", "#define A \\\n", "\\" };
	for (auto f : fr) for (int tail = 0; tail < 2; tail++) { S t = f, e = tail ? "\nint a;\n" : ""; scenes.push_back({ vp_fmt("lex nothing but %s%s", vp_esc(t).c_str(), tail ? " and a variable" : ""), [t, e](int n) { S s; for (int i = 0; i < n; i++) s += t; s += e; Context* c = ctx_new(); if (TRAPS(WORK(lex(V(s))))) on = false; ctx_end(c); }, 3000 }); }
	const char* bad[] = { "int = ;", "struct {", "template<", "operator", "#define", "enum E {", "void f(", "a b c d", "\"", "int a[", "}" };
	Row* rows[] = { ROWS, ROWS + 1, ROWS + 2, ROWS + 3, ROWS + 6 };
	for (auto b : bad) for (auto r : rows) { S t = b; scenes.push_back({ vp_fmt("parse %s and %s", r->name, b), [t, r](int n) { S s = rep(n, r->pre, r->item, r->post) + t; Context* c = ctx_new(); if (TRAPS(WORK(parse_global_body(V(s))))) on = false; ctx_end(c); }, 500 }); S u = S(b) + "\n"; scenes.push_back({ vp_fmt("parse %s within %s", b, r->name), [u, r](int n) { S s = rep(n, (u + r->pre).c_str(), r->item, r->post); Context* c = ctx_new(); if (TRAPS(WORK(parse_global_body(V(s))))) on = false; ctx_end(c); }, 500 }); }
}
static void fill() {
	for (Row& r : ROWS) { Row* p = &r; S one = rep(2, "", r.item, ""); int n = (int)(9000 / (one.size() / 2)); if (n > 1200) n = 1200; parse_scene(r.name, [p](int k) { return rep(k, p->pre, p->item, p->post); }, n); }
	api(); hostile();
	if (const char* f = getenv("VP_TEXTS")) {   // programs of the other checks, one after another
		std::ifstream in(f, std::ios::binary); S all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); size_t at = 0, k = 0;
		while (at < all.size()) { size_t e = all.find('\0', at); if (e == S::npos) e = all.size(); S t = all.substr(at, e - at) + "\n"; at = e + 1; parse_scene(vp_fmt("program %zu", k++), [t](int n) { S r; r.reserve(n * t.size()); for (int i = 0; i < n; i++) r += t; return r; }, (int)(8000 / t.size()) + 1); }
	}
}
static const char* doing; static int doing_n; static double base_steps;
static void over() { on = false; VIOL("steps", "%s: %.0f steps for one sixteenth or less, more than %.0f for %d (stopped)", doing, base_steps, limit, doing_n); }
static void overb() { on = false; VIOL("bytes", "%s: more than %.0f bytes asked for and copied for %d (stopped)", doing, blimit, doing_n); }
static void vp_round_fn(long r) {
	if (scenes.empty()) fill();
	if (r >= (long)scenes.size()) { COUNT("no scene"); return; }
	Scene& s = scenes[r]; double e[2], b[2]; int f = factor = getenv("VP_FACTOR") ? atoi(getenv("VP_FACTOR")) : 16;
	for (int i = 0; i < 2; i++) { HIST("%s: %d", s.name.c_str(), i ? s.n * f : s.n); edges = bytes = 0; limit = i ? 2 * f * (1.75 * e[0] + 60. * s.n) : 5e8; blimit = i ? 2 * f * (2.2 * b[0] + 300. * s.n) + 1e6 : 2e9; doing = s.name.c_str(); doing_n = s.n * f; base_steps = e[0]; s.run(i ? s.n * f : s.n); on = false; e[i] = edges; b[i] = bytes; }
	bool prog = s.name.find("program ") != S::npos; COUNT(prog ? "programs" : "constructs and operations");
	if (getenv("VP_SHOW")) fprintf(vp_out, "R\t%-45s %12.0f x%6.2f %14.0f x%6.2f\n", s.name.c_str(), e[0], e[1] / (e[0] + 1), b[0], b[1] / (b[0] + 1));
	if (e[1] > f * (1.75 * e[0] + 60. * s.n)) VIOL("steps", "%s: %.0f steps for %d, %.0f for %d (%.1f times as many)", s.name.c_str(), e[0], s.n, e[1], s.n * f, e[1] / (e[0] + 1));
	if (b[1] > f * (2.2 * b[0] + 300. * s.n) + 3e5) VIOL("bytes", "%s: %.0f bytes asked for and copied for %d, %.0f for %d (%.1f times as many)", s.name.c_str(), b[0], s.n, b[1], s.n * f, b[1] / (b[0] + 1));
	COUNT(S("held: ") + (prog ? s.name.substr(0, s.name.find(' ')) + " of programs" : s.name));
}
