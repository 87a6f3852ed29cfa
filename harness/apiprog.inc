// P18: programs of library calls in the common subset of C and C++: the same text is compiled against every variant.
// argv: sources  output  seed  first  count  [v]     sources: (kind, length, bytes)*; the first cases parse each of them, the others are random programs
#ifdef __cplusplus
#define G(x) gen::x
#define PTR(c) ((c).ast)
#define NIL { nullptr }
#define HEAP() gen::heap()
#define DEF0(fn, T, ...)          gen::def_##fn(gen::Opts_def_##T{ __VA_ARGS__ })
#define DEF1(fn, T, a, ...)       gen::def_##fn(a, gen::Opts_def_##T{ __VA_ARGS__ })
#define DEF2(fn, T, a, b, ...)    gen::def_##fn(a, b, gen::Opts_def_##T{ __VA_ARGS__ })
#define ARRX array_expr
#else
#define G(x) gen_##x
#define PTR(c) ((gen_AST*)(c))
#define NIL 0
#define HEAP() gen_heap()
#define DEF0(fn, T, ...)          gen_def_##fn(__VA_ARGS__)
#define DEF1(fn, T, a, ...)       gen_def_##fn(a, __VA_ARGS__)
#define DEF2(fn, T, a, b, ...)    gen_def_##fn(a, b, __VA_ARGS__)
#define ARRX gen_array_expr
#endif
enum { n_int = ADT_(INTEGER), n_real = ADT_(REAL) };
typedef G(Str) S;
static uint64_t rs; static uint64_t rnd(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int below(int n) { return n > 0 ? (int)(rnd() % (unsigned)n) : 0; }
static int chance(int p) { return below(100) < p; }
static FILE* out; static char* buf; static size_t len, cap; static long nops;
static void put(const char* p, long n) { if (n < 0) n = 0; if (len + n + 1 > cap) { cap = (len + n + 1) * 2; buf = (char*)realloc(buf, cap); } if (n) memcpy(buf + len, p, n); len += n; }
static void say(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); put(b, n < (int)sizeof b ? n : (int)sizeof b - 1); }
static S mk(const char* s) { S r; r.Ptr = s; r.Len = (long)strlen(s); return r; }
static void put_s(S s) { put(s.Ptr, s.Len); }
// ---- sources
typedef struct Src { unsigned kind, len; char* p; } Src;
static Src* srcs; static int nsrcs;
#define KINDS(X) X(class) X(constructor) X(define) X(destructor) X(enum) X(export_body) X(extern_link) X(friend) X(function) X(global_body) X(namespace) X(operator) X(operator_cast) X(struct) X(template) X(type) X(typedef) X(union) X(using) X(variable)
static G(Code) parse(unsigned kind, S s) {
	unsigned i = 0;
#define X(k) if (kind == i++) return (G(Code))G(parse_##k)(s);
	KINDS(X)
#undef X
	abort();
}
static S copy(Src* s) { S r; char* p = (char*)malloc(s->len + 1); memcpy(p, s->p, s->len); p[s->len] = 0; r.Ptr = p; r.Len = s->len; return r; }
static void drop(S s) { memset((char*)s.Ptr, '?', s.Len); free((char*)s.Ptr); }
// ---- what is seen of a tree
static void dump(G(Code) c, int depth) {
	if (! PTR(c) || depth > 60 || len > 4000000) return;
	say("%*s", depth, ""); put_s(G(code_type_str)(c)); say(" "); put_s(c->Name); say(" m%d\n", (int)c->ModuleFlags);
	if (c->Type == CT_(Specifiers)) { int i; say("%*s specs %d:", depth, "", (int)c->NumEntries); for (i = 0; i < c->NumEntries && i < 16; i++) { say(" "); put_s(G(spec_to_str)(c->ArrSpecs[i])); } say("\n"); return; }
	switch (c->Type) {
		case CT_(Untyped): case CT_(Comment): case CT_(PlatformAttributes): case CT_(Execution): case CT_(Preprocess_Include): case CT_(Preprocess_Pragma): case CT_(Preprocess_If): case CT_(Preprocess_IfDef): case CT_(Preprocess_IfNotDef): case CT_(Preprocess_ElIf):
			say("%*s = ", depth, ""); put_s(c->Content); say("\n"); return;
		case CT_(Preprocess_Else): case CT_(Preprocess_EndIf): case CT_(Access_Private): case CT_(Access_Protected): case CT_(Access_Public): case CT_(NewLine): return;
		default: break;
	}
	if (G(code_is_body)(c)) { int n = 0; G(Code) e = c->Front; for (; PTR(e) && n < c->NumEntries; e = e->Next, n++) dump(e, depth + 1); say("%*s entries %d of %d\n", depth, "", n, (int)c->NumEntries); return; }
	switch (c->Type) { case CT_(Enum): case CT_(Enum_Class): case CT_(Enum_Fwd): case CT_(Enum_Class_Fwd): break; default: if (c->Type != CT_(Typename)) break; say("%*s tag %d\n", depth, "", (int)c->TypeTag); }
	if (c->Type == CT_(Operator) || c->Type == CT_(Operator_Fwd) || c->Type == CT_(Operator_Member) || c->Type == CT_(Operator_Member_Fwd)) { say("%*s op ", depth, ""); put_s(G(operator_to_str)(c->Op)); say("\n"); }
	dump(c->Attributes, depth + 1); dump(c->Specs, depth + 1); dump(c->ReturnType, depth + 1); dump(c->Params, depth + 1); dump(c->Body, depth + 1); dump(c->NextVar, depth + 1); dump(c->InlineCmt, depth + 1);
	if (c->Type == CT_(Parameters) || c->Type == CT_(Parameters_Define)) dump(c->Next, depth);
}
static void text(G(Code) c) { G(StrBuilder) b; if (! PTR(c)) { say("(null)\n"); return; } b = G(code_to_strbuilder)(c); put_s(G(strbuilder_to_str)(b)); say("\n"); }
// ---- programs
enum { MAXV = 48 };
static G(Code) any[MAXV]; static int nany; static G(CodeTypename) tys[MAXV]; static int ntys; static G(CodeParams) prs[MAXV]; static int nprs; static G(CodeSpecifiers) sps[MAXV]; static int nsps;
static G(CodeAttributes) ats[MAXV]; static int nats; static G(CodeDefineParams) dps[MAXV]; static int ndps;
static G(Code) last;
#define KEEP(arr, n, x) do { arr[n < MAXV ? n++ : below(MAXV)] = x; } while (0)
static S nm(void) { static const char* v[] = { "a", "Foo", "bar_2", "x", "_y9", "T", "Vec3", "value", "Name", "params", "body", "struct_", "codes", "union_t", "_1", "operator_like", "ThisIsALongerIdentifierThanTheOthers", "register_macros", "txt", "f" }; if (chance(1)) return mk(""); return mk(v[below(20)]); }
static S tyname(void) { static const char* v[] = { "int", "Foo", "T", "ns::X", "unsigned long", "char", "void", "gen_Code", "Array(int)", "HashTable", "u32" }; if (chance(1)) return mk(""); return mk(v[below(11)]); }
static volatile int parsing;   // a stop within the parser ends the program
static S raw(void) { static const char* v[] = { "x + 1", "return 1;", "a, b", "\"txt(code)\"", "do_once( { } )", "struct_init(a) { b }", "/* a comment */ 0", "sizeof(Code)", "'c'", "\n", " ", "int union_ = 2; // nullptr\n", "#if 0\n#endif\n" }; if (chance(1)) return mk(""); return mk(v[below(13)]); }
static int mf(void) { return chance(12) ? 1 + below(3) : 0; }
static G(CodeTypename) ty(void);
static G(Code) un(void) { return G(untyped_str)(raw()); }
static G(CodeSpecifiers) sp(int pct) { G(CodeSpecifiers) z = NIL; return nsps && chance(pct) ? sps[below(nsps)] : z; }
static G(CodeAttributes) at(int pct) { G(CodeAttributes) z = NIL; return nats && chance(pct) ? ats[below(nats)] : z; }
static G(CodeParams) pr(int pct) { G(CodeParams) z = NIL; return nprs && chance(pct) ? prs[below(nprs)] : z; }
static G(Code) val(int pct) { G(Code) z = NIL; return chance(pct) ? un() : z; }
static G(CodeTypename) mkty(void) {
	G(Code) z = NIL; static const int tags[] = { 0, 1, 2, 3, 4 };
	if (chance(30)) return G(parse_type)(mk(chance(50) ? "unsigned int const*" : "ns::Vec<int, 4>&"));
	return DEF1(type, type, tyname(), .type_tag = (G(ETypenameTag))(chance(10) ? tags[below(5)] : 0), .ARRX = chance(10) ? un() : z, .specifiers = sp(15), .attributes = at(6));
}
static G(CodeTypename) ty(void) { G(CodeTypename) t; if (ntys && chance(70)) return tys[below(ntys)]; t = mkty(); KEEP(tys, ntys, t); return t; }
static G(CodeTypename) ty0(int pct) { G(CodeTypename) z = NIL; return chance(pct) ? ty() : z; }
static G(Code) pickany(void) { G(Code) z = NIL; return nany ? any[below(nany)] : z; }
static G(Code) member(int kind) {   // something that may be in a body of the kind
	G(Code) c; int k = below(7);
	if (kind == 3) return un();
	if (kind == 4) { if (k == 2 || k == 4) k = 1; } else
	if (nany && chance(25)) { c = any[below(nany)]; if (! G(code_is_body)(c)) return c; }
	if (k == 0) return (G(Code))G(def_comment)(mk("a comment\n over lines"));
	if (k == 1) return (G(Code))DEF2(variable, variable, ty(), nm(), .value = val(40), .specifiers = sp(20), .attributes = at(10), .mflags = (G(ModuleFlag))0);
	if (k == 2) return (G(Code))DEF1(function, function, nm(), .params = pr(50), .ret_type = ty0(60), .body = NIL, .specs = sp(20), .attrs = at(10), .mflags = (G(ModuleFlag))0);
	if (k == 3) return un();
	if (k == 4) return (G(Code))DEF2(using, using, nm(), ty(), .attributes = at(10), .mflags = (G(ModuleFlag))0);
	if (k == 5) return (G(Code))G(def_pragma)(mk("pack(push, 1)"));
	return G(untyped_fmt)("%s %d;", "int made", below(100));
}
static int bodykinds[] = { CT_(Class_Body), CT_(Enum_Body), CT_(Export_Body), CT_(Extern_Linkage_Body), CT_(Function_Body), CT_(Global_Body), CT_(Namespace_Body), CT_(Struct_Body), CT_(Union_Body) };
static G(CodeBody) body(int kind, int pct) {
	G(CodeBody) z = NIL; G(Code) es[8]; int n, i; 
	if (! chance(pct)) return z;
	n = 1 + below(6); for (i = 0; i < n; i++) es[i] = member(kind == 1 ? 3 : kind == 4 || kind == 8 ? chance(95) ? 4 : 0 : 0);
	if (chance(30)) { G(CodeBody) b = G(def_body)((G(CodeType))bodykinds[kind]); for (i = 0; i < n; i++) if (chance(50)) G(body_append)(b, es[i]); else G(code_append)((G(Code))b, es[i]); return b; }
	if (chance(40)) switch (kind) {   // the variadic forms
		case 0: return G(def_class_body)(2, es[0], es[n - 1]); case 1: return G(def_enum_body)(1, es[0]); case 2: return G(def_export_body)(1, es[0]); case 3: return G(def_extern_link_body)(2, es[0], es[n - 1]);
		case 4: return G(def_function_body)(3, es[0], es[n / 2], es[n - 1]); case 5: return G(def_global_body)(2, es[0], es[n - 1]); case 6: return G(def_namespace_body)(2, es[0], es[n - 1]); case 7: return G(def_struct_body)(1, es[0]); default: return G(def_union_body)(2, es[0], es[n - 1]);
	}
	switch (kind) {
		case 0: return G(def_class_body_arr)(n, es); case 1: return G(def_enum_body_arr)(n, es); case 2: return G(def_export_body_arr)(n, es); case 3: return G(def_extern_link_body_arr)(n, es); case 4: return G(def_function_body_arr)(n, es);
		case 5: return G(def_global_body_arr)(n, es); case 6: return G(def_namespace_body_arr)(n, es); case 7: return G(def_struct_body_arr)(n, es); default: return G(def_union_body_arr)(n, es);
	}
}
static void typed(G(Code) c) {   // by the functions of its kind
	G(StrBuilder) b = G(strbuilder_make_reserve)(HEAP(), 64);
	switch (c->Type) {
		case CT_(Class): case CT_(Class_Fwd): G(strbuilder_append_string)(& b, G(class_to_strbuilder)((G(CodeClass))c)); break;
		case CT_(Struct): G(struct_to_strbuilder_def)((G(CodeStruct))c, & b); break;
		case CT_(Struct_Fwd): G(struct_to_strbuilder_fwd)((G(CodeStruct))c, & b); break;
		case CT_(Enum): G(enum_to_strbuilder_def)((G(CodeEnum))c, & b); break;
		case CT_(Enum_Class): G(enum_to_strbuilder_class_def)((G(CodeEnum))c, & b); break;
		case CT_(Function): G(fn_to_strbuilder_def)((G(CodeFn))c, & b); break;
		case CT_(Function_Fwd): G(fn_to_strbuilder_fwd)((G(CodeFn))c, & b); break;
		case CT_(Variable): G(var_to_strbuilder_ref)((G(CodeVar))c, & b); break;
		case CT_(Typedef): G(typedef_to_strbuilder_ref)((G(CodeTypedef))c, & b); break;
		case CT_(Using): G(using_to_strbuilder_ref)((G(CodeUsing))c, & b); break;
		case CT_(Template): G(template_to_strbuilder_ref)((G(CodeTemplate))c, & b); break;
		case CT_(Typename): G(typename_to_strbuilder_ref)((G(CodeTypename))c, & b); break;
		case CT_(Parameters): G(params_to_strbuilder_ref)((G(CodeParams))c, & b); break;
		case CT_(Specifiers): G(specifiers_to_strbuilder_ref)((G(CodeSpecifiers))c, & b); break;
		case CT_(Preprocess_Define): G(define_to_strbuilder_ref)((G(CodeDefine))c, & b); break;
		case CT_(Preprocess_Pragma): G(pragma_to_strbuilder_ref)((G(CodePragma))c, & b); break;
		case CT_(Comment): G(comment_to_strbuilder_ref)((G(CodeComment))c, & b); break;
		case CT_(Friend): G(friend_to_strbuilder_ref)((G(CodeFriend))c, & b); break;
		case CT_(Preprocess_Include): G(include_to_strbuilder_ref)((G(CodeInclude))c, & b); break;
		case CT_(Global_Body): G(body_to_strbuilder_ref)((G(CodeBody))c, & b); break;
		case CT_(Operator_Cast): G(opcast_to_strbuilder_def)((G(CodeOpCast))c, & b); break;
		case CT_(Operator): case CT_(Operator_Member): G(code_op_to_strbuilder_def)((G(CodeOperator))c, & b); break;
		default: return;
	}
	say("typed: "); put_s(G(strbuilder_to_str)(b)); say("\n"); G(strbuilder_free)(& b);
}
static void strings(void) {
	G(StrBuilder) a = G(strbuilder_make_str)(HEAP(), raw()), b = G(strbuilder_make_reserve)(HEAP(), below(20)); int n = 1 + below(8);
	while (n--) switch (below(9)) {
		case 0: G(strbuilder_append_str)(& a, nm()); break;
		case 1: G(strbuilder_append_char)(& b, (char)('a' + below(26))); break;
		case 2: G(strbuilder_append_string)(& a, b); break;
		case 3: G(strbuilder_append_fmt)(& b, "%d|%-5s|%x|%SB|%S|%c|%llu|%.3f", below(1000) - 500, "q", below(70000), a, nm(), 'z', (unsigned long long)rnd(), below(1000) / 8.0); break;
		case 4: G(strbuilder_trim)(a, " \nx"); break;
		case 5: say("%d %d %d\n", (int)G(strbuilder_are_equal)(a, b), (int)G(strbuilder_contains_str)(a, nm()), (int)G(strbuilder_starts_with_str)(b, nm())); break;
		case 6: { G(StrBuilder) d = G(strbuilder_visualize_whitespace)(a); put_s(G(strbuilder_to_str)(d)); break; }
		case 7: { G(StrBuilder) d = G(strbuilder_duplicate)(a, HEAP()); G(strbuilder_append_c_str)(& d, "-dup"); put_s(G(strbuilder_to_str)(d)); G(strbuilder_free)(& d); break; }
		default: { S x = nm(), y = tyname(); char t[64]; strcpy(t, "MixedCase_9"); say("%d %d %ld %d\n", (int)G(str_are_equal)(x, y), (int)G(str_contains)(x, y), (long)G(c_str_len)(t), G(c_str_compare)("ab", "ac")); G(c_str_to_lower)(t); say("%s %lld\n", t, (long long)G(c_str_to_i64)(chance(50) ? "-77" : "0x1F", 0, 0)); break; }
	}
	put_s(G(strbuilder_to_str)(a)); say("|"); put_s(G(strbuilder_to_str)(b)); say("|%ld %ld\n", (long)G(strbuilder_length)(a), (long)G(strbuilder_length)(b));
	G(strbuilder_free)(& a); G(strbuilder_free)(& b);
}
static void files(void) {
	const char* f = "vp18.txt"; G(Builder) b = G(builder_open)(f); int n = 1 + below(5); char tmp[4096]; size_t k; FILE* h;
	while (n--) switch (below(4)) { case 0: G(builder_print)(& b, nany ? any[below(nany)] : un()); break; case 1: G(builder_print_fmt)(& b, "%d %s %S\n", below(9), "fmt", nm()); break; case 2: G(builder_print)(& b, ty()); break; default: G(builder_pad_lines)(& b, below(3)); }
	G(builder_write)(& b);
	h = fopen(f, "rb"); if (h) { while ((k = fread(tmp, 1, sizeof tmp, h))) put(tmp, k); fclose(h); }
	if (chance(50)) { G(Code) c = G(scan_file)(f); say("scanned: "); text(c); } else { G(CodeBody) c; parsing = 1; c = G(parse_file)(f); parsing = 0; say("parsed: "); text((G(Code))c); }
	remove(f);
}
static void data(void) {
	static const char* txts[] = { "a,b,c\n1,2,3\n4,5,6\n", "name;value\nx;1.5\n\"q;\"\"r\";-2e3\n", "1,0x1F,abc\n,,\n", "h1,h2\n" };
	static const char* nums[] = { "12", "-7", "0x1F", "3.25", "1e3", "-2.5e-2", "+4", "12abc", "x", ".5" };
	if (chance(50)) {
		char t[128]; G(CSV_Object) o; int k = below(4), rc; char delim = k == 1 ? ';' : ','; strcpy(t, txts[k]); memset(& o, 0, sizeof o);
		rc = (int)G(csv_parse_delimiter)(& o, t, HEAP(), chance(50), delim); say("csv %d ", rc);
		if (! rc) { G(StrBuilder) w = G(csv_write_strbuilder_delimiter)(HEAP(), & o, chance(50) ? delim : '|'); put_s(G(strbuilder_to_str)(w)); say("\n"); G(strbuilder_free)(& w); }
		G(csv_free)(& o);
	} else {
		G(ADT_Node) root, *n, *m; int i, k = 1 + below(6); char t[32]; memset(& root, 0, sizeof root); G(adt_set_obj)(& root, "root", HEAP()); n = & root;
		for (i = 0; i < k; i++) switch (below(5)) {
			case 0: m = G(adt_append_obj)(& root, "obj"); if (m) G(adt_append_int)(m, "in", below(100)); break;
			case 1: m = G(adt_append_arr)(& root, "arr"); if (m) { G(adt_append_str)(m, 0, "s0"); G(adt_append_flt)(m, 0, below(64) / 8.0); } break;
			case 2: G(adt_append_str)(& root, "str", "text"); break;
			case 3: G(adt_append_int)(& root, "int", below(1000) - 500); break;
			default: G(adt_append_flt)(& root, "flt", below(1000) / 8.0); break;
		}
		{ static const char* q[] = { "obj/in", "arr/[s0]", "str", "arr/0", "int", "flt", "none/here", "obj" }; for (i = 0; i < 4; i++) { n = G(adt_query)(& root, q[below(8)]); say("%d ", n ? (int)n->type : -1); if (n && n->name) say("%s ", n->name); } n = G(adt_find)(& root, "in", chance(50)); say("find %d ", n ? (int)n->integer : -1); }
		G(adt_destroy_branch)(& root);
		{ G(ADT_Node) d; memset(& d, 0, sizeof d); strcpy(t, nums[below(10)]); G(adt_parse_number)(& d, t); say("number %d %lld %.6g\n", (int)d.type, d.type == (unsigned)n_int ? (long long)d.integer : 0, d.type == (unsigned)n_real ? (double)d.real : 0); }
	}
}
static void misc(void) {
	char b[96]; int i, n = 1 + below(5); const char* z = "12345.678e2 tail";
	for (i = 0; i < n; i++) switch (below(6)) {
		case 0: G(u64_to_str)(rnd() >> below(64), b, chance(50) ? 10 : 16); say("%s ", b); break;
		case 1: G(i64_to_str)((long long)rnd() >> below(64), b, 2 + below(35)); say("%s ", b); break;
		case 2: say("%x %llx ", (unsigned)G(crc32)(z, below(16)), (unsigned long long)G(crc64)(z, below(16))); break;
		case 3: { char* e = 0; say("%.9g ", (double)G(c_str_to_f64)(z + below(8), & e)); say("[%s] ", e ? e : ""); break; }
		case 4: say("%s ", G(c_str_fmt_buf)("%6.2f|%+d|%#x|%-8s|%c%%|%.3s|%lld", below(999) / 4.0, below(9), below(255), "left", 'q', "abcdef", (long long)below(7))); break;
		default: { S k = G(cache_str)(nm()), l = G(cache_str)(mk("Foo")); put_s(k); say(" same %d ", (int)(k.Ptr == l.Ptr)); }
	}
	say("\n");
}
static void use_allocator(G(AllocatorInfo) ai, char* base, int heap, int pool) {   // what it hands out, as places within its memory
	char* p[12]; long z[12]; int n = 0, i, k = 1 + below(10);
	while (k--) {
		long want = 1 + below(chance(20) ? 700 : 60); char* q = 0; i = below(n ? n : 1);
		switch (below(6)) {
			case 0: case 1: if (pool) want = 24; q = (char*)G(alloc)(ai, want); break;
			case 2: if (pool) q = (char*)G(alloc)(ai, want = 24); else q = (char*)G(alloc_align)(ai, want, 1 << below(heap ? 5 : 7)); break;
			case 3: if (n && ! pool) { long o = z[i]; q = (char*)G(resize)(ai, p[i], o, want); if (q && n) { int j, m = (int)(o < want ? o : want), same = 1; for (j = 0; j < m; j++) same &= (unsigned char)q[j] == (unsigned char)(i + 1); say("kept %d ", same); p[i] = p[n - 1]; z[i] = z[n - 1]; n--; } } break;
			case 4: if (n && pool) { G(allocator_free)(ai, p[i]); say("freed %d ", i); p[i] = p[n - 1]; z[i] = z[n - 1]; n--; for (i = 0; i < n; i++) memset(p[i], i + 1, z[i]); } break;
			default: if (chance(20)) { G(free_all)(ai); n = 0; say("all freed "); } break;
		}
		if (q) { say("at %ld ", base ? (long)(q - base) : 0L); if (n < 12) { p[n] = q; z[n] = want; memset(q, n + 1, want); n++; for (i = 0; i < n; i++) memset(p[i], i + 1, z[i]); } }
		else say("none ");
	}
}
#define FIXED(T) { static struct { G(T) v; } __attribute__((aligned(4096))) f; memset(& f, 0xEE, sizeof f); G(fixed_arena_init)(& f.v); say(#T " %ld of %ld ", (long)G(fixed_arena_size_remaining)(& f.v, 1 << below(5)), (long)sizeof f.v.memory); use_allocator(G(fixed_arena_allocator_info)(& f.v), f.v.memory, 0, 0); say("left %ld ", (long)G(fixed_arena_size_remaining)(& f.v, 1)); if (chance(50)) G(fixed_arena_free)(& f.v); }
static char space[65536] __attribute__((aligned(4096)));
static void memory(void) {
	switch (below(16)) {
		case 0: FIXED(FixedArena_1KB) break; case 1: FIXED(FixedArena_4KB) break; case 2: FIXED(FixedArena_8KB) break; case 3: FIXED(FixedArena_16KB) break; case 4: FIXED(FixedArena_32KB) break; case 5: FIXED(FixedArena_64KB) break;
		case 6: FIXED(FixedArena_128KB) break; case 7: FIXED(FixedArena_256KB) break; case 8: FIXED(FixedArena_512KB) break; case 9: FIXED(FixedArena_1MB) break; case 10: FIXED(FixedArena_2MB) break; case 11: FIXED(FixedArena_4MB) break;
		case 12: { G(Arena) a = G(arena_init_from_memory)(space, 64 + below(3000)), b; use_allocator(G(arena_allocator_info)(& a), space, 0, 0); b = G(arena_init_from_allocator)(G(arena_allocator_info)(& a), 10 + below(100)); if (b.PhysicalStart) use_allocator(G(arena_allocator_info)(& b), space, 0, 0); say("left %ld %ld", (long)G(arena_size_remaining)(& a, 1), (long)G(arena_size_remaining)(& b, 8)); break; }
		case 13: { G(Arena) a = G(arena_init_from_memory)(space, sizeof space); G(Pool) q = G(pool_init)(G(arena_allocator_info)(& a), 2 + below(12), 24); use_allocator(G(pool_allocator_info)(& q), space, 0, 1); if (chance(30)) { G(pool_clear)(& q); use_allocator(G(pool_allocator_info)(& q), space, 0, 1); } break; }
		case 14: { G(Arena) a = G(arena_init_from_allocator)(HEAP(), 64 + below(2000)); { G(Arena) b = G(arena_init_sub)(& a, 64 + below(500)); use_allocator(G(arena_allocator_info)(& a), (char*)a.PhysicalStart, 1, 0); use_allocator(G(arena_allocator_info)(& b), (char*)b.PhysicalStart, 1, 0); G(arena_free)(& b); } G(arena_free)(& a); break; }
		default: { G(VirtualMemory) v = G(vm_alloc)(0, 65536); char* d = (char*)v.data; int i, ok = 1; for (i = 0; i < 65536; i++) ok &= ! d[i]; say("fresh %d size %ld ", ok, (long)v.size); memset(d, 1, v.size); G(vm_free)(v); break; }
	}
	say("\n");
}
static void macros(void) {
	static const char* ns[] = { "VP_STMT", "VP_EXPR", "VP_TYPE", "VP_ATTR" }; static const char* srcs_[] = { "VP_STMT(a, b)\nint x;\n", "int y = VP_EXPR( 1, (2) );\nVP_STMT(q)\n", "VP_TYPE(int) z;\nstruct Q { VP_STMT(w) VP_TYPE(T) f; };\n", "void f() { VP_STMT(\"s)\"); }\nVP_TYPE v;\n" };
	G(Macro) m; G(CodeBody) c; int k, i;
	for (k = below(4); k >= 0; k--) { i = below(4); m.Name = G(cache_str)(mk(ns[i])); m.Type = (G(MacroType))(i < 3 && chance(94) ? i == 0 ? MT_(Statement) : i == 1 ? MT_(Expression) : MT_(Typename) : MT_(Statement)); m.Flags = (G(MacroFlags))(chance(94) ? 1 : below(6)); if (chance(50)) G(register_macro)(m); else G(register_macros_arr)(1, & m); }
	parsing = 1; c = G(parse_global_body)(mk(srcs_[below(4)])); parsing = 0; say("macros: "); text((G(Code))c); if (chance(40)) dump((G(Code))c, 0);
}
static const int opers[] = { Op_(Assign), Op_(Assign_Add), Op_(Add), Op_(Subtract), Op_(Multiply), Op_(LEqual), Op_(LAnd), Op_(Subscript), Op_(FunctionCall), Op_(Increment), Op_(UnaryNot), Op_(MemberOfPointer), Op_(New), Op_(LShift) };
static const int speclist[] = { Spec_(Const), Spec_(Inline), Spec_(Static), Spec_(Constexpr), Spec_(Virtual), Spec_(Ptr), Spec_(Ref), Spec_(Final), Spec_(Explicit), Spec_(ForceInline), Spec_(Thread_Local), Spec_(Override), Spec_(Internal_Linkage), Spec_(External_Linkage), Spec_(Pure), Spec_(NeverInline) };
static G(Specifier) spec(void) { return (G(Specifier))speclist[below(sizeof speclist / sizeof * speclist)]; }
static void step(void) {
	G(Code) c = NIL; int op = below(50); nops++;
	say("@%d ", op);
	switch (op) {
		case 0: { G(CodeTypename) t = mkty(); KEEP(tys, ntys, t); c = (G(Code))t; break; }
		case 1: case 2: { G(CodeParams) p; if (chance(50)) p = DEF2(param, param, ty(), nm(), .value = val(30)); else { G(CodeParams) a = DEF2(param, param, ty(), nm(), .value = val(20)), b = DEF2(param, param, ty(), nm(), .value = val(20)); p = chance(50) ? G(def_params)(2, a, b) : a; if (PTR(p) == PTR(a)) G(params_append)(a, b); } KEEP(prs, nprs, p); c = (G(Code))p; break; }
		case 3: { G(CodeSpecifiers) s; G(Specifier) v[4]; int n = 1 + below(4), i; for (i = 0; i < n; i++) v[i] = spec(); s = chance(30) ? G(def_specifier)(v[0]) : chance(50) ? G(def_specifiers)(2, v[0], v[n - 1]) : G(def_specifiers_arr)(n, v); KEEP(sps, nsps, s); c = (G(Code))s; break; }
		case 4: { G(CodeAttributes) a = G(def_attributes)(mk(chance(50) ? "[[nodiscard]]" : "GEN_API")); KEEP(ats, nats, a); c = (G(Code))a; break; }
		case 5: case 6: c = (G(Code))DEF2(variable, variable, ty(), nm(), .value = val(50), .specifiers = sp(30), .attributes = at(20), .mflags = (G(ModuleFlag))mf()); break;
		case 7: case 8: c = (G(Code))DEF1(function, function, nm(), .params = pr(60), .ret_type = ty0(70), .body = body(4, 50), .specs = sp(30), .attrs = at(20), .mflags = (G(ModuleFlag))mf()); break;
		case 9: { G(CodeTypename) is[2]; is[0] = ty(); is[1] = ty(); c = (G(Code))DEF1(struct, struct, nm(), .body = body(7, 70), .parent = ty0(30), .parent_access = (G(AccessSpec))below(4), .attributes = at(20), .interfaces = is, .num_interfaces = chance(20) ? 1 + below(2) : 0, .specifiers = sp(8), .mflags = (G(ModuleFlag))mf()); break; }
		case 10: { c = (G(Code))DEF1(class, struct, nm(), .body = body(0, 70), .parent = ty0(30), .parent_access = (G(AccessSpec))below(4), .attributes = at(20), .interfaces = 0, .num_interfaces = 0, .specifiers = sp(8), .mflags = (G(ModuleFlag))mf()); break; }
		case 11: { G(Code) z = NIL; c = (G(Code))DEF1(enum, enum, nm(), .body = body(1, 70), .type = ty0(30), .specifier = chance(40) ? EnumT_(Class) : EnumT_(Regular), .attributes = at(20), .mflags = (G(ModuleFlag))mf(), .type_macro = z); break; }
		case 12: c = (G(Code))DEF2(union, union, nm(), body(8, 80), .attributes = at(20), .mflags = (G(ModuleFlag))mf()); break;
		case 13: c = (G(Code))DEF2(namespace, namespace, nm(), body(6, 95), .mflags = (G(ModuleFlag))mf()); break;
		case 14: c = (G(Code))G(def_extern_link)(mk("C"), body(3, 95)); break;
		case 15: c = (G(Code))DEF2(typedef, typedef, nm(), (G(Code))ty(), .attributes = at(20), .mflags = (G(ModuleFlag))mf()); break;
		case 16: c = (G(Code))DEF2(using, using, nm(), ty(), .attributes = at(20), .mflags = (G(ModuleFlag))mf()); break;
		case 17: c = (G(Code))G(def_using_namespace)(nm()); break;
		case 18: c = (G(Code))DEF2(operator, operator, (G(Operator))opers[below(14)], chance(20) ? nm() : mk(""), .params = pr(80), .ret_type = ty0(95), .body = body(4, 40), .specifiers = sp(20), .attributes = at(10), .mflags = (G(ModuleFlag))mf()); break;
		case 19: c = (G(Code))DEF1(operator_cast, operator_cast, ty(), .body = body(4, 50), .specs = sp(20)); break;
		case 20: c = (G(Code))DEF1(include, include, mk(chance(50) ? "stdio.h" : "txt.hpp"), .foreign = chance(50)); break;
		case 21: { G(CodeDefineParams) d = NIL; S s = raw(); if (ndps && chance(40)) d = dps[below(ndps)]; c = (G(Code))DEF2(define, define, nm(), (G(MacroType))below(3), .params = d, .content = s, .flags = (G(MacroFlags))0, .dont_register_to_preprocess_macros = chance(70)); break; }
		case 22: { G(Code) i = val(30), b = val(50); c = (G(Code))DEF0(constructor, constructor, .params = pr(60), .initializer_list = i, .body = b); break; }
		case 23: { G(Code) b = val(50); c = (G(Code))DEF0(destructor, destructor, .body = b, .specifiers = sp(10)); break; }
		case 24: { G(Code) d = (G(Code))DEF1(struct, struct, nm(), .body = body(7, 90), .parent = NIL, .parent_access = (G(AccessSpec))0, .attributes = NIL, .interfaces = 0, .num_interfaces = 0, .specifiers = NIL, .mflags = (G(ModuleFlag))0); c = (G(Code))DEF2(template, template, pr(95), d, .mflags = (G(ModuleFlag))mf()); break; }
		case 25: c = (G(Code))G(def_comment)(mk(chance(50) ? "one" : "two\nlines\n")); break;
		case 26: c = (G(Code))G(def_friend)((G(Code))(chance(50) ? (G(Code))DEF1(function, function, nm(), .params = pr(50), .ret_type = ty0(50), .body = NIL, .specs = NIL, .attrs = NIL, .mflags = (G(ModuleFlag))0) : pickany())); break;
		case 27: c = (G(Code))G(def_execution)(raw()); break;
		case 28: c = (G(Code))G(def_pragma)(nm()); break;
		case 29: c = (G(Code))G(def_preprocess_cond)((G(EPreprocessCond))below(4), mk("A > 1")); break;
		case 30: c = (G(Code))DEF1(module, module, nm(), .mflags = (G(ModuleFlag))mf()); break;
		case 31: case 32: case 33: { Src* s = & srcs[below(nsrcs)]; S t = copy(s); parsing = 1; c = parse(s->kind, t); parsing = 0; drop(t); break; }
		case 34: { G(Code) a = pickany(); if (! PTR(a)) break; c = G(code_duplicate)(a); say("equal %d ", (int)G(code_is_equal)(a, c)); break; }
		case 35: { G(Code) a = pickany(), b = pickany(); if (! PTR(a)) break; say("equal %d valid %d entries %d body %d ", (int)G(code_is_equal)(a, b), (int)G(code_is_valid)(a), (int)G(code_has_entries)(a), (int)G(code_is_body)(a)); put_s(G(code_type_str)(a)); if (G(code_is_body)(a)) say(" good %d", (int)G(code_validate_body)(a)); break; }
		case 36: { G(CodeParams) p = pr(100), q; int i; if (! PTR(p)) break; for (i = 0; i < 4; i++) { q = G(params_get)(p, i); say("%d:", i); if (PTR(q)) put_s(q->Name); else say("none"); say(" "); } for (q = G(begin_CodeParams)(p); PTR(q) != PTR(G(end_CodeParams)(p)); q = G(next_CodeParams)(p, q)) { put_s(q->Name); say(";"); } say("%d\n", (int)G(params_has_entries)(p)); break; }
		case 37: { G(CodeSpecifiers) s = sp(100); G(Specifier) k = spec(); if (! PTR(s)) break; say("has %d at %d ", (int)G(specifiers_has)(s, k), (int)G(specifiers_index_of)(s, k)); if (chance(50)) say("append %d ", (int)G(specifiers_append)(s, k)); else say("remove %d ", (int)G(specifiers_remove)(s, k)); c = (G(Code))s; break; }
		case 38: { G(Code) a = pickany(); if (! PTR(a) || ! G(code_is_body)(a)) break; { G(CodeBody) b = (G(CodeBody))a; G(Code) e; int n = 0; for (e = G(begin_CodeBody)(b); PTR(e) != PTR(G(end_CodeBody)(b)); e = G(next_CodeBody)(b, e)) n++; say("iterated %d ", n); if (chance(50)) G(body_append)(b, member(0)); else { G(CodeBody) o = body(5, 100); G(body_append_body)(b, o); } text(a); } break; }
		case 39: { G(CodeDefine) d = (G(CodeDefine))G(parse_define)(mk("#define Q(a, bb, c) a + bb\n")); if (PTR(d) && PTR(d->Params)) { KEEP(dps, ndps, d->Params); text((G(Code))d->Params); } c = (G(Code))d; break; }
		case 40: strings(); break;
		case 41: files(); break;
		case 42: { char fmt[] = "<type> <name> = <val>; <type>"; S v = nm(), t = tyname(); c = G(untyped_token_fmt)(3, fmt, "type", t, "name", v, "val", mk("7")); break; }
		case 44: data(); break;
		case 45: misc(); break;
		case 46: macros(); break;
		case 49: memory(); break;
		case 48: { int k; for (k = 0; k < 4; k++) { put_s(macro_str(below(8))); say(" %d ", macro_num(below(11))); } parsing = 1; c = macro_code(below(6), nm(), tyname()); parsing = 0; break; }
		default: { int k = below(9); G(CodeBody) b = body(k, 100); c = (G(Code))b; break; }
	}
	if (PTR(c)) { if (op > 4 && op != 37) KEEP(any, nany, c); text(c); if (chance(20)) typed(c); if (chance(10)) dump(c, 0); } else say("-\n");
}
static int n_steps, i_step; static jmp_buf after;
static void program(void) {
	int i; parsing = 0; memcpy(& after, & vp_jb, sizeof after); n_steps = 3 + below(40); nany = ntys = nprs = nsps = nats = ndps = 0;
	for (i_step = 0; i_step < n_steps; i_step++) { if (setjmp(vp_jb) == 0) step(); else { if (parsing) longjmp(after, 1); say("diagnosed\n"); } }
	memcpy(& vp_jb, & after, sizeof after);
	for (i = 0; i < nany; i += 5) { say("end %d: ", i); text(any[i]); }
}
int main(int argc, char** argv) {
	G(Context) ctx; long i, first = atol(argv[4]), count = atol(argv[5]); uint64_t seed = strtoull(argv[3], 0, 10); unsigned h[2]; FILE* f = fopen(argv[1], "rb");
	while (fread(h, 4, 2, f) == 2) { srcs = (Src*)realloc(srcs, sizeof(Src) * (nsrcs + 1)); srcs[nsrcs].kind = h[0]; srcs[nsrcs].len = h[1]; srcs[nsrcs].p = (char*)malloc(h[1] + 1); if (fread(srcs[nsrcs].p, 1, h[1], f) != h[1]) return 4; nsrcs++; }
	fclose(f); out = fopen(argv[2], "wb"); { int nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); close(nul); }
	for (i = first; i < first + count; i++) {
		volatile int made = 0;
		len = 0; nops = 0; memset(& last, 0, sizeof last); rs = seed * 0x9E3779B97F4A7C15ull + (uint64_t)i * 0xD1B54A32D192ED03ull; rnd();
		fprintf(out, "P %ld\n", i); fflush(out);
		memset(& ctx, 0, sizeof ctx); if (i % 16) { ctx.CodePool_NumBlocks = 512; ctx.InitSize_LexerTokens = 2048; ctx.SizePer_StringArena = 32768; ctx.InitSize_Fallback_Allocator_Bucket_Size = 1 << 20; ctx.InitSize_BuilderBuffer = 65536; } G(init)(& ctx); made = 1;
		vp_jb_on = 1;
		if (setjmp(vp_jb) == 0) {
			if (i < nsrcs) { S t = copy(& srcs[i]); G(Code) c = parse(srcs[i].kind, t); drop(t); if (PTR(c)) { text(c); dump(c, 0); typed(c); c = G(code_duplicate)(c); text(c); } else say("null\n"); nops = 1; }
			else program();
			say("done\n");
		} else say("\nstopped\n");
		vp_jb_on = 0;
		fprintf(out, "R %ld %ld %zu\n", i, nops, len); fwrite(buf, 1, len, out); fputc('\n', out); fflush(out);
		if (made) { vp_jb_on = 1; if (setjmp(vp_jb) == 0) G(deinit)(& ctx); vp_jb_on = 0; }
	}
	fprintf(out, "E\n"); fclose(out); return 0;
}
