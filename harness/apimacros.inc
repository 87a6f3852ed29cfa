// P18: uses of the macros a user writes literals and arguments with; before the C++ variants drop them
#ifdef __cplusplus
#define MG(x) x
using namespace gen;
#else
#define MG(x) gen_##x
#endif
static MG(Str) macro_str(int i) {
	switch (i) {
	case 0: return name(abc);
	case 1: return name( spaced_out );
	case 2: return code(int x = a < b ? 1 : 0;);
	case 3: return code( f(1, "two, three", '4'); g( ); );
	case 4: return txt("a\ttab \"quoted\"");
	case 5: return txt("");
	case 6: return code(struct S { int a, b; };);
	default: return name(x);
	}
}
static int macro_num(int i) {
	int v[7]; (void)v;
	switch (i) {
	case 0: return (int)MG(num_args)(a); case 1: return (int)MG(num_args)(a, b, c); case 2: return (int)MG(num_args)(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23);
	case 3: return (int)MG(kilobytes)(3); case 4: return (int)(MG(gigabytes)(3) / MG(megabytes)(2)); case 5: return (int)MG(count_of)(v); case 6: return MG(clamp)(17, 2, 9) * 100 + MG(clamp)(-1, 2, 9) * 10 + MG(clamp)(5, 2, 9);
	case 7: return (int)(MG(is_between)(3, 3, 4) * 8 + MG(is_between)(4, 3, 4) * 4 + MG(is_between)(5, 3, 4) * 2 + MG(is_between)(2, 3, 4)); case 8: return (int)MG(bit)(5); case 9: return MG(min)(3, -4) * 10 + MG(max)(3, -4);
	default: { int n = 0, k; for (k = 0; k < 3; k++) { MG(do_once)() n++; } return n; }
	}
}
static MG(Code) macro_code(int i, MG(Str) a, MG(Str) b) {
	switch (i) {
	case 0: return MG(code_str)(return 1, 2;);
	case 1: return MG(code_fmt)("first", a, "second", b, "<first> = <second>; /* <first> */");
	case 2: return (MG(Code))MG(parse_fmt)(variable, "n", name(fmt_var), "T", txt("unsigned long"), "<T> <n> = 3;\n");
	case 3: return MG(untyped_str)(MG(token_fmt)("a", a, "<a><a> <b>"));
	case 4: return MG(untyped_str)(MG(token_fmt)("no tokens"));
	default: { MG(CodeParams) p = MG(def_param)(MG(parse_type)(txt("int")), a MACRO_OPTS), q = MG(def_param)(MG(parse_type)(txt("char")), b MACRO_OPTS); return (MG(Code))MG(def_params)(args(p, q)); }
	}
}
#undef MG
