import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed, PRE, SEEDED
D = 'base/dependencies/'; L = 'base/components/'
ONLY = sys.argv[1:]
def S(id, *a, **k):
    if not ONLY or id in ONLY: seed(id, *a, **k)
REFACTOR = open(os.path.join(os.path.dirname(SEEDED), 'lib', 'refactor.py')).read()
CLIB = '''#!/bin/bash
# Exit 0 when the C library that is generated behaves, nonzero when it does not. Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
cp -r base gen_c_library scripts "$D"/ || exit 2
mkdir -p "$D/bin" "$D/gen_c_library/gen" "$D/gen_c_library/build"
printf '#!/bin/sh\\nexec python3 %s/refactor.py "$@"\\n' "$HERE" > "$D/bin/refactor"
printf '#!/bin/sh\\nexit 0\\n' > "$D/bin/clang-format"
chmod +x "$D/bin/refactor" "$D/bin/clang-format"
cd "$D/gen_c_library" || exit 2
clang++ -std=c++17 -fms-extensions -fdelayed-template-parsing -fno-exceptions -w -O0 -include "$HERE/pre.h" -DGEN_TIME -DGEN_BUILD_DEBUG=1 -I . -I ../base c_library.cpp -o "$D/clib" -lpthread || exit 2
PATH="$D/bin:$PATH" timeout 200 "$D/clib" > "$D/log" 2>&1 || { tail -5 "$D/log"; echo "FAILED: the generator stops"; exit 1; }
sed -i 's/__null/NULL/g' gen/gen_singleheader.h
clang -std=c11 -fgnu89-inline -fms-extensions -w -O0 -g1 -include "$HERE/pre.h" -DGEN_TIME -DGEN_BUILD_DEBUG=1 -I gen "$HERE/demo.c" -o "$D/demo" -lm -lpthread || { echo "FAILED: the library does not compile"; exit 1; }
cd "$D" && timeout 60 ./demo
'''
CHEAD = '''#define GEN_IMPLEMENTATION
#include "gen_singleheader.h"
static int want(int ok, const char* what) { if (!ok) { printf("FAILED: %s\\n", what); return 1; } return 0; }
'''
def C(id, prop, edits, demo, **k):
    S(id, prop, edits, script=CLIB, files={'refactor.py': REFACTOR, 'pre.h': PRE, 'demo.c': CHEAD + demo}, **k)
PARSED = 'Context c = {}; init(&c); '
S('p21-equal-enum-fwd', 'P21', [(L+'ast.cpp', '''			check_member_ast( UnderlyingType );
			check_member_ast( UnderlyingTypeMacro );

			return true;
		}

		case CT_Extern_Linkage:''', '''			check_member_ast( UnderlyingType );

			return true;
		}

		case CT_Extern_Linkage:''')], 'int main() { ' + PARSED + '''
 Opts_def_enum a = {}, b = {}; a.type_macro = untyped_str(txt("enum_underlying(u16)")); b.type_macro = untyped_str(txt("enum_underlying(u32)"));
 CodeEnum x = def_enum(txt("E"), a), y = def_enum(txt("E"), b);
 int bad = want(!code_is_equal((Code)x, (Code)y), "forwards with different underlying types differ"); bad |= want(code_is_equal((Code)x, (Code)x), "a forward equals itself"); return bad; }''',
 needs='two enum forwards whose underlying type is given by a macro, with different macros', breaks='they compare equal')
S('p14-csv-escape', 'P14', [(D+'parsing.cpp', '''				if ( *endChar && *( endChar + 1 ) == '"' )
				{
					endChar += 2;
				}
				else
					break;
			}
			while ( *endChar );

			if ( *endChar == 0 )
			{
				GEN_CSV_ASSERT(''', '''				if ( endChar != beginChar && *endChar && *( endChar + 1 ) == '"' )
				{
					endChar += 2;
				}
				else
					break;
			}
			while ( *endChar );

			if ( *endChar == 0 )
			{
				GEN_CSV_ASSERT(''')], 'int main() { ' + PARSED + r'''
 char buf[] = "\"\"\"x\"\" y\",2\n"; CSV_Object o = {}; u8 e = csv_parse(&o, buf, heap(), false);
 int bad = want(e == 0, "the table is read"); if (bad) return bad;
 return want(array_num(o.nodes) == 2 && array_num(o.nodes[0].nodes) == 1 && !strcmp(o.nodes[0].nodes[0].string, "\"x\" y"), "the cell is what was quoted"); }''',
 needs='a quoted cell whose content starts with a doubled quote', breaks='the table is refused or cut')
S('p16-deinit-last-arena', 'P16', [(L+'interface.cpp', '''		arena_free(strbuilder_arena);
		index++;
	}
	while ( left--, left );''', '''		arena_free(strbuilder_arena);
		index++;
	}
	while ( left--, left > 1 );''')], '''static long live = 0;
static void* proc(void*, AllocType t, ssize size, ssize align, void* old, ssize old_size, u64 flags) {
 if (t == EAllocation_ALLOC) { live++; return calloc(1, size + 64); }
 if (t == EAllocation_FREE) { if (old) live--; free(old); return nullptr; }
 if (t == EAllocation_RESIZE) { if (!old) live++; return realloc(old, size + 64); }
 return nullptr; }
int main() { Context c = {}; AllocatorInfo a = { proc, nullptr };
 c.Allocator_DyanmicContainers = c.Allocator_Pool = c.Allocator_StrCache = a; c.SizePer_StringArena = 4096;
 init(&c); char b[64]; for (int i = 0; i < 400; i++) { sprintf(b, "some_long_identifier_number_%d", i); cache_str(to_str_from_c_str(b)); }
 deinit(&c); return want(live == 0, "every byte goes back to the allocator"); }''',
 needs='deinit of a context that interned enough text for several string arenas', breaks='the last arena is never returned')
S('p20-macro-specifier', 'P20', [(L+'lexer.cpp', '''		if ( bitfield_is_set(MacroFlags, macro->Flags, MF_Allow_As_Specifier ) ) {''', '''		if ( ! has_args && bitfield_is_set(MacroFlags, macro->Flags, MF_Allow_As_Specifier ) ) {''')], 'int main() { ' + PARSED + '''
 Macro m = { txt("CALLS"), MT_Expression, (MacroFlags)(MF_Functional | MF_Allow_As_Specifier) }; register_macro(m);
 TokArray t = lex(txt("CALLS(2) int f();")); int bad = want(t.Arr.num() > 2, "there are tokens");
 return bad | want((t.Arr[0].Flags & TF_Specifier) != 0, "a functional macro allowed as a specifier is one"); }''',
 needs='a functional macro registered as allowed as a specifier', breaks='its use is not flagged as a specifier')
S('p19-stale-tokens', 'P19', [(L+'interface.untyped.cpp', '''	hashtable_clear(_ctx->token_fmt_map);
	ssize result''', '''	if ( remaining )
		hashtable_clear(_ctx->token_fmt_map);
	ssize result''')], 'int main() { ' + PARSED + '''
 static char b[64]; 
 auto f = [](char* b, usize n, s32 k, ...) { va_list va; va_start(va, k); ssize r = token_fmt_va(b, n, k, va); va_end(va); return r; };
 Str v = txt("1234"); f(b, 8, 2, "a", v, "<a><a>");
 memset(b, 0, sizeof b); Str w = txt("x"); f(b, 64, 2, "b", w, "<a><b>");
 return want(!strcmp(b, "<a>x"), "a key that was not supplied is left alone"); }''',
 needs='a template whose result fills the buffer exactly, then one that mentions a key of the earlier', breaks='the key of an earlier template is substituted')
S('p04-include-end', 'P04', [(L+'lexer.cpp', '''		while ( ctx->left && (* ctx->scanner) != '"' && (* ctx->scanner) != '>' )''', '''		while ( (* ctx->scanner) != '"' && (* ctx->scanner) != '>' )''')], 'int main() { ' + PARSED + r'''
 char* b = (char*)malloc(15); memcpy(b, "#include <abcde", 15); c.Allocator_Temp = heap(); CodeBody r = parse_global_body(Str{ b, 15 }); (void)r; printf("done\n"); return 0; }''', san='-fsanitize=address',
 needs='a source that ends inside the path of an include directive', breaks='the lexer reads past the end of the source')
S('p07-template-params', 'P07', [(L+'interface.upfront.cpp', '''	if ( params && params->Type != CT_Parameters ){''', '''	if ( params && params->Type != CT_Parameters && params->Type != CT_Parameters_Define ){''')], 'int main() { ' + PARSED + '''
 CodeDefineParams d = parse_define(txt("#define F( a ) a\\n"))->Params; CodeParams p; p.ast = (AST_Params*)d.ast;
 static bool back = false; atexit([]() { fflush(stdout); if (!back) _exit(0); });   // a diagnosed stop is a refusal
 CodeTemplate t = def_template(p, (Code)def_variable(t_int, txt("v"), {})); back = true;
 return want((Code)t == InvalidCode, "a template needs template parameters"); }''', dbg=0,
 needs='the parameters of a define handed to a template', breaks='the request is accepted')
S('p06-enum-macro-attr', 'P06', [(L+'code_serialization.cpp', '''	if ( self->Attributes || self->UnderlyingType || self->UnderlyingTypeMacro )
	{
		strbuilder_append_str( result, txt("enum ") );

		if ( self->Attributes )
			strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );

		if ( self->UnderlyingType )
			strbuilder_append_fmt( result, "%S : %SB\\n{\\n%SB\\n}"''', '''	if ( self->Attributes || self->UnderlyingType || self->UnderlyingTypeMacro )
	{
		strbuilder_append_str( result, txt("enum ") );

		if ( self->Attributes && ! self->UnderlyingTypeMacro )
			strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );

		if ( self->UnderlyingType )
			strbuilder_append_fmt( result, "%S : %SB\\n{\\n%SB\\n}"''')], 'int main() { ' + PARSED + '''
 Opts_def_enum o = {}; o.type_macro = untyped_str(txt("enum_underlying(u16)")); o.attributes = def_attributes(txt("[[nodiscard]]")); o.body = cast(CodeBody, def_enum_body(1, untyped_str(txt("A")))); 
 std::string t = squeeze(text((Code)def_enum(txt("E"), o)));
 return want(t.find("nodiscard") != std::string::npos, "the attribute is written"); }''',
 needs='an enum definition with an attribute and an underlying type given by a macro', breaks='the attribute is dropped')
S('p15-append-rw', 'P15', [(D+'filesystem.cpp', '''			os_mode = O_RDWR | O_APPEND | O_CREAT;''', '''			os_mode = O_RDWR | O_APPEND | O_CREAT | O_TRUNC;''')], 'int main() { ' + PARSED + '''
 FileInfo f = {}; int bad = want(file_open_mode(&f, EFileMode_WRITE, "t") == EFileError_NONE, "opens"); file_write(&f, "one", 3); file_close(&f);
 FileInfo g = {}; bad |= want(file_open_mode(&g, EFileMode_APPEND | EFileMode_RW, "t") == EFileError_NONE, "opens to append"); file_write(&g, "two", 3); file_close(&g);
 FileContents r = file_read_contents(heap(), file_zero_terminate, "t"); return bad | want(r.size == 6 && !strcmp((char*)r.data, "onetwo"), "appending keeps what is there"); }''',
 needs='a file opened to append with reading', breaks='what was in the file is lost')
S('p17-attr-size', 'P17', [('base/helpers/base_codegen.hpp', '''		strbuilder_append_fmt( & to_c_str_attributes,      "{ \\"%s\\", sizeof(\\"%s\\") - 1 },\\n", entry_to_str, entry_to_str);''', '''		strbuilder_append_fmt( & to_c_str_attributes,      "{ \\"%s\\", sizeof(\\"%s\\") - 1 },\\n", entry_to_str, attribute_str);''')],
 script='''#!/bin/bash
# Exit 0 when the base generator makes the attribute table it should, nonzero otherwise. Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
cp -r base scripts "$D"/ || exit 2
mkdir -p "$D/bin" "$D/base/build"; printf '#!/bin/sh\\nexit 0\\n' > "$D/bin/clang-format"; chmod +x "$D/bin/clang-format"
printf 'GEN_API, GEN_API\\nLong_Name, LN\\n' > "$D/base/enums/AttributeTokens.csv"
cd "$D/base" || exit 2
clang++ -std=c++17 -fms-extensions -fdelayed-template-parsing -fno-exceptions -w -O0 -include "$HERE/pre.h" -DGEN_TIME -DGEN_BUILD_DEBUG=1 -I . base.cpp -o "$D/gen" -lpthread || exit 2
PATH="$D/bin:$PATH" timeout 100 "$D/gen" > "$D/log" 2>&1 || { tail -5 "$D/log"; exit 1; }
tr -d ' \\t\\r\\n' < components/gen/etoktype.hpp | grep -qF '{"LN",sizeof("LN")-1}' || { echo "FAILED: the string of the attribute has another length"; exit 1; }
''', files={'pre.h': PRE}, needs='an attribute table whose names differ from their strings', breaks='the regenerated string table has wrong lengths')
C('p22-rehash-null', 'P22', [('gen_c_library/components/containers.hashtable.hpp', '''				if (find_result.PrevIndex < 0)
					new_tbl.Hashes[find_result.HashIndex] = last_added_index;
				else
					new_tbl.Entries[find_result.PrevIndex].Next = last_added_index;

				new_tbl''', '''				if (find_result.PrevIndex <= 0)
					new_tbl.Hashes[find_result.HashIndex] = last_added_index;
				else
					new_tbl.Entries[find_result.PrevIndex].Next = last_added_index;

				new_tbl''')], r'''int main() {
 gen_Str a = { "a", 1 }, b = { "b", 1 };
 for (gen_u64 n = 2; n < 40; n++) {
  gen_StringTable t = gen_StringTable_init_reserve((gen_AllocatorInfo){ gen_heap_allocator_proc, 0 }, 64);
  gen_StringTable_set(&t, 3, a); gen_StringTable_set(&t, 3 + n, b);
  gen_StringTable_rehash(&t, n);
  gen_Str* x = gen_StringTable_get(t, 3); gen_Str* y = gen_StringTable_get(t, 3 + n);
  if (want(x && x->Ptr == a.Ptr && y && y->Ptr == b.Ptr, "both entries are found after the rehash")) return 1;
 }
 return 0; }''', needs='the first entry of a table sharing its bucket with a later one when the table is rehashed', breaks='the first entry is no longer found')
C('p18-fixed-arena-size', 'P18', [('gen_c_library/components/memory.fixed_arena.hpp', '''"Name", txt("512KB"), "Size", txt("kilobytes(512)"), template_struct ));''', '''"Name", txt("512KB"), "Size", txt("kilobytes(128)"), template_struct ));''')], r'''int main() {
 static gen_FixedArena_512KB a; return want(sizeof(a.memory) == 512 * 1024, "the arena has the memory of its name"); }''', needs='a fixed arena of 512 KB in a C program', breaks='its memory is smaller than what it hands out')
S('p24-append-len', 'P24', [(D+'strings.hpp', '''	forceinline bool              append(char const* str, ssize length)          { return strbuilder_append_c_str_len(this, str, length); }''', '''	forceinline bool              append(char const* str, ssize length)          { return strbuilder_append_str(this, Str { str, length > 0 && ! str[length - 1] ? length - 1 : length }); }''')],
 r'''int main() { Context ctx = {}; init(&ctx); StrBuilder s = StrBuilder::make(heap(), "ab"); s.append("c\0", 2); return want(s.length() == 4 && s[2] == 'c' && s[3] == 0, "all of the given bytes are appended"); }''',
 needs='the member that appends a number of bytes, given bytes that end in a zero', breaks='the last of them is not appended')
S('p24-loop-newline', 'P24', [(L+'inlines.hpp', '''	if ( ast )
		ast = ast->Next.ast;
''', '''	do ast = ast ? ast->Next.ast : nullptr; while ( ast && ast->Type == CT_NewLine && ast->Next.ast && ast->Next->Type == CT_NewLine );
''')],
 r'''int main() { Context ctx = {}; init(&ctx); CodeBody b = def_body(CT_Global_Body); for (int i = 0; i < 4; i++) body_append(b, i == 0 || i == 3 ? Code(parse_variable(txt("int a;"))) : fmt_newline); int n = 0; for (Code e : b) n++; return want(n == b->NumEntries, "a loop over a body meets every entry"); }''',
 needs='a ranged loop over a body with several blank lines in a row', breaks='only the last of them is met')
S('p25-consteval-then-variable', 'P25', [(L+'parser.cpp', '''	result = (CodeBody) make_code();
	result->Type = which;

	while ( left && currtok_noskip.Type != Tok_BraceCurly_Close )
	{
		Code           member     = Code_Invalid;
		CodeAttributes attributes = { nullptr };
		CodeSpecifiers specifiers = { nullptr };

		bool expects_function = false;

		// _ctx->parser.Scope->Start = currtok_noskip;
''', '''	result = (CodeBody) make_code();
	result->Type = which;

	bool expects_function = false;

	while ( left && currtok_noskip.Type != Tok_BraceCurly_Close )
	{
		Code           member     = Code_Invalid;
		CodeAttributes attributes = { nullptr };
		CodeSpecifiers specifiers = { nullptr };

		// _ctx->parser.Scope->Start = currtok_noskip;
''')], 'int main() { ' + PARSED + '''
 CodeBody b = parse_global_body(txt("consteval int f( int a );\\nint counter = 3;\\n")); if (want(b && b->Type == CT_Global_Body && b->NumEntries >= 2, "both declarations are entries")) return 1;
 return want(b->Back->Type == CT_Variable || b->Front->Next->Type == CT_Variable, "the variable after a consteval function is a variable"); }''',
 needs='a variable after a consteval function in one file or namespace', breaks='the variable is refused there although it is parsed elsewhere')
S('p25-static-const', 'P25', [(L+'parser.cpp', '''		// Ignore const specifiers, they're handled by the type
		if ( spec == Spec_Const )
			break;

		check_specifier_capacity();
		specs_found[NumSpecifiers] = spec;
		NumSpecifiers++;
		eat( currtok.Type );
	}

	if ( NumSpecifiers ) {
		specifiers = def_specifiers_arr( NumSpecifiers, specs_found );
	}
	// <ModuleFlags> <Attributes> <Specifiers>

	CodeTypename type''', '''		// Ignore const specifiers, they're handled by the type
		if ( spec == Spec_Const && NumSpecifiers == 0 )
			break;

		check_specifier_capacity();
		specs_found[NumSpecifiers] = spec;
		NumSpecifiers++;
		eat( currtok.Type );
	}

	if ( NumSpecifiers ) {
		specifiers = def_specifiers_arr( NumSpecifiers, specs_found );
	}
	// <ModuleFlags> <Attributes> <Specifiers>

	CodeTypename type''')], 'int main() { ' + PARSED + '''
 CodeVar v = parse_variable(txt("static const int x = 3;")); CodeBody b = parse_global_body(txt("static const int x = 3;")); CodeVar w = cast(CodeVar, b->Front);
 if (want(v && w && v->Type == CT_Variable && w->Type == CT_Variable, "both are variables")) return 1;
 int bad = want(v->Specs->NumEntries == w->Specs->NumEntries, "the variable has the same specifiers");
 bad |= want((v->ValueType->Specs != nullptr) == (w->ValueType->Specs != nullptr), "its type is qualified alike"); return bad; }''',
 needs='a static constant parsed through the entry point of variables', breaks='its type is not the constant type it has in a file')
GARBAGE = '''
__attribute__((noinline)) static void dirty(unsigned char v) { volatile unsigned char b[300000]; for (size_t i = 0; i < sizeof b; i++) b[i] = v; }
'''
TIME = '''
static double now() { return clock() / (double)CLOCKS_PER_SEC; }
'''
S('p26-unnamed-union', 'P26', [(L+'parser.cpp', '''	// <ModuleFlags> union <Attributes>

	Str name = { nullptr, 0 };
''', '''	// <ModuleFlags> union <Attributes>

	Str name;
''')], GARBAGE + 'int main() { ' + PARSED + '''
 for (int v : { 0, 1, 0x5A, 0xFF }) { dirty((unsigned char)v); CodeUnion u = parse_union(txt("union { int a; float b; };")); if (want(u && u->Type == CT_Union && u->Name.Len == 0, "a union without a name has none")) return 1; } return 0; }''',
 needs='an unnamed union parsed when the stack does not hold zeros', breaks='the name of an unnamed union is whatever the stack held')
S('p27-text-growth', 'P27', [(D+'strings.hpp', '''	return 4 * value + 8;
''', '''	return value < 4096 ? 4 * value + 8 : value + 4096;
''')], '''static double asked;
static void* counting(void* data, AllocType t, ssize size, ssize align, void* old, ssize old_size, u64 flags) { if (t == EAllocation_ALLOC || t == EAllocation_RESIZE) asked += size; return heap_allocator_proc(data, t, size, align, old, old_size, flags); }
static double cost(int n) { AllocatorInfo a = { counting, nullptr }; asked = 0; StrBuilder s = strbuilder_make_str(a, txt("")); for (int i = 0; i < n; i++) strbuilder_append_str(&s, txt("some text, ")); strbuilder_free(&s); return asked; }
int main() { double a = cost(20000), b = cost(320000); printf("%.0f bytes asked for, %.0f for sixteen times as much\\n", a, b); return want(b < 80 * a, "the memory asked for grows in proportion to the text"); }''',
 needs='a text that is appended to many times', breaks='the text is copied again for every 4 KB appended')
S('p27-table-load', 'P27', [(D+'containers.hpp', '''	usize critical_load = usize(HashTable_CriticalLoadScale * f32(array_num(table.Hashes)));
''', '''	usize critical_load = usize(HashTable_CriticalLoadScale * f32(array_num(table.Hashes)));
	if ( array_num(table.Hashes) >= 1024 )
		return array_num(table.Entries) > 64 * critical_load;
''')], TIME + '''static double cost(int n) { HashTable<int> h = hashtable_init<int>(heap()); double t = now(); for (int k = 0; k < 3; k++) for (int i = 0; i < n; i++) { hashtable_set(&h, (u64)i * 2654435761u, i); hashtable_get(h, (u64)i * 2654435761u); } t = now() - t; hashtable_destroy(&h); return t; }
static size_t slots(int n) { HashTable<int> h = hashtable_init<int>(heap()); for (int i = 0; i < n; i++) hashtable_set(&h, (u64)i * 2654435761u, i); size_t r = array_num(h.Hashes); hashtable_destroy(&h); return r; }
int main() { size_t s = slots(40000); printf("%zu slots for 40000 entries, %f s\\n", s, cost(40000)); return want(s > 10000, "the slots grow with the entries"); }''',
 needs='a table with more than a thousand entries', breaks='the chains of a table grow with its entries, so does each lookup')
