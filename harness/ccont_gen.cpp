// P22: containers for element types of its own, made by the definitions of the C library.  Arguments: output file, slots taken by arrays and tables.
#include <cstdlib>
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#define GEN_ENFORCE_STRONG_CODE_TYPES
#include "gen.cpp"
#include "helpers/push_ignores.inline.hpp"
#include <stdlib.h>
GEN_NS_BEGIN
#include "helpers/base_codegen.hpp"
#include "helpers/misc.hpp"
GEN_NS_END
#include "gen_c_library/components/memory.fixed_arena.hpp"
#include "gen_c_library/components/misc.hpp"
#include "gen_c_library/components/containers.array.hpp"
#include "gen_c_library/components/containers.hashtable.hpp"
using namespace gen;
static void out(FILE* f, Code c) { StrBuilder s = c.to_strbuilder(); fwrite(s.Data, 1, s.length(), f); fputc('\n', f); }
int main(int argc, char** argv)
{
	Context ctx {}; gen::init(& ctx);
	// as the program that makes the library does
	register_macros( args(
		(Macro { txt("cast"), MT_Expression, MF_Functional }), (Macro { txt("rcast"), MT_Expression, MF_Functional }), (Macro { txt("pcast"), MT_Expression, MF_Functional }), (Macro { txt("scast"), MT_Expression, MF_Functional }),
		(Macro { txt("typeof"), MT_Expression, MF_Null }), (Macro { txt("nullptr"), MT_Expression, MF_Null })
	));
	FILE* f = fopen(argv[1], "wb");
	Array_DefinitionCounter = atoi(argv[2]); HashTable_DefinitionCounter = atoi(argv[3]);
	struct { Str type, arr, tbl; } T[] = {
		{ txt("VpByte"), txt("Array_VpByte"), txt("Table_VpByte") }, { txt("VpShort"), txt("Array_VpShort"), txt("Table_VpShort") }, { txt("VpInt"), txt("Array_VpInt"), txt("Table_VpInt") },
		{ txt("VpWord"), txt("Array_VpWord"), txt("Table_VpWord") }, { txt("VpPtr"), txt("VpPtrs"), txt("VpPtrMap") }, { txt("VpOdd"), txt("Array_VpOdd"), txt("Table_VpOdd") },
		{ txt("VpBig"), txt("BigArray"), txt("BigTable") }, { txt("VpReal"), txt("reals"), txt("real_table") },
	};
	CodeBody made[16]; int n = 0;
	for (auto& t : T) made[n++] = gen_array(t.type, t.arr);
	for (auto& t : T) made[n++] = gen_hashtable(t.type, t.tbl);
	out(f, gen_array_generic_selection_interface()); out(f, gen_hashtable_generic_selection_interface());   // for all of the slots
	for (int i = 0; i < n; i++) out(f, made[i]);
	fclose(f); gen::deinit(& ctx); return 0;
}
