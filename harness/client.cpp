// P18: a user of the library: nothing is included before it. IMPL: the sources of the library; MAIN: a program
#define GEN_TIME
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#define GEN_BUILD_DEBUG 1
#if defined(VP_SINGLE)
#	ifdef IMPL
#		define GEN_IMPLEMENTATION
#	endif
#	include VP_SINGLE
#elif defined(IMPL)
#	include "gen.cpp"
#else
#	include "gen.hpp"
#	ifdef VP_SEG
#		include "gen.builder.hpp"
#		include "gen.scanner.hpp"
#	endif
#endif
#ifdef MAIN
#include <stdio.h>
#undef min
#undef max
using namespace gen;
int main(int argc, char** argv)
{
	Context ctx {}; gen::init( & ctx );
	CodeBody body = parse_global_body( txt("namespace ns { struct S { int a; void f( char const* s ) const; }; }\nint x = 3;\n") );
	CodeFn fn = def_function( name(user), { .params = def_param( t_int, name(v) ), .ret_type = t_void, .body = def_function_body( args( def_execution( code( return; ) ) ) ) } );
	body.append( fn ); body.append( def_struct( name(T), { .body = def_struct_body( args( def_variable( t_int, name(m) ), parse_variable( txt("int n = 4;") ) ) ) } ) );
	for ( Code c : body ) printf( "%s\n", (char const*) c.type_str().Ptr );
	StrBuilder text = body.to_strbuilder(); text.append( txt("end") );
	Array(Str) list = Array(Str)::init( ctx.Allocator_Temp ); list.append( txt("one") ); list.append( token_fmt( "t", txt("two"), "<t><t>" ) );
	HashTable(u32) table = HashTable(u32)::init( ctx.Allocator_Temp ); table.set( 5, 50 ); printf( "%d %u %.*s\n", (int) list.num(), * table.get( 5 ), (int) list[1].Len, list[1].Ptr );
	Builder file = Builder::open( argv[1] ); file.print( body ); file.print_fmt( "// %d\n", argc ); file.write();
	Code back = scan_file( argv[1] );
	printf( "%s\n%s\n%d\n", (char const*) text, (char const*) back->Content.Ptr, (int) body.is_equal( body.duplicate() ) );
	gen::deinit( & ctx );
	return 0;
}
#endif
