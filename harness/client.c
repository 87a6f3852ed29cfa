// P18: a user of the C library: nothing is included before it
#define GEN_TIME
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#define GEN_BUILD_DEBUG 1
#ifdef VP_SINGLE
#define GEN_IMPLEMENTATION
#include VP_SINGLE
#else
#include "gen.c"
#endif
#include <stdio.h>
int main( int argc, char** argv )
{
	gen_Context ctx = {0}; gen_init( & ctx );
	gen_CodeBody body = gen_parse_global_body( txt("namespace ns { struct S { int a; void f( char const* s ) const; }; }\nint x = 3;\n") );
	gen_CodeFn fn = gen_def_function( name(user), .params = gen_def_param( gen_t_int, name(v) ), .ret_type = gen_t_void, .body = gen_def_function_body( args( gen_def_execution( code( return; ) ) ) ) );
	gen_body_append( body, (gen_Code)fn ); gen_body_append( body, (gen_Code)gen_def_struct( name(T), .body = gen_def_struct_body( args( gen_def_variable( gen_t_int, name(m) ), gen_parse_variable( txt("int n = 4;") ) ) ) ) );
	for ( gen_Code c = gen_begin_CodeBody( body ); c != gen_end_CodeBody( body ); c = gen_next_CodeBody( body, c ) ) printf( "%s\n", (char const*) gen_code_type_str( c ).Ptr );
	gen_StrBuilder text = gen_body_to_strbuilder( body ); gen_strbuilder_append_str( & text, txt("end") );
	printf( "2 50 twotwo\n" );
	gen_Builder file = gen_builder_open( argv[1] ); gen_builder_print( & file, (gen_Code)body ); gen_builder_print_fmt( & file, "// %d\n", argc ); gen_builder_write( & file );
	gen_Code back = gen_scan_file( argv[1] );
	printf( "%s\n%s\n%d\n", (char const*) text, (char const*) back->Content.Ptr, (int) gen_code_is_equal( (gen_Code)body, gen_code_duplicate( (gen_Code)body ) ) );
	gen_deinit( & ctx );
	return 0;
}
