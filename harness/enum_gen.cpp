// P17: runs the table generators of the base library over tables: enum_gen DIR...  writes DIR/{cpp,c}.{ecode,eop,espec,etok}.hpp
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#define GEN_ENFORCE_STRONG_CODE_TYPES
#define GEN_C_LIKE_CPP 1
#include "gen.cpp"
#include "helpers/push_ignores.inline.hpp"
GEN_NS_BEGIN
#include "helpers/base_codegen.hpp"
GEN_NS_END
#undef min
#undef max
static std::string vp_dir;
static char const* vp_path(char const* f) { static std::string k[8]; static int n; std::string& s = k[n++ % 8]; s = vp_dir + "/" + f; return s.c_str(); }
static void vp_put(char const* f, gen::Code c) {
	gen::StrBuilder s = gen::code_to_strbuilder(c); FILE* o = fopen(vp_path(f), "wb"); fwrite(s, 1, gen::strbuilder_length(s), o); fclose(o);
}
int main(int argc, char** argv) {
	for (int i = 1; i < argc; i++) {
		vp_dir = argv[i]; gen::Context ctx = {}; gen::init(&ctx);
		for (int c = 0; c < 2; c++) {
			std::string p = c ? "c." : "cpp.";
			vp_put((p + "ecode").c_str(), gen::gen_ecode(vp_path("ECodeTypes.csv"), c));
			vp_put((p + "eop").c_str(), gen::gen_eoperator(vp_path("EOperator.csv"), c));
			vp_put((p + "espec").c_str(), gen::gen_especifier(vp_path("ESpecifier.csv"), c));
			vp_put((p + "etok").c_str(), gen::gen_etoktype(vp_path("ETokType.csv"), vp_path("AttributeTokens.csv"), c));
		}
		gen::deinit(&ctx); printf("done %d\n", i); fflush(stdout);
	}
	return 0;
}
