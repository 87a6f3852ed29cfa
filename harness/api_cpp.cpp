// P18: the programs against a C++ variant: VP_SINGLE (path of the single header), VP_SEG (directory), or the base sources
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#if defined(VP_SINGLE)
#define GEN_IMPLEMENTATION
#include VP_SINGLE
#elif defined(VP_SEG)
#ifdef VP_DEP
#include "gen.dep.cpp"
#endif
#include "gen.cpp"
#include "gen.builder.cpp"
#include "gen.scanner.cpp"
#else
#include "base/gen.cpp"
#endif
#define MACRO_OPTS
#include "apimacros.inc"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#undef free
#undef name
#undef code
#undef args
#undef txt
#undef ccast
#define CT_(x) gen::CT_##x
#define Op_(x) gen::Op_##x
#define Spec_(x) gen::Spec_##x
#define MT_(x) gen::MT_##x
#define ADT_(x) gen::EADT_TYPE_##x
#define EnumT_(x) gen::EnumDecl_##x
#include "apiprog.inc"
