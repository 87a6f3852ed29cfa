// P18: the programs against the C library: VP_SINGLE (path of the single header) or VP_SEG
#if defined(VP_SINGLE)
#define GEN_IMPLEMENTATION
#include VP_SINGLE
#else
#include "gen.c"
#endif
#define MACRO_OPTS
#include "apimacros.inc"
#define CT_(x) CT_##x
#define Op_(x) Op_##x
#define Spec_(x) Spec_##x
#define MT_(x) MT_##x
#define ADT_(x) EADT_TYPE_##x
#define EnumT_(x) EnumDecl_##x
#include "apiprog.inc"
