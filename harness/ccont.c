// P22: the C library with further containers (VP_LIB, VP_EXTRA: the generated files) behind tables of functions
#include "ccont.h"
#undef __builtin_trap
#define __builtin_trap() vp_c_trap(__FILE__, __LINE__)
#define GEN_IMPLEMENTATION
#include VP_LIB
#undef gen_array_init
#undef gen_array_init_reserve
#undef gen_array_append
#undef gen_array_append_at
#undef gen_array_append_items
#undef gen_array_append_items_at
#undef gen_array_back
#undef gen_array_clear
#undef gen_array_fill
#undef gen_array_free
#undef gen_array_grow
#undef gen_array_num
#undef gen_array_pop
#undef gen_array_remove_at
#undef gen_array_reserve
#undef gen_array_resize
#undef gen_array_set_capacity
#undef gen_hashtable_init
#undef gen_hashtable_init_reserve
#undef gen_hashtable_clear
#undef gen_hashtable_destroy
#undef gen_hashtable_get
#undef gen_hashtable_grow
#undef gen_hashtable_rehash
#undef gen_hashtable_rehash_fast
#undef gen_hashtable_remove
#undef gen_hashtable_remove_entry
#undef gen_hashtable_set
#undef gen_hashtable_slot
typedef signed char VpByte; typedef short VpShort; typedef int VpInt; typedef unsigned long VpWord; typedef void* VpPtr; typedef double VpReal;
typedef struct VpOdd { unsigned char b[13]; } VpOdd;
typedef struct VpBig { uint64_t a; uint32_t c[19]; unsigned char b[37]; } VpBig;
#include VP_EXTRA
static void* proc(void* data, gen_AllocType type, gen_ssize size, gen_ssize align, void* old, gen_ssize old_size, gen_u64 flags) { return vp_mem(data, type, size, old); }
void* const vp_proc = (void*)proc;
static gen_AllocatorInfo al(VpAlloc a) { gen_AllocatorInfo r; r.Proc = proc; r.Data = a.Data; return r; }
#define ARR(A, T, F) \
static void F##d_init(void** s, VpAlloc a) { *s = A##_init(al(a)); } \
static void F##d_init_reserve(void** s, VpAlloc a, size_t n) { *s = A##_init_reserve(al(a), n); } \
static bool F##d_append(void** s, const void* v) { return A##_append((A*)s, *(T const*)v); } \
static bool F##d_append_items(void** s, void* v, size_t n) { return A##_append_items((A*)s, (T*)v, n); } \
static bool F##d_append_at(void** s, const void* v, size_t i) { return A##_append_at((A*)s, *(T const*)v, i); } \
static bool F##d_append_items_at(void** s, void* v, size_t n, size_t i) { return A##_append_items_at((A*)s, (T*)v, n, i); } \
static bool F##d_append_array(void** s, void* o) { return A##_append_array((A*)s, (A)o); } \
static void* F##d_back(void* s) { return A##_back((A)s); } \
static void F##d_clear(void* s) { A##_clear((A)s); } \
static bool F##d_fill(void* s, size_t b, size_t e, const void* v) { return A##_fill((A)s, b, e, *(T const*)v); } \
static void F##d_free(void** s) { A##_free((A*)s); } \
static bool F##d_grow(void** s, size_t n) { return A##_grow((A*)s, n); } \
static size_t F##d_num(void* s) { return A##_num((A)s); } \
static void F##d_pop(void* s, void* out) { *(T*)out = A##_pop((A)s); } \
static void F##d_remove_at(void* s, size_t i) { A##_remove_at((A)s, i); } \
static bool F##d_reserve(void** s, size_t n) { return A##_reserve((A*)s, n); } \
static bool F##d_resize(void** s, size_t n) { return A##_resize((A*)s, n); } \
static bool F##d_set_capacity(void** s, size_t n) { return A##_set_capacity((A*)s, n); } \
static void* F##_begin(void* s) { A a = (A)s; return gen_array_begin(a); } \
static void* F##_end(void* s) { A a = (A)s; return gen_array_end(a); } \
static void* F##_next(void* s, void* e) { A a = (A)s; T* x = (T*)e; return gen_array_next(a, x); } \
static void F##g_init(void** s, VpAlloc a) { gen_AllocatorInfo i = al(a); *s = gen_array_init(T, i); } \
static void F##g_init_reserve(void** s, VpAlloc a, size_t n) { gen_AllocatorInfo i = al(a); *s = gen_array_init_reserve(T, i, n); } \
static bool F##g_append(void** s, const void* v) { A x = (A)*s; bool r = gen_array_append(x, *(T const*)v); *s = x; return r; } \
static bool F##g_append_items(void** s, void* v, size_t n) { A x = (A)*s; bool r = gen_array_append_items(x, (T*)v, n); *s = x; return r; } \
static bool F##g_append_at(void** s, const void* v, size_t i) { A x = (A)*s; bool r = gen_array_append_at(x, *(T const*)v, i); *s = x; return r; } \
static bool F##g_append_items_at(void** s, void* v, size_t n, size_t i) { A x = (A)*s; bool r = gen_array_append_items_at(x, (T*)v, n, i); *s = x; return r; } \
static void* F##g_back(void* s) { A x = (A)s; return gen_array_back(x); } \
static void F##g_clear(void* s) { A x = (A)s; gen_array_clear(x); } \
static bool F##g_fill(void* s, size_t b, size_t e, const void* v) { A x = (A)s; return gen_array_fill(x, b, e, *(T const*)v); } \
static void F##g_free(void** s) { A x = (A)*s; gen_array_free(x); *s = x; } \
static bool F##g_grow(void** s, size_t n) { A x = (A)*s; A* p = & x; bool r = gen_array_grow(p, n); *s = x; return r; } \
static size_t F##g_num(void* s) { A x = (A)s; return gen_array_num(x); } \
static void F##g_pop(void* s, void* out) { A x = (A)s; *(T*)out = gen_array_pop(x); } \
static void F##g_remove_at(void* s, size_t i) { A x = (A)s; gen_array_remove_at(x, i); } \
static bool F##g_reserve(void** s, size_t n) { A x = (A)*s; bool r = gen_array_reserve(x, n); *s = x; return r; } \
static bool F##g_resize(void** s, size_t n) { A x = (A)*s; bool r = gen_array_resize(x, n); *s = x; return r; } \
static bool F##g_set_capacity(void** s, size_t n) { A x = (A)*s; A* p = & x; bool r = gen_array_set_capacity(p, n); *s = x; return r; }
#define ARR_ROW(A, T, F, P, S) { #A, S, sizeof(T), P##_init, P##_init_reserve, P##_append, P##_append_items, P##_append_at, P##_append_items_at, F##d_append_array, P##_back, P##_clear, P##_fill, P##_free, P##_grow, P##_num, P##_pop, P##_remove_at, P##_reserve, P##_resize, P##_set_capacity, F##_begin, F##_end, F##_next },
#define ARR_ROWS(A, T, F) ARR_ROW(A, T, F, F##d, "function") ARR_ROW(A, T, F, F##g, "macro")

#define TB(t) (*(VpTbl2*)& t)
#define TBL(A, T, F) \
typedef struct HTE_##F { gen_u64 k; gen_ssize n; T v; } HTE_##F; \
static void F##_v(A t, gen_u64 k, T v) { vp_visit(k, & v, sizeof v); } \
static void F##_vm(A t, gen_u64 k, T* v) { vp_visit(k, v, sizeof * v); } \
static A F##_t(VpTbl2 s) { A t; memcpy(& t, & s, sizeof t); return t; } \
static void F##d_init(VpTbl2* s, VpAlloc a) { A t = A##_init(al(a)); *s = TB(t); } \
static void F##d_init_reserve(VpTbl2* s, VpAlloc a, ptrdiff_t n) { A t = A##_init_reserve(al(a), n); *s = TB(t); } \
static void F##d_clear(VpTbl2 s) { A##_clear(F##_t(s)); } \
static void F##d_destroy(VpTbl2* s) { A##_destroy((A*)s); } \
static void* F##d_get(VpTbl2 s, uint64_t k) { return A##_get(F##_t(s), k); } \
static void F##d_map(VpTbl2 s) { A##_map(F##_t(s), F##_v); } \
static void F##d_map_mut(VpTbl2 s) { A##_map_mut(F##_t(s), F##_vm); } \
static void F##d_grow(VpTbl2* s) { A##_grow((A*)s); } \
static void F##d_rehash(VpTbl2* s, ptrdiff_t n) { A##_rehash((A*)s, n); } \
static void F##d_rehash_fast(VpTbl2 s) { A##_rehash_fast(F##_t(s)); } \
static void F##d_remove(VpTbl2 s, uint64_t k) { A##_remove(F##_t(s), k); } \
static void F##d_remove_entry(VpTbl2 s, ptrdiff_t i) { A##_remove_entry(F##_t(s), i); } \
static void F##d_set(VpTbl2* s, uint64_t k, const void* v) { A##_set((A*)s, k, *(T const*)v); } \
static bool F##_full(VpTbl2 s) { return A##__full(F##_t(s)); } \
static void F##g_init(VpTbl2* s, VpAlloc a) { gen_AllocatorInfo i = al(a); A t = gen_hashtable_init(T, i); *s = TB(t); } \
static void F##g_init_reserve(VpTbl2* s, VpAlloc a, ptrdiff_t n) { gen_AllocatorInfo i = al(a); A t = gen_hashtable_init_reserve(T, i, n); *s = TB(t); } \
static void F##g_clear(VpTbl2 s) { A t = F##_t(s); gen_hashtable_clear(t); } \
static void F##g_destroy(VpTbl2* s) { A t = F##_t(*s); gen_hashtable_destroy(t); *s = TB(t); } \
static void* F##g_get(VpTbl2 s, uint64_t k) { A t = F##_t(s); return gen_hashtable_get(t, k); } \
static void F##g_grow(VpTbl2* s) { A* t = (A*)s; gen_hashtable_grow(t); } \
static void F##g_rehash(VpTbl2* s, ptrdiff_t n) { A* t = (A*)s; gen_hashtable_rehash(t, n); } \
static void F##g_rehash_fast(VpTbl2 s) { A t = F##_t(s); gen_hashtable_rehash_fast(t); } \
static void F##g_remove(VpTbl2 s, uint64_t k) { A t = F##_t(s); gen_hashtable_remove(t, k); } \
static void F##g_remove_entry(VpTbl2 s, ptrdiff_t i) { A t = F##_t(s); gen_hashtable_remove_entry(t, i); } \
static void F##g_set(VpTbl2* s, uint64_t k, const void* v) { A t = F##_t(*s); gen_hashtable_set(t, k, *(T const*)v); *s = TB(t); }
#define TBL_ROW(A, T, F, P, S) { #A, S, sizeof(T), sizeof(HTE_##F), offsetof(HTE_##F, v), P##_init, P##_init_reserve, P##_clear, P##_destroy, P##_get, F##d_map, F##d_map_mut, P##_grow, P##_rehash, P##_rehash_fast, P##_remove, P##_remove_entry, P##_set, F##_full },
#define TBL_ROWS(A, T, F) TBL_ROW(A, T, F, F##d, "function") TBL_ROW(A, T, F, F##g, "macro")

#define ARRS(X) X(gen_Array_VpByte, VpByte, a1) X(gen_Array_VpShort, VpShort, a2) X(gen_Array_VpInt, VpInt, a3) X(gen_Array_VpWord, VpWord, a4) X(VpPtrs, VpPtr, a5) X(gen_Array_VpOdd, VpOdd, a6) X(BigArray, VpBig, a7) X(reals, VpReal, a8) \
	X(gen_Array_gen_ssize, gen_ssize, a9) X(gen_Array_gen_StrCached, gen_StrCached, a10) X(gen_Array_gen_u8, gen_u8, a11) X(gen_Array_gen_ADT_Node, gen_ADT_Node, a12) X(gen_Array_gen_Token, gen_Token, a13) X(gen_Array_gen_Arena, gen_Arena, a14) X(gen_Array_gen_Pool, gen_Pool, a15)
#define TBLS(X) X(Table_VpByte, VpByte, t1) X(Table_VpShort, VpShort, t2) X(Table_VpInt, VpInt, t3) X(Table_VpWord, VpWord, t4) X(VpPtrMap, VpPtr, t5) X(Table_VpOdd, VpOdd, t6) X(BigTable, VpBig, t7) X(real_table, VpReal, t8) \
	X(gen_StringTable, gen_Str, t9) X(MacroTable, gen_Macro, t10)
ARRS(ARR)
TBLS(TBL)
VpArr vp_arrs[] = { ARRS(ARR_ROWS) };
VpTbl vp_tbls[] = { TBLS(TBL_ROWS) };
const int vp_narrs = sizeof(vp_arrs) / sizeof(vp_arrs[0]), vp_ntbls = sizeof(vp_tbls) / sizeof(vp_tbls[0]);
const size_t vp_alloc_size = sizeof(gen_AllocatorInfo), vp_header_size = sizeof(gen_ArrayHeader);
const int vp_types[4] = { EAllocation_ALLOC, EAllocation_FREE, EAllocation_FREE_ALL, EAllocation_RESIZE };
