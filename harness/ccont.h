#pragma once
// P22: the operations of one container type, by address
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct VpAlloc { void* Proc; void* Data; } VpAlloc;
typedef struct VpHeader { VpAlloc Allocator; size_t Capacity, Num; } VpHeader;
typedef struct VpArr {
	const char *name, *style; size_t size;
	void (*init)(void**, VpAlloc); void (*init_reserve)(void**, VpAlloc, size_t);
	bool (*append)(void**, const void*), (*append_items)(void**, void*, size_t), (*append_at)(void**, const void*, size_t), (*append_items_at)(void**, void*, size_t, size_t), (*append_array)(void**, void*);
	void* (*back)(void*); void (*clear)(void*); bool (*fill)(void*, size_t, size_t, const void*); void (*free)(void**); bool (*grow)(void**, size_t); size_t (*num)(void*);
	void (*pop)(void*, void*), (*remove_at)(void*, size_t); bool (*reserve)(void**, size_t), (*resize)(void**, size_t), (*set_capacity)(void**, size_t);
	void *(*begin)(void*), *(*end)(void*), *(*next)(void*, void*);
} VpArr;
typedef struct VpTbl2 { void *Hashes, *Entries; } VpTbl2;
typedef struct VpTbl {
	const char *name, *style; size_t size, entry_size, value_offset;
	void (*init)(VpTbl2*, VpAlloc), (*init_reserve)(VpTbl2*, VpAlloc, ptrdiff_t), (*clear)(VpTbl2), (*destroy)(VpTbl2*); void* (*get)(VpTbl2, uint64_t);
	void (*map)(VpTbl2), (*map_mut)(VpTbl2), (*grow)(VpTbl2*), (*rehash)(VpTbl2*, ptrdiff_t), (*rehash_fast)(VpTbl2), (*remove)(VpTbl2, uint64_t), (*remove_entry)(VpTbl2, ptrdiff_t), (*set)(VpTbl2*, uint64_t, const void*);
	bool (*full)(VpTbl2);
} VpTbl;
extern VpArr vp_arrs[]; extern VpTbl vp_tbls[]; extern const int vp_narrs, vp_ntbls; extern const size_t vp_alloc_size, vp_header_size; extern const int vp_types[4];
void vp_visit(uint64_t key, const void* value, size_t size);
extern void* const vp_proc; void* vp_mem(void* data, int type, ptrdiff_t size, void* old);
void vp_c_trap(const char* file, int line);
#ifdef __cplusplus
}
#endif
