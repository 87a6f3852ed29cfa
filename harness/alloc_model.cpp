// P10: every allocator against an ownership model: aligned, in bounds, disjoint, zeroed, contents kept.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
static std::map<char*, size_t> backing;                 // what the backing allocator handed out
static long backing_fail;                               // > 0: that many more succeed, then null
static void* back_proc(void*, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64 flags) {
	if (type == EAllocation_ALLOC) {
		if (backing_fail && --backing_fail == 0) { backing_fail = 1; return nullptr; }
		void* p = nullptr; if (posix_memalign(&p, (size_t)std::max<ssize>(align, 16), size)) abort();
		memset(p, 0xCD, size); backing[(char*)p] = size; return p;
	}
	if (type == EAllocation_FREE) { if (!old) return nullptr; if (!backing.erase((char*)old)) VIOL("backing freed twice or foreign", "%p", old); ::free(old); }
	return nullptr;
}
struct Block { size_t size; size_t align; u32 seed; int owner; size_t cap; };
static std::map<char*, Block> blocks; static u32 seedn;
static unsigned char byte_at(u32 s, size_t i) { return (unsigned char)((s * 2654435761u + i * 40503u) >> 7); }
static void fill(char* p, size_t from, Block& b) { for (size_t i = from; i < b.size; i++) p[i] = byte_at(b.seed, i); }
static void verify(char* p, Block& b, const char* op) { for (size_t i = 0; i < b.size; i++) if ((unsigned char)p[i] != byte_at(b.seed, i)) VIOL(op, "byte %zu of a live block of %zu bytes changed", i, b.size); }
static void verify_all(const char* op) { for (auto& e : blocks) verify(e.first, e.second, op); COUNT(op); }
static std::vector<std::pair<char*, size_t>> regions;   // memory the allocator under test owns; empty: any
static void fresh(char* p, size_t size, size_t align, int owner, const char* op, bool zeroed = true) {
	if ((uintptr_t)p % align) VIOL(op, "block %p of %zu bytes not aligned to %zu", p, size, align);
	if (!regions.empty()) { bool in = false; for (auto& r : regions) in |= p >= r.first && p + size <= r.first + r.second; if (!in) VIOL(op, "block of %zu bytes lies outside the allocator's memory", size); }
	auto n = blocks.lower_bound(p);
	if (n != blocks.end() && n->first < p + size) VIOL(op, "new block of %zu bytes overlaps a live block %td bytes further", size, n->first - p);
	if (n != blocks.begin()) { --n; if (n->first + n->second.size > p) VIOL(op, "new block overlaps the live block before it by %td bytes", n->first + n->second.size - p); }
	if (zeroed) for (size_t i = 0; i < size; i++) if (p[i]) VIOL(op, "byte %zu of a new block of %zu is not zero", i, size);
	Block b = { size, align, ++seedn, owner, size }; fill(p, 0, b); blocks[p] = b;
}
static size_t asize() { switch (R.below(5)) { case 0: return 1 + R.below(16); case 1: return 1 + R.below(100); case 2: return (size_t)R.pick<int>({ 8, 16, 24, 32, 64, 128, 256 }); case 3: return 1 + R.below(1000); default: return (size_t)R.pick<int>({ 1, 3, 7, 15, 17, 31, 33, 63, 65, 127, 129 }); } }
static size_t aalign() { return (size_t)R.pick<int>({ 1, 2, 4, 8, 16, 16, 16, 32, 64, 128, 256 }); }
static char* any_block() { if (blocks.empty()) return nullptr; auto it = blocks.begin(); std::advance(it, R.below(blocks.size())); return it->first; }
static void do_resize(AllocatorInfo a, const char* op, bool (*fatal_ok)(size_t)) {
	char* p = any_block(); if (!p) return; Block b = blocks[p];
	size_t ns = R.chance(30) ? b.size : R.chance(50) ? b.size + 1 + R.below(200) : 1 + R.below(b.size); char* q = nullptr;
	HIST("resize %zu -> %zu align %zu", b.size, ns, b.align);
	blocks.erase(p); verify(p, b, op);
	if (TRAPS(q = (char*)resize_align(a, p, b.size, ns, b.align))) { if (!fatal_ok || !fatal_ok(ns + 2 * b.align)) VIOL(op, "fatal stop resizing to %zu bytes though there is room", ns); blocks[p] = b; verify_all(op); return; }
	if (!q) VIOL(op, "no memory for %zu bytes", ns);
	if ((uintptr_t)q % b.align) VIOL(op, "resized block not aligned to %zu", b.align);
	for (size_t i = 0; i < std::min(ns, b.size); i++) if ((unsigned char)q[i] != byte_at(b.seed, i)) VIOL(op, "byte %zu lost by resizing %zu to %zu", i, b.size, ns);
	fresh(q, ns, b.align, b.owner, op, false);
	if (q == p) blocks[q].cap = b.cap;
}
static Arena* cur; static bool arena_full(size_t need) { return cur->TotalUsed + (ssize)need > cur->TotalSize; }
static void arena_ops(Arena& a, int n, const char* op, bool keep_others) {
	cur = &a; AllocatorInfo ai = arena_allocator_info(&a);
	for (int i = 0; i < n; i++) switch (R.below(10)) {
		default: {
			size_t s = asize(), al = aalign(); char* p = nullptr; bool dflt = R.chance(30); if (dflt) al = 16;
			ssize rem = arena_size_remaining(&a, al), used = a.TotalUsed; HIST("alloc %zu align %zu (remaining %zd)", s, al, rem);
			if (TRAPS(p = (char*)(dflt ? alloc(ai, s) : alloc_align(ai, s, al)))) { COUNT("arena exhausted"); if (rem >= (ssize)(s + al)) VIOL(op, "fatal stop at %zu bytes with %zd remaining", s, rem); if (a.TotalUsed != used) VIOL(op, "a failed allocation changed the use"); break; }
			if (!p) { if (rem >= (ssize)(s + al)) VIOL(op, "no memory at %zu bytes with %zd remaining", s, rem); break; }
			if ((ssize)s > rem) VIOL(op, "%zu bytes handed out with %zd remaining", s, rem);
			fresh(p, s, al, 0, op); if (a.TotalUsed > a.TotalSize) VIOL(op, "use %zd above the size %zd", a.TotalUsed, a.TotalSize);
			break; }
		case 0: { char* p = any_block(); if (!p) break; verify(p, blocks[p], op); HIST("free"); allocator_free(ai, p); blocks.erase(p); break; }
		case 1: do_resize(ai, op, arena_full); break;
		case 2: if (R.chance(30)) { verify_all(op); free_all(ai); blocks.clear(); HIST("free_all"); if (arena_size_remaining(&a, 1) != a.TotalSize) VIOL(op, "free_all leaves bytes in use"); } break;
		case 3: verify_all(op); break;
	}
	verify_all(op);
}
static void r_arena() {
	int kind = (int)R.below(4); ssize size = R.pick<ssize>({ 64, 100, 256, 1000, 4096, 9001 });
	if (kind == 0) {
		char* raw = (char*)::malloc(size + 40); size_t off = R.below(33); char* m = raw + off; memset(raw, 0xCD, size + 40);
		Arena a = R.chance(50) ? arena_init_from_memory(m, size) : Arena::init_from_memory(m, size); regions = { { m, (size_t)size } }; HIST("arena from memory %zd at offset %zu", size, off);
		arena_ops(a, 60, "arena from memory", false);
		for (size_t i = 0; i < off; i++) if ((unsigned char)raw[i] != 0xCD) VIOL("arena from memory", "wrote before its memory"); for (ssize i = off + size; i < size + 40; i++) if ((unsigned char)raw[i] != 0xCD) VIOL("arena from memory", "wrote past its memory");
		arena_check(&a); arena_free(&a); ::free(raw); return;
	}
	AllocatorInfo ai = { back_proc, 0 };
	Arena a = Arena::init_from_allocator(ai, size); regions = { { (char*)a.PhysicalStart, (size_t)size } }; HIST("arena from allocator %zd", size);
	if (kind == 1) { arena_ops(a, 60, "arena from allocator", false); arena_free(&a); if (!backing.empty()) VIOL("arena from allocator", "memory not returned"); return; }
	arena_ops(a, 20, "arena from allocator", false);
	ssize s2 = R.pick<ssize>({ 64, 500, 2000 }); Arena sub = R.chance(50) ? arena_init_sub(&a, s2) : Arena::init_sub(a, s2); HIST("sub arena %zd", s2);
	for (auto& e : blocks) if ((char*)sub.PhysicalStart < e.first + e.second.size && e.first < (char*)sub.PhysicalStart + s2) VIOL("sub arena", "its memory overlaps a live block");
	std::map<char*, Block> outer; outer.swap(blocks); regions = { { (char*)sub.PhysicalStart, (size_t)s2 } };
	arena_ops(sub, 40, "sub arena", false); std::map<char*, Block> inner; inner.swap(blocks);
	blocks.swap(outer); verify_all("sub arena"); regions = { { (char*)a.PhysicalStart, (size_t)size } }; arena_ops(a, 10, "arena from allocator", true);
	blocks.swap(inner); verify_all("sub arena");
	arena_free(&sub); arena_free(&a); if (!backing.empty()) VIOL("sub arena", "memory not returned");
}
template<s32 N> static void r_fixed() {
	auto* f = (FixedArena<N>*)::malloc(sizeof(FixedArena<N>)); memset(f, 0xCD, sizeof *f);
	fixed_arena_init<N>(f); HIST("fixed arena %d", N); regions = { { f->memory, (size_t)N } };
	if (R.chance(50)) { ssize r = R.chance(50) ? gen::size_remaining(*f, 1) : fixed_arena_size_remaining(f, 1); if (r != N) VIOL("fixed arena", "fresh: %zd remaining of %d", r, N); }
	AllocatorInfo ai = R.chance(50) ? gen::allocator_info(*f) : fixed_arena_allocator_info(f); if (ai.Data != &f->arena) VIOL("fixed arena", "allocator of another arena");
	arena_ops(f->arena, 40, "fixed arena", false); fixed_arena_free(f); ::free(f);
}
static void r_pool() {
	AllocatorInfo ai = { back_proc, 0 }; ssize n = R.pick<ssize>({ 1, 2, 3, 5, 8, 17, 40 }), bs = R.pick<ssize>({ 1, 4, 8, 12, 16, 20, 24, 33, 64, 100, 128, 200 }), al = R.pick<ssize>({ 8, 16, 16, 32, 64, 128 }); bool dflt = R.chance(30); if (dflt) al = 16;
	bool nomem = R.chance(5); backing_fail = nomem ? 1 : 0;
	Pool p = dflt ? Pool::init(ai, n, bs) : pool_init_align(ai, n, bs, al); HIST("pool %zd blocks of %zd align %zd%s", n, bs, al, nomem ? " (no backing)" : ""); AllocatorInfo pi = pool_allocator_info(&p);
	if (nomem) { void* q = nullptr; COUNT("pool without backing"); if (!TRAPS(q = alloc_align(pi, bs, al)) && q) VIOL("pool without backing", "hands out memory"); return; }
	regions.clear(); for (auto& b : backing) regions.push_back(b);
	for (int i = 0; i < 80; i++) {
		switch (R.below(12)) {
			default: {
				char* q = nullptr; HIST("alloc"); bool t = TRAPS(q = (char*)alloc_align(pi, bs, al));
				if ((ssize)blocks.size() == n) { COUNT("pool exhausted"); if (!t && q) VIOL("pool", "hands out more blocks than it has (%zd)", n); break; }
				if (t || !q) VIOL("pool", "refuses block %zu of %zd", blocks.size() + 1, n);
				fresh(q, bs, al, 0, "pool"); break; }
			case 0: case 1: case 2: { char* q = any_block(); if (!q) break; verify(q, blocks[q], "pool"); HIST("free"); allocator_free(pi, q); blocks.erase(q); break; }
			case 3: if (R.chance(15)) { verify_all("pool"); HIST("clear"); if (R.chance(50)) pool_clear(&p); else free_all(pi); blocks.clear(); } break;
			case 4: { void* q = (void*)1; HIST("wrong size or alignment"); bool t = R.chance(50) ? TRAPS(q = alloc_align(pi, bs + 1, al)) : TRAPS(q = alloc_align(pi, bs, al * 2)); if (!t && q) VIOL("pool", "serves a request of another size or alignment"); break; }
			case 5: verify_all("pool"); break;
		}
		if (p.TotalSize != (ssize)blocks.size() * bs) VIOL("pool", "counts %zd bytes in use for %zu blocks of %zd", p.TotalSize, blocks.size(), bs);
	}
	verify_all("pool"); pool_free(&p); if (!backing.empty()) VIOL("pool", "memory not returned");
}
static size_t heap_used; static void heap_stats(const char* op) {
#ifdef GEN_HEAP_ANALYSIS
	size_t u = 0; for (auto& b : blocks) u += b.second.cap;
	if (heap_stats_used_memory() != (ssize)u || heap_stats_alloc_count() != (ssize)blocks.size()) VIOL("heap statistics", "%zd bytes in %zd allocations, expected %zu in %zu", heap_stats_used_memory(), heap_stats_alloc_count(), u, blocks.size());
	bool t = TRAPS(heap_stats_check()); if (t != !blocks.empty()) VIOL("heap statistics", "check %s with %zu live blocks", t ? "stops" : "passes", blocks.size()); COUNT("heap statistics");
#endif
}
static void r_heap() {
	AllocatorInfo h = heap(); regions.clear();
#ifdef GEN_HEAP_ANALYSIS
	heap_stats_init();
#endif
	for (int i = 0; i < 50; i++) {
		switch (R.below(8)) {
			default: { size_t s = asize(), al = aalign(); bool d = R.chance(30); if (d) al = 16; HIST("alloc %zu align %zu", s, al); char* p = (char*)(d ? alloc(h, s) : alloc_align(h, s, al)); if (!p) VIOL("heap", "no memory for %zu bytes aligned to %zu", s, al); fresh(p, s, al, 0, "heap"); break; }
			case 0: case 1: { char* q = any_block(); if (!q) break; verify(q, blocks[q], "heap"); HIST("free"); allocator_free(h, q); blocks.erase(q); break; }
			case 2: do_resize(h, "heap", nullptr); break;
			case 3: allocator_free(h, nullptr); verify_all("heap"); break;
		}
		heap_stats("heap");
	}
	for (auto it = blocks.begin(); it != blocks.end();) { verify(it->first, it->second, "heap"); allocator_free(h, it->first); it = blocks.erase(it); }
	heap_stats("heap");
}
static bool mapped(void* p, size_t n) { return msync(p, n, MS_ASYNC) == 0; }
static void r_vm() {
	ssize al = 0, pg = virtual_memory_page_size(&al); if (pg != sysconf(_SC_PAGE_SIZE) || al <= 0 || al % pg) VIOL("virtual memory", "page size %zd alignment %zd", pg, al);
	int np = 1 + (int)R.below(8); ssize sz = np * pg; HIST("vm %d pages", np);
	VirtualMemory v = vm_alloc(nullptr, sz); if (!v.data || v.data == MAP_FAILED || v.size != sz || (uintptr_t)v.data % pg) VIOL("virtual memory", "allocation of %zd", sz);
	char* d = (char*)v.data; for (ssize i = 0; i < sz; i += 97) if (d[i]) VIOL("virtual memory", "not zeroed"); u32 s = ++seedn; for (ssize i = 0; i < sz; i++) d[i] = byte_at(s, i);
	if (R.chance(60)) {
		int lead = (int)R.below(np), keep = 1 + (int)R.below(np - lead); HIST("trim %d %d", lead, keep);
		VirtualMemory t = vm_trim(v, lead * pg, keep * pg);
		if (t.data != d + lead * pg || t.size != keep * pg) VIOL("virtual memory", "trim gives another range"); 
		for (ssize i = 0; i < t.size; i++) if ((unsigned char)((char*)t.data)[i] != byte_at(s, lead * pg + i)) VIOL("virtual memory", "trim lost contents");
		if (lead && mapped(d, lead * pg)) VIOL("virtual memory", "trim keeps the leading pages"); if (lead + keep < np && mapped(d + (lead + keep) * pg, pg)) VIOL("virtual memory", "trim keeps the trailing pages"); COUNT("vm trim"); v = t;
	}
	if (R.chance(50)) { HIST("purge"); if (!vm_purge(v)) VIOL("virtual memory", "purge reports failure"); for (ssize i = 0; i < v.size; i += 61) { char c = ((char*)v.data)[i]; if (c) VIOL("virtual memory", "purged page keeps contents"); } ((char*)v.data)[0] = 1; COUNT("vm purge"); }
	VirtualMemory w = vm_from_memory(v.data, v.size); if (w.data != v.data || w.size != v.size) VIOL("virtual memory", "from memory");
	if (!vm_free(w)) VIOL("virtual memory", "free reports failure"); if (mapped(v.data, pg)) VIOL("virtual memory", "free keeps pages"); COUNT("vm");
}
static void fb_regions(Context& c) { regions.clear(); for (size_t i = 0; i < array_num(c.Fallback_AllocatorBuckets); i++) regions.push_back({ (char*)c.Fallback_AllocatorBuckets[i].PhysicalStart, (size_t)c.Fallback_AllocatorBuckets[i].TotalSize }); }
static void r_fallback() {
	static Context ctx; ctx = Context{}; static Context other; other = Context{};
	ctx.InitSize_Fallback_Allocator_Bucket_Size = R.pick<u32>({ 0, 4096, 40000, 300000 }); ctx.CodePool_NumBlocks = 64; ctx.SizePer_StringArena = 2000; ctx.InitSize_LexerTokens = 16; ctx.InitSize_BuilderBuffer = 1000;
	bool two = R.chance(30); if (two) { other = ctx; other.InitSize_Fallback_Allocator_Bucket_Size = 5000; }
	init(&ctx); if (two) { init(&other); if (R.chance(50)) set_context(&ctx); }
	HIST("context, bucket %u, %s", (unsigned)ctx.InitSize_Fallback_Allocator_Bucket_Size, two ? "two" : "one");
	AllocatorInfo ai = R.chance(50) ? ctx.Allocator_Temp : ctx.Allocator_DyanmicContainers;
	for (int i = 0; i < 60; i++) switch (R.below(8)) {
		default: { size_t s = asize(); if (R.chance(10)) s = ctx.InitSize_Fallback_Allocator_Bucket_Size < 100000 ? ctx.InitSize_Fallback_Allocator_Bucket_Size - 40 + R.below(80) : 30000; if (R.chance(3)) s = 60000; size_t al = R.chance(60) ? 16 : aalign(); HIST("alloc %zu align %zu", s, al);
			char* p = (char*)alloc_align(ai, s, al); if (!p) VIOL("fallback allocator", "no memory for %zu", s); fb_regions(ctx); fresh(p, s, al, 0, "fallback allocator"); break; }
		case 0: { char* q = any_block(); if (!q) break; verify(q, blocks[q], "fallback allocator"); HIST("free"); allocator_free(ai, q); blocks.erase(q); break; }
		case 1: { char* p = any_block(); if (!p) break; Block b = blocks[p]; size_t ns = b.size + 1 + R.below(300); if (R.chance(20)) ns = 1 + R.below(b.size); HIST("resize %zu -> %zu", b.size, ns); blocks.erase(p);
			char* q = (char*)resize_align(ai, p, b.size, ns, b.align); if (!q) VIOL("fallback allocator", "no memory resizing"); for (size_t k = 0; k < std::min(ns, b.size); k++) if ((unsigned char)q[k] != byte_at(b.seed, k)) VIOL("fallback allocator", "byte %zu lost by resizing", k); fb_regions(ctx); fresh(q, ns, b.align, 0, "fallback allocator", false); break; }
		case 2: { std::string t = vp_fmt("text %llu", (unsigned long long)R.next()); cache_str({ t.data(), (ssize)t.size() }); make_code(); HIST("use the context"); break; }
		case 3: verify_all("fallback allocator"); break;
	}
	verify_all("fallback allocator");
	blocks.clear(); set_context(&ctx); if (two) { deinit(&other); } deinit(&ctx);
}
static void vp_round_fn(long r) {
	blocks.clear(); for (auto& b : backing) ::free(b.first); backing.clear(); backing_fail = 0; regions.clear();
	switch (r % 8) { case 0: case 1: case 2: r_arena(); break; case 3: switch (R.below(3)) { case 0: r_fixed<1024>(); break; case 1: r_fixed<100>(); break; default: r_fixed<4096>(); } break; case 4: case 5: r_pool(); break; case 6: r_heap(); break; default: if (r % 40 == 7) r_fallback(); else r_vm(); }
}
