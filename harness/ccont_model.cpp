// P22: the containers of the C library against a sequence and a map of byte strings
#include "ccont.h"
#include "model.h"
typedef std::string El;
struct Mem { std::map<char*, size_t> live; long budget; };
static Mem M;
extern "C" void vp_c_trap(const char* f, int l) { vp_trap(f, l); }
extern "C" void* vp_mem(void* data, int type, ptrdiff_t size, void* old) {
	if (data != &M) VIOL("allocator", "called with the data of another");
	if (type == vp_types[0]) { if (M.budget >= 0 && M.budget-- == 0) { M.budget = 0; return nullptr; } char* p = (char*)malloc(size ? size : 1); memset(p, 0xCD, size); M.live[p] = size; return p; }
	if (type == vp_types[1]) { if (!old) return nullptr; auto i = M.live.find((char*)old); if (i == M.live.end()) VIOL("free of foreign memory", "%p", old); M.live.erase(i); free(old); return nullptr; }
	VIOL("allocator", "operation %d", type);
}
static El mk(size_t n) { El e(n, 0); for (size_t i = 0; i < n; i += 8) { uint64_t v = R.next(); memcpy(&e[i], &v, std::min<size_t>(8, n - i)); } return e; }
struct Exact { char* p; Exact(El const& e) { p = (char*)malloc(e.size()); memcpy(p, e.data(), e.size()); } ~Exact() { free(p); } };   // exact-size copy
static VpHeader& head(void* a) { return ((VpHeader*)a)[-1]; }
static El at(VpArr& o, void* a, size_t i) { return El((char*)a + i * o.size, o.size); }
static void check(VpArr& o, void* a, std::vector<El> const& m, const char* op0) {
	std::string op = op0;
	if (!a) VIOL(op, "no storage");
	VpHeader* h = &head(a); auto it = M.live.find((char*)h);
	if (it == M.live.end()) VIOL(op, "the header is not at the start of a live block");
	if (h->Num > h->Capacity) VIOL(op, "count %zu above capacity %zu", h->Num, h->Capacity);
	if (it->second < sizeof(VpHeader) + o.size * h->Capacity) VIOL(op, "block of %zu bytes for capacity %zu", it->second, h->Capacity);
	if (h->Allocator.Data != &M || h->Allocator.Proc != vp_proc) VIOL(op, "the header has another allocator");
	if (o.num(a) != m.size()) VIOL(op, "holds %zu elements, expected %zu", o.num(a), m.size());
	for (size_t i = 0; i < m.size(); i++) if (at(o, a, i) != m[i]) VIOL(op, "element %zu of %zu differs", i, m.size());
	void* b = o.back(a); if (m.empty() ? b != nullptr : b != (char*)a + (m.size() - 1) * o.size) VIOL("back", "wrong last element");
	COUNT(op);
}
static void arrays(VpArr& o) {
	M.live.clear(); M.budget = R.chance(15) ? R.range(1, 5) : -1; VpAlloc ai = { nullptr, &M };
	HIST("%s by %s%s", o.name, o.style, M.budget >= 0 ? " (allocations refused later)" : "");
	void* a = nullptr; std::vector<El> m;
	if (R.chance(40)) { o.init(&a, ai); HIST("init"); } else { size_t c = R.pick<size_t>({ 1, 1, 2, 3, 5, 8, 16, 33 }); o.init_reserve(&a, ai, c); HIST("init_reserve %zu", c); }
	if (!a) { if (M.budget < 0) VIOL("init", "no storage"); return; }
	check(o, a, m, "init");
	auto items = [&](size_t k) { El s; for (size_t i = 0; i < k; i++) s += mk(o.size); return s; };
	auto split = [&](El const& s) { std::vector<El> v; for (size_t i = 0; i < s.size(); i += o.size) v.push_back(s.substr(i, o.size)); return v; };
	int n = (int)R.range(1, 60);
	for (int s = 0; s < n; s++) {
		size_t cap = head(a).Capacity; bool refusing = M.budget >= 0;
		#define DONE(name) do { if (!ok && !refusing) VIOL(name, "refused"); } while (0)
		switch (R.below(16)) {
			case 0: case 1: case 2: { El v = mk(o.size); Exact e(v); bool ok = o.append(&a, e.p); HIST("append -> %d", ok); DONE("append"); if (ok) m.push_back(v); else if (cap > m.size()) VIOL("append", "refused with room"); check(o, a, m, "append"); break; }
			case 3: { size_t k = (size_t)R.pick<int>({ 1, 1, 2, 3, 7, 20, 40 }); El it = items(k); Exact e(it); bool ok = o.append_items(&a, e.p, k); HIST("append_items %zu -> %d", k, ok); DONE("append_items"); if (ok) { auto v = split(it); m.insert(m.end(), v.begin(), v.end()); } else if (cap >= m.size() + k) VIOL("append_items", "refused with room"); check(o, a, m, "append_items"); break; }
			case 4: { size_t i = R.chance(20) ? m.size() + R.below(5) : R.below(m.size() + 1); El v = mk(o.size); Exact e(v); bool ok = o.append_at(&a, e.p, i); HIST("append_at %zu -> %d", i, ok); DONE("append_at"); if (ok) m.insert(m.begin() + std::min(i, m.size()), v); check(o, a, m, "append_at"); break; }
			case 5: { size_t k = (size_t)R.pick<int>({ 1, 2, 3, 9, 30 }); size_t i = R.chance(20) ? m.size() + R.below(5) : R.below(m.size() + 1); El it = items(k); Exact e(it); bool ok = o.append_items_at(&a, e.p, k, i); HIST("append_items_at %zu @%zu -> %d", k, i, ok); DONE("append_items_at"); if (ok) { auto v = split(it); m.insert(m.begin() + std::min(i, m.size()), v.begin(), v.end()); } check(o, a, m, "append_items_at"); break; }
			case 6: { if (m.empty()) break; size_t i = R.below(m.size()); o.remove_at(a, i); HIST("remove_at %zu", i); m.erase(m.begin() + i); check(o, a, m, "remove_at"); break; }
			case 7: { if (m.empty()) break; Exact e(El(o.size, 0)); o.pop(a, e.p); HIST("pop"); if (El(e.p, o.size) != m.back()) VIOL("pop", "gives another element"); m.pop_back(); check(o, a, m, "pop"); break; }
			case 8: { size_t b = R.below(m.size() + 1), e = b + R.below(m.size() - b + 1); if (R.chance(20)) e = m.size() + 1 + R.below(4); El v = mk(o.size); Exact x(v); bool ok = o.fill(a, b, e, x.p); HIST("fill %zu %zu -> %d", b, e, ok); if (ok != (e <= m.size())) VIOL("fill", "range %zu-%zu of %zu %s", b, e, m.size(), ok ? "accepted" : "refused"); if (ok) for (size_t i = b; i < e; i++) m[i] = v; check(o, a, m, "fill"); break; }
			case 9: { size_t k = R.chance(50) ? R.below(m.size() + 1) : m.size() + R.below(40); bool ok = o.resize(&a, k); HIST("resize %zu -> %d", k, ok); DONE("resize"); if (ok) { size_t old = m.size(); m.resize(k); if (o.num(a) != k) VIOL("resize", "count %zu", o.num(a)); for (size_t i = old; i < k; i++) { m[i] = mk(o.size); memcpy((char*)a + i * o.size, m[i].data(), o.size); } } check(o, a, m, "resize"); break; }
			case 10: { size_t k = R.below(60) + 1; bool ok = o.grow(&a, k); HIST("grow %zu -> %d", k, ok); DONE("grow"); if (ok && head(a).Capacity < std::max(k, cap)) VIOL("grow", "capacity %zu", head(a).Capacity); check(o, a, m, "grow"); break; }
			case 11: { size_t k = R.below(60); bool ok = o.reserve(&a, k); HIST("reserve %zu -> %d", k, ok); DONE("reserve"); if (ok && head(a).Capacity < k) VIOL("reserve", "capacity %zu of %zu", head(a).Capacity, k); check(o, a, m, "reserve"); break; }
			case 12: { size_t k = R.chance(60) ? m.size() + R.below(20) : R.below(m.size() + 1); if (!k) k = 1; bool ok = o.set_capacity(&a, k); HIST("set_capacity %zu -> %d", k, ok); DONE("set_capacity"); if (ok && k < m.size()) m.resize(k); if (ok && head(a).Capacity < k) VIOL("set_capacity", "capacity %zu of %zu", head(a).Capacity, k); check(o, a, m, "set_capacity"); break; }
			case 13: { if (!R.chance(30)) break; o.clear(a); HIST("clear"); m.clear(); check(o, a, m, "clear"); break; }
			case 14: {
				void* b = nullptr; o.init_reserve(&b, ai, R.range(1, 6)); if (!b) break; std::vector<El> bm; size_t k = R.range(1, 12);
				for (size_t i = 0; i < k; i++) { El v = mk(o.size); Exact e(v); if (!o.append(&b, e.p)) break; bm.push_back(v); }
				if (bm.empty()) { o.free(&b); break; }
				bool ok = o.append_array(&a, b); HIST("append_array %zu -> %d", bm.size(), ok); DONE("append_array"); if (ok) m.insert(m.end(), bm.begin(), bm.end());
				check(o, b, bm, "appended array"); check(o, a, m, "append_array"); memset(b, 0, o.size * bm.size()); check(o, a, m, "append_array independence"); o.free(&b); if (b) VIOL("free", "handle still set"); check(o, a, m, "append_array after free"); break; }
			case 15: { size_t c = 0; for (void* x = o.begin(a); x != o.end(a); x = o.next(a, x)) { if (c >= m.size() || El((char*)x, o.size) != m[c]) VIOL("iteration", "element %zu", c); c++; } HIST("iterate"); if (c != m.size()) VIOL("iteration", "%zu of %zu", c, m.size()); COUNT("iteration"); break; }
		}
	}
	o.free(&a); HIST("free"); if (a) VIOL("free", "handle still set");
	if (M.budget < 0 && !M.live.empty()) VIOL("free", "%zu blocks are still allocated", M.live.size());
	for (auto& b : M.live) free(b.first);
}
static std::vector<std::pair<uint64_t, El>> seen; static bool visit_ok;
extern "C" void vp_visit(uint64_t k, const void* v, size_t n) { seen.push_back({ k, El((const char*)v, n) }); }
static void check(VpTbl& o, VpTbl2& t, std::map<uint64_t, El>& m, std::set<uint64_t>& ever, const char* op0, bool full) {
	std::string op = op0;
	if (!t.Hashes || !t.Entries) VIOL(op, "no storage");
	if (head(t.Entries).Num != m.size()) VIOL(op, "%zu entries, expected %zu", head(t.Entries).Num, m.size());
	if (!head(t.Hashes).Num) VIOL(op, "no slots");
	COUNT(op);
	auto one = [&](uint64_t k) { void* v = o.get(t, k); auto i = m.find(k); if (i == m.end() ? v != nullptr : (v == nullptr || El((char*)v, o.size) != i->second)) VIOL(op, "lookup of key %llx %s", (unsigned long long)k, v ? (i == m.end() ? "finds a removed or never set entry" : "finds a stale value") : "misses an entry"); };
	if (full) { for (uint64_t k : ever) one(k); for (int i = 0; i < 8; i++) { uint64_t k = R.next(); if (!ever.count(k)) one(k); } }
	else for (int i = 0; i < 3 && !ever.empty(); i++) { auto it = ever.lower_bound(R.chance(50) ? R.next() : R.below(200)); if (it == ever.end()) it = ever.begin(); one(*it); }
	if (full) for (int w = 0; w < 2; w++) {
		seen.clear(); if (w) o.map_mut(t); else o.map(t);
		std::map<uint64_t, El> got; for (auto& p : seen) { if (got.count(p.first)) VIOL("iteration", "key %llx visited twice", (unsigned long long)p.first); got[p.first] = p.second; }
		if (got != m) VIOL("iteration", "visits %zu entries, expected %zu, or wrong values", got.size(), m.size());
	}
}
static void load(VpTbl& o, VpTbl2& t, const char* op) {
	if (head(t.Entries).Num > (size_t)(0.7f * (float)head(t.Hashes).Num)) VIOL("occupancy", "%zu entries in %zu slots after %s", head(t.Entries).Num, head(t.Hashes).Num, op);
	if (o.full(t)) VIOL("occupancy", "full after %s", op);
}
static void tables(VpTbl& o) {
	M.live.clear(); M.budget = -1; VpAlloc ai = { nullptr, &M }; HIST("%s by %s", o.name, o.style);
	VpTbl2 t = { 0, 0 }; std::map<uint64_t, El> m; std::set<uint64_t> ever;
	if (R.chance(40)) { o.init(&t, ai); HIST("init"); } else { size_t n = R.pick<size_t>({ 1, 2, 3, 8, 17, 64 }); o.init_reserve(&t, ai, n); HIST("init_reserve %zu", n); }
	check(o, t, m, ever, "table init", true);
	int n = (int)R.pick<int>({ 5, 20, 60, 150 }); int style = (int)R.below(4);
	uint64_t mod = R.pick<uint64_t>({ 8, 24, 1, 7, 1ull << 32 });
	auto key = [&]() -> uint64_t {
		if (!ever.empty() && R.chance(35)) { auto it = ever.lower_bound(R.next()); if (it == ever.end()) it = ever.begin(); std::advance(it, R.below(std::min<size_t>(8, std::distance(it, ever.end())))); return *it; }
		switch (style) { case 0: return R.below(40); case 1: return R.next(); case 2: return mod * R.below(60) + 3; default: return R.pick<uint64_t>({ 0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 1ull << 32, 0xFFFFFFFFull, 0x80000000ull, (uint64_t)-8, 700 + R.below(100) }); }
	};
	for (int s = 0; s < n; s++) {
		switch (R.below(14)) {
			case 0: case 1: case 2: case 3: case 4: case 5: { uint64_t k = key(); El v = mk(o.size); Exact e(v); o.set(&t, k, e.p); m[k] = v; ever.insert(k); HIST("set %llx", (unsigned long long)k); check(o, t, m, ever, "set", false); load(o, t, "set"); break; }
			case 6: case 7: { uint64_t k = key(); o.remove(t, k); m.erase(k); HIST("remove %llx", (unsigned long long)k); check(o, t, m, ever, "remove", true); break; }
			case 8: { uint64_t k = key(); void* v = o.get(t, k); auto i = m.find(k); HIST("get %llx", (unsigned long long)k); if ((v != nullptr) != (i != m.end())) VIOL("get", "key %llx", (unsigned long long)k); if (v && R.chance(50)) { i->second = mk(o.size); memcpy(v, i->second.data(), o.size); } check(o, t, m, ever, "get", false); break; }
			case 9: { if (!R.chance(25)) break; o.clear(t); m.clear(); HIST("clear"); check(o, t, m, ever, "table clear", true); break; }
			case 10: { o.grow(&t); HIST("grow"); check(o, t, m, ever, "table grow", true); break; }
			case 11: { ptrdiff_t k = R.pick<ptrdiff_t>({ 1, 2, 7, 8, 13, 64, 200, (ptrdiff_t)m.size() + 1 }); o.rehash(&t, k); HIST("rehash %td", k); check(o, t, m, ever, "rehash", true); break; }
			case 12: { o.rehash_fast(t); HIST("rehash_fast"); check(o, t, m, ever, "rehash_fast", true); break; }
			case 13: { if (m.empty() || !R.chance(50)) break; ptrdiff_t i = R.below(m.size()); uint64_t k; memcpy(&k, (char*)t.Entries + i * o.entry_size, 8); o.remove_entry(t, i); o.rehash_fast(t); m.erase(k); HIST("remove_entry %td", i); check(o, t, m, ever, "remove_entry and rehash_fast", true); break; }
		}
	}
	check(o, t, m, ever, "table end", true);
	o.destroy(&t); HIST("destroy"); if (!M.live.empty()) VIOL("destroy", "%zu blocks are still allocated", M.live.size());
}
static void vp_round_fn(long r) {
	if (vp_alloc_size != sizeof(VpAlloc) || vp_header_size != sizeof(VpHeader)) VIOL("layout", "header of %zu bytes", vp_header_size);
	long i = (r / 8) % (vp_narrs + vp_ntbls); // the types in turn, a few rounds each
	if (i < vp_narrs) arrays(vp_arrs[i]); else tables(vp_tbls[i - vp_narrs]);
}
