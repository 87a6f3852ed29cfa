// P09: gen::HashTable against std::map.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#include "model.h"
using namespace gen;
struct Wide { u64 a, b, c; bool operator==(Wide const& o) const { return a == o.a && b == o.b && c == o.c; } };
static std::map<char*, size_t> live;
static void* mem_proc(void*, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64 flags) {
	if (type == EAllocation_ALLOC) { char* p = (char*)malloc(size ? size : 1); memset(p, 0xCD, size); live[p] = size; return p; }
	if (type == EAllocation_FREE) { if (!old) return nullptr; if (!live.erase((char*)old)) VIOL("free of foreign memory", "%p", old); ::free(old); }
	return nullptr;
}
template<class T> T mk(u64 v);
template<> s32 mk<s32>(u64 v) { return (s32)v; }
template<> u8 mk<u8>(u64 v) { return (u8)v; }
template<> Wide mk<Wide>(u64 v) { return { v, ~v, v * 7 }; }
static std::vector<std::pair<u64, u64>> seen_map;
template<class T> static std::vector<std::pair<u64, T>>& visited() { static std::vector<std::pair<u64, T>> v; return v; }
template<class T> static void visit(u64 k, T v) { visited<T>().push_back({ k, v }); }
template<class T> static void visit_mut(u64 k, T* v) { visited<T>().push_back({ k, *v }); }
template<class T> static void check(HashTable<T>& t, std::map<u64, T>& m, std::set<u64>& ever, const char* op, bool full) {
	if (t.Entries.num() != m.size()) VIOL(op, "%zu entries, expected %zu", (size_t)t.Entries.num(), m.size());
	COUNT(op);
	auto one = [&](u64 k) { T* v = t.get(k); auto i = m.find(k); if (i == m.end() ? v != nullptr : (v == nullptr || !(*v == i->second))) VIOL(op, "lookup of key %llx %s", (unsigned long long)k, v ? (i == m.end() ? "finds a removed or never set entry" : "finds a stale value") : "misses an entry"); };
	if (full) { for (u64 k : ever) one(k); for (int i = 0; i < 8; i++) { u64 k = R.next(); if (!ever.count(k)) one(k); } }
	else for (int i = 0; i < 3 && !ever.empty(); i++) { auto it = ever.lower_bound(R.chance(50) ? R.next() : R.below(200)); if (it == ever.end()) it = ever.begin(); one(*it); }
	if (!t.Hashes.num()) VIOL(op, "no slots");
	if (full) {
		for (int w = 0; w < 2; w++) {
			visited<T>().clear(); if (w) t.map_mut(visit_mut<T>); else t.map(visit<T>);
			std::map<u64, T> got; for (auto& p : visited<T>()) { if (got.count(p.first)) VIOL("iteration", "key %llx visited twice", (unsigned long long)p.first); got[p.first] = p.second; }
			if (!(got == m)) VIOL("iteration", "visits %zu entries, expected %zu, or wrong values", got.size(), m.size());
		}
	}
}
template<class T> static void load(HashTable<T>& t, const char* op) {
	if (t.Entries.num() > (size_t)(0.7f * (f32)t.Hashes.num())) VIOL("occupancy", "%zu entries in %zu slots after %s", (size_t)t.Entries.num(), (size_t)t.Hashes.num(), op);
}
template<class T> static void round_t() {
	live.clear(); AllocatorInfo ai = { mem_proc, 0 };
	HashTable<T> t; std::map<u64, T> m; std::set<u64> ever;
	if (R.chance(40)) { t = HashTable<T>::init(ai); HIST("init"); } else { usize n = R.pick<usize>({ 1, 2, 3, 8, 17, 64 }); t = HashTable<T>::init_reserve(ai, n); HIST("init_reserve %zu", (size_t)n); }
	check(t, m, ever, "init", true);
	int n = (int)R.pick<int>({ 5, 20, 60, 150 }); int style = (int)R.below(4);
	u64 mod = R.pick<u64>({ 8, 24, 1, 7, 1ull << 32 });
	auto key = [&]() -> u64 {
		if (!ever.empty() && R.chance(35)) { auto it = ever.lower_bound(R.next()); if (it == ever.end()) it = ever.begin(); std::advance(it, R.below(std::min<size_t>(8, std::distance(it, ever.end())))); return *it; }
		switch (style) { case 0: return R.below(40); case 1: return R.next(); case 2: return mod * R.below(60) + 3; default: return R.pick<u64>({ 0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 1ull << 32, 0xFFFFFFFFull, 0x80000000ull, (u64)-8, 700 + R.below(100) }); }
	};
	for (int s = 0; s < n; s++) {
		switch (R.below(14)) {
			case 0: case 1: case 2: case 3: case 4: case 5: { u64 k = key(); T v = mk<T>(R.next()); R.chance(50) ? t.set(k, v) : gen::set(t, k, v); m[k] = v; ever.insert(k); HIST("set %llx", (unsigned long long)k); check(t, m, ever, "set", false); load(t, "set"); break; }
			case 6: case 7: { u64 k = key(); t.remove(k); m.erase(k); HIST("remove %llx", (unsigned long long)k); check(t, m, ever, "remove", true); break; }
			case 8: { u64 k = key(); T* v = t.get(k); auto i = m.find(k); HIST("get %llx", (unsigned long long)k); if ((v != nullptr) != (i != m.end())) VIOL("get", "key %llx", (unsigned long long)k); if (v && R.chance(50)) { *v = mk<T>(R.next()); i->second = *v; } check(t, m, ever, "get", false); break; }
			case 9: { if (!R.chance(25)) break; t.clear(); m.clear(); HIST("clear"); check(t, m, ever, "clear", true); break; }
			case 10: { R.chance(50) ? t.grow() : gen::grow(t); HIST("grow"); check(t, m, ever, "grow", true); break; }
			case 11: { ssize k = R.pick<ssize>({ 1, 2, 7, 8, 13, 64, 200, (ssize)m.size() + 1 }); R.chance(50) ? t.rehash(k) : gen::rehash(t, k); HIST("rehash %zd", k); check(t, m, ever, "rehash", true); break; }
			case 12: { t.rehash_fast(); HIST("rehash_fast"); check(t, m, ever, "rehash_fast", true); break; }
			case 13: { if (m.empty() || !R.chance(50)) break; ssize i = R.below(t.Entries.num()); u64 k = t.Entries[i].Key; t.remove_entry(i); t.rehash_fast(); m.erase(k); HIST("remove_entry %zd", i); check(t, m, ever, "remove_entry and rehash_fast", true); break; }
		}
	}
	check(t, m, ever, "end", true);
	R.chance(50) ? t.destroy() : gen::destroy(t); HIST("destroy"); if (!live.empty()) VIOL("destroy", "%zu blocks are still allocated", live.size());
}
static void vp_round_fn(long r) { switch (r % 3) { case 0: round_t<s32>(); break; case 1: round_t<u8>(); break; default: round_t<Wide>(); } }
