// P08: gen::Array against std::vector.  Element storage comes from an allocator that checks ownership and can run out.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#include "model.h"
using namespace gen;
struct Big { u64 a; u8 b[13]; bool operator==(Big const& o) const { return a == o.a && memcmp(b, o.b, 13) == 0; } };
struct Mem { std::map<char*, size_t> live; long budget; long allocs; };
static Mem M;
static void* mem_proc(void* data, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64 flags) {
	Mem* m = (Mem*)data;
	switch (type) {
		case EAllocation_ALLOC: { if (m->budget >= 0 && m->budget-- == 0) { m->budget = 0; return nullptr; } char* p = (char*)malloc(size ? size : 1); memset(p, 0xCD, size); m->live[p] = size; m->allocs++; return p; }
		case EAllocation_FREE: { if (!old) return nullptr; auto i = m->live.find((char*)old); if (i == m->live.end()) VIOL("free of foreign memory", "%p", old); m->live.erase(i); ::free(old); return nullptr; }
		case EAllocation_RESIZE: { auto i = m->live.find((char*)old); if (i == m->live.end()) VIOL("resize of foreign memory", "%p", old); char* p = (char*)malloc(size); memcpy(p, old, std::min<size_t>(size, i->second)); ::free(old); m->live.erase(i); m->live[p] = size; return p; }
		default: return nullptr;
	}
}
template<class T> T mk(u64 v);
template<> int mk<int>(u64 v) { return (int)v; }
template<> u8 mk<u8>(u64 v) { return (u8)v; }
template<> u64 mk<u64>(u64 v) { return v; }
template<> void* mk<void*>(u64 v) { return (void*)v; }
template<> Big mk<Big>(u64 v) { Big b; memset(&b, 0, sizeof b); b.a = v; for (int i = 0; i < 13; i++) b.b[i] = (u8)(v * (i + 3)); return b; }
template<class T> static void check(Array<T>& a, std::vector<T> const& m, const char* op) {
	if (!a.Data) VIOL(op, "no storage");
	ArrayHeader* h = a.get_header();
	auto it = M.live.find((char*)h); if (it == M.live.end()) VIOL(op, "the header is not at the start of a live block");
	if (h->Num > h->Capacity) VIOL(op, "count %zu above capacity %zu", (size_t)h->Num, (size_t)h->Capacity);
	if (it->second < sizeof(ArrayHeader) + sizeof(T) * h->Capacity) VIOL(op, "block of %zu bytes for capacity %zu", it->second, (size_t)h->Capacity);
	if (a.num() != m.size()) VIOL(op, "holds %zu elements, expected %zu", (size_t)a.num(), m.size());
	if ((size_t)(a.end() - a.begin()) != m.size()) VIOL(op, "iterates %zd elements, expected %zu", (ssize)(a.end() - a.begin()), m.size());
	for (size_t i = 0; i < m.size(); i++) if (!(a[i] == m[i])) VIOL(op, "element %zu of %zu differs", i, m.size());
	T* bk = a.back(); if (m.empty() ? bk != nullptr : (bk == nullptr || !(*bk == m.back()))) VIOL("back", "wrong last element");
	COUNT(op);
}
template<class T> static void round_t() {
	M.live.clear(); M.budget = R.chance(15) ? R.range(1, 5) : -1; M.allocs = 0;
	AllocatorInfo ai = { mem_proc, &M };
	Array<T> a; std::vector<T> m;
	if (R.chance(40)) { a = Array<T>::init(ai); HIST("init"); }
	else { ssize c = R.pick<ssize>({ 1, 1, 2, 3, 5, 8, 16, 33 }); a = Array<T>::init_reserve(ai, c); HIST("init_reserve %zd", c); }
	if (!a.Data) { COUNT("init refused"); return; }
	check(a, m, "init");
	u64 ctr = R.next() >> 20; int n = (int)R.range(1, 60);
	for (int s = 0; s < n; s++) {
		std::vector<T> before = m;
		ArrayHeader* h = a.get_header(); usize cap = h->Capacity;
		switch (R.below(16)) {
			case 0: case 1: case 2: { T v = mk<T>(ctr++); bool ok = a.append(v); HIST("append -> %d", ok); if (ok) m.push_back(v); else if (cap > before.size()) VIOL("append", "refused with room"); check(a, m, "append"); break; }
			case 3: { size_t k = (size_t)R.pick<int>({ 1, 1, 2, 3, 7, 20, 40 }); std::vector<T> items; for (size_t i = 0; i < k; i++) items.push_back(mk<T>(ctr++)); bool ok = a.append(items.data(), k); HIST("append_items %zu -> %d", k, ok); if (ok) m.insert(m.end(), items.begin(), items.end()); else if (cap >= before.size() + k) VIOL("append_items", "refused with room"); check(a, m, "append_items"); break; }
			case 4: { size_t i = R.chance(20) ? m.size() + R.below(5) : R.below(m.size() + 1); T v = mk<T>(ctr++); bool ok = a.append_at(v, i); HIST("append_at %zu -> %d", i, ok); if (ok) m.insert(m.begin() + std::min(i, m.size()), v); check(a, m, "append_at"); break; }
			case 5: { size_t k = (size_t)R.pick<int>({ 1, 2, 3, 9, 30 }); size_t i = R.chance(20) ? m.size() + R.below(5) : R.below(m.size() + 1); std::vector<T> items; for (size_t j = 0; j < k; j++) items.push_back(mk<T>(ctr++)); bool ok = a.append_at(items.data(), k, i); HIST("append_items_at %zu @%zu -> %d", k, i, ok); if (ok) m.insert(m.begin() + std::min(i, m.size()), items.begin(), items.end()); check(a, m, "append_items_at"); break; }
			case 6: { if (m.empty()) break; size_t i = R.below(m.size()); a.remove_at(i); HIST("remove_at %zu", i); m.erase(m.begin() + i); check(a, m, "remove_at"); break; }
			case 7: { if (m.empty()) break; a.pop(); HIST("pop"); m.pop_back(); check(a, m, "pop"); break; }
			case 8: { size_t b = R.below(m.size() + 1), e = b + R.below(m.size() - b + 1); if (R.chance(20)) e = m.size() + 1 + R.below(4); T v = mk<T>(ctr++); bool ok = a.fill(b, e, v); HIST("fill %zu %zu -> %d", b, e, ok); if (ok != (e <= m.size())) VIOL("fill", "range %zu-%zu of %zu %s", b, e, m.size(), ok ? "accepted" : "refused"); if (ok) for (size_t i = b; i < e; i++) m[i] = v; check(a, m, "fill"); break; }
			case 9: { size_t k = R.chance(50) ? R.below(m.size() + 1) : m.size() + R.below(40); bool ok = a.resize(k); HIST("resize %zu -> %d", k, ok); if (ok) { size_t old = m.size(); m.resize(k); if (a.num() != k) VIOL("resize", "count %zu", (size_t)a.num()); for (size_t i = old; i < k; i++) { a[i] = mk<T>(ctr++); m[i] = a[i]; } } check(a, m, "resize"); break; }
			case 10: { size_t k = R.below(60) + 1; bool ok = a.grow(k); HIST("grow %zu -> %d", k, ok); if (Array<T>::grow_formula((ssize)cap) <= cap || Array<T>::grow_formula((ssize)cap) != array_grow_formula((ssize)cap)) VIOL("grow_formula", "a capacity of %zu grows to %zu", cap, (size_t)Array<T>::grow_formula((ssize)cap)); if (ok && a.get_header()->Capacity < std::max<size_t>(k, cap)) VIOL("grow", "capacity %zu", (size_t)a.get_header()->Capacity); check(a, m, "grow"); break; }
			case 11: { size_t k = R.below(60) + 1; bool ok = a.reserve(k); HIST("reserve %zu -> %d", k, ok); if (ok && a.get_header()->Capacity < k) VIOL("reserve", "capacity %zu of %zu", (size_t)a.get_header()->Capacity, k); check(a, m, "reserve"); break; }
			case 12: { size_t k = R.chance(60) ? m.size() + R.below(20) : R.below(m.size() + 1); if (!k) k = 1; bool ok = a.set_capacity(k); HIST("set_capacity %zu -> %d", k, ok); if (ok && k < m.size()) m.resize(k); check(a, m, "set_capacity"); break; }
			case 13: { if (!R.chance(30)) break; a.clear(); HIST("clear"); m.clear(); check(a, m, "clear"); break; }
			case 14: {   // appending another array copies it
				Array<T> o = Array<T>::init_reserve(ai, R.range(1, 6)); if (!o.Data) break; std::vector<T> om; size_t k = R.range(1, 12); bool full = true;
				for (size_t i = 0; i < k; i++) { T v = mk<T>(ctr++); if (!o.append(v)) { full = false; break; } om.push_back(v); }
				if (om.empty()) break;
				bool ok = a.append(o); HIST("append_array %zu -> %d", om.size(), ok); (void)full;
				if (ok) m.insert(m.end(), om.begin(), om.end());
				check(o, om, "appended array"); check(a, m, "append_array");
				for (size_t i = 0; i < om.size(); i++) o[i] = mk<T>(0);
				check(a, m, "append_array independence"); o.free(); if (o.Data) VIOL("free", "handle still set"); check(a, m, "append_array after free"); break; }
			case 15: { size_t c = 0; for (T& x : a) { if (!(x == m[c])) VIOL("iteration", "element %zu", c); c++; } HIST("iterate"); if (c != m.size()) VIOL("iteration", "%zu of %zu", c, m.size()); break; }
		}
	}
	a.free(); HIST("free"); if (a.Data) VIOL("free", "handle still set");
	if (M.budget < 0 && !M.live.empty()) VIOL("free", "%zu blocks are still allocated", M.live.size());
	for (auto& b : M.live) ::free(b.first);
}
static void vp_round_fn(long r) {
	switch (r % 5) { case 0: round_t<int>(); break; case 1: round_t<u8>(); break; case 2: round_t<u64>(); break; case 3: round_t<void*>(); break; default: round_t<Big>(); }
}
