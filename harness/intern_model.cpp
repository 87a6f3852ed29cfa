// P11: cache_str against an exact table of texts, across table and arena growth, several contexts included.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
static std::set<char*> live; static bool counting;
static void* mem_proc(void*, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64 flags) {
	if (type == EAllocation_ALLOC) { void* p = nullptr; if (posix_memalign(&p, (size_t)std::max<ssize>(align, 16), size)) abort(); memset(p, flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO ? 0 : 0xCD, size); live.insert((char*)p); return p; }
	if (type == EAllocation_FREE) { if (old && live.erase((char*)old)) ::free(old); return nullptr; }
	if (type == EAllocation_RESIZE) { AllocatorInfo a = { mem_proc, 0 }; return default_resize_align(a, old, old_size, size, align); }
	return nullptr;
}
struct Tab { std::map<std::string, const char*> m; std::map<const char*, std::string> back; std::vector<std::pair<const char*, std::string>> big; };
static Context ctxs[2]; static Tab tabs[2]; static int cur; static u32 maxlen[2];
static std::string esc(std::string const& s) { return vp_esc(s.substr(0, 30), 60) + (s.size() > 30 ? vp_fmt("...(%zu)", s.size()) : ""); }
static void intern(std::string const& s) {
	// the text comes from an exact-size buffer that goes away afterwards
	char* b = (char*)::malloc(s.size() ? s.size() : 1); memcpy(b, s.data(), s.size()); Str in = { b, (ssize)s.size() };
	StrCached c = cache_str(in); memset(b, '#', s.size()); ::free(b);
	Tab& t = tabs[cur]; COUNT(s.size() > maxlen[cur] ? "beyond the limit" : "intern");
	if (!c.Ptr) VIOL("intern", "null for %s", esc(s).c_str());
	if (c.Len != (ssize)s.size() || memcmp(c.Ptr, s.data(), s.size())) VIOL("intern", "\"%s\" (%zu) interned as \"%s\" (%zd)", esc(s).c_str(), s.size(), esc(std::string(c.Ptr, c.Len)).c_str(), c.Len);
	if (c.Ptr[c.Len]) VIOL("intern", "\"%s\" not terminated", esc(s).c_str());
	if (s.size() > maxlen[cur]) { t.big.push_back({ c.Ptr, s }); return; }
	auto i = t.m.find(s);
	if (i != t.m.end()) { if (i->second != c.Ptr) VIOL("identity", "\"%s\" interned again has another address", esc(s).c_str()); COUNT("interned again"); }
	else { auto o = t.back.find(c.Ptr); if (o != t.back.end()) VIOL("identity", "\"%s\" shares its address with \"%s\"", esc(s).c_str(), esc(o->second).c_str()); t.m[s] = c.Ptr; t.back[c.Ptr] = s; }
}
static void verify(const char* op) {
	for (int k = 0; k < 2; k++) {
		for (auto& e : tabs[k].m) if (memcmp(e.second, e.first.data(), e.first.size()) || e.second[e.first.size()]) VIOL("permanence", "\"%s\" changed (%s)", esc(e.first).c_str(), op);
		for (auto& e : tabs[k].big) if (memcmp(e.first, e.second.data(), e.second.size()) || e.first[e.second.size()]) VIOL("permanence", "long text of %zu changed", e.second.size());
	}
	COUNT("verify");
}
// pairs of texts with the same CRC-32, found by meet in the middle once
static std::vector<std::pair<std::string, std::string>> coll;
static void find_collisions() {
	std::unordered_map<u32, u32> seen; VpRng g; g.s = 99;
	for (u32 i = 0; i < 400000 && coll.size() < 12; i++) { char b[16]; int n = snprintf(b, sizeof b, "n%llx", (unsigned long long)(g.next() & 0xFFFFFFFFFF)); u32 h = crc32(b, n); auto it = seen.find(h); 
		if (it != seen.end()) { VpRng q; q.s = 99; std::string o; for (u32 k = 0; k <= it->second; k++) { char c[16]; snprintf(c, sizeof c, "n%llx", (unsigned long long)(q.next() & 0xFFFFFFFFFF)); if (k == it->second) o = c; } if (o != b) coll.push_back({ o, b }); }
		else seen[h] = i; }
}
static std::string text(std::vector<std::string>& ever) {
	static const char* words[] = { "", "int", "a", "ab", "abc", " ", "\n", "operator", "x1", "x2", "Global Code", "public:\n", "const" };
	switch (R.below(10)) {
		case 0: case 1: if (!ever.empty()) return ever[R.below(ever.size())]; return "first";
		case 2: return words[R.below(13)];
		case 3: { std::string s = ever.empty() ? "base" : ever[R.below(ever.size())]; if (s.size() > 300) s.resize(300); if (R.chance(50)) s += (char)R.below(256); else if (!s.empty()) s.resize(R.below(s.size() + 1)); return s; }
		case 4: { std::string s = ever.empty() ? "base" : ever[R.below(ever.size())]; if (!s.empty()) s[R.below(s.size())] ^= 1 << R.below(8); return s; }
		case 5: { std::string s(R.below(40), 0); for (auto& c : s) c = (char)R.below(256); return s; }
		case 6: { if (coll.empty()) find_collisions(); auto& p = coll[R.below(coll.size())]; return R.chance(50) ? p.first : p.second; }
		case 7: return std::string(1 + R.below(3), (char)('a' + R.below(3)));
		case 8: { if (!R.chance(15)) return vp_fmt("k%u", (unsigned)R.below(5000)); size_t L = maxlen[cur]; size_t n = R.pick<size_t>({ L, L - 1, L + 1, L - 17, L / 2, 900, 1000, 1024, 1980, 2000, 2100, 4096, L + 300 }); if (n > 200000) n = R.pick<size_t>({ 1000, 5000, 70000 }); std::string s(n, 'L'); for (int i = 0; i < 6; i++) s[R.below(n)] = (char)R.below(256); return s; }
		default: return vp_fmt("name_%llu", (unsigned long long)R.below(20000));
	}
}
static void vp_round_fn(long r) {
	tabs[0] = Tab(); tabs[1] = Tab(); for (char* p : live) ::free(p); live.clear(); cur = 0;
	context_counter = 0; _ctx = nullptr;
	bool own = R.chance(70); bool two = R.chance(25); int n = r % 25 == 0 ? 20000 : (int)R.pick<int>({ 40, 200, 800 });
	for (int k = 0; k < (two ? 2 : 1); k++) {
		ctxs[k] = Context{}; Context& c = ctxs[k];
		if (own) c.Allocator_DyanmicContainers = c.Allocator_Pool = c.Allocator_StrCache = c.Allocator_Temp = { mem_proc, 0 };
		c.CodePool_NumBlocks = 64; c.InitSize_LexerTokens = 16; c.InitSize_StringArenasArray = R.pick<u32>({ 0, 1, 2 }); c.SizePer_StringArena = R.pick<u32>({ 0, 128, 1000, 2000, 2048, 65536 }); c.Max_StrCacheLength = R.pick<u32>({ 0, 50, 1000, 4000 }); if (!own) c.InitSize_Fallback_Allocator_Bucket_Size = R.pick<u32>({ 0, 100000, 1 << 20 });
		HIST("context %d: arena %u, limit %u, own allocators %d", k, (unsigned)c.SizePer_StringArena, (unsigned)c.Max_StrCacheLength, own);
		init(&c); maxlen[k] = c.Max_StrCacheLength; cur = k;
	}
	std::vector<std::string> ever;
	for (int i = 0; i < n; i++) {
		if (two && R.chance(10)) { cur = !cur; set_context(&ctxs[cur]); HIST("switch %d", cur); }
		std::string s = text(ever); if (i < 1500) HIST("%s", esc(s).c_str()); intern(s); if (ever.size() < 5000) ever.push_back(s);
		if (R.chance(2)) { make_code(); Code c = untyped_str({ "some text", 9 }); if (std::string(c->Content.Ptr, c->Content.Len) != "some text") VIOL("intern", "untyped text"); }
		if (n < 1000 ? R.chance(3) : i % 4000 == 0) verify("later");
	}
	verify("end"); COUNT(vp_fmt("string arenas %s", array_num(ctxs[0].StringArenas) > 1 ? "grown" : "one").c_str());
	if (two) { set_context(&ctxs[1]); deinit(&ctxs[1]); tabs[1] = Tab(); verify("after the other context ended"); set_context(&ctxs[0]); }
	deinit(&ctxs[0]);
}
