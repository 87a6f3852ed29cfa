// P23: memory and hash primitives against their definitions, on exact-size blocks at every alignment.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
// [guard page-ish margin handled by ASan: block ends exactly at end of a heap block, starts at any alignment]
static char* blk(size_t n, size_t off, char** raw) { char* r = (char*)::malloc(off + n ? off + n : 1); *raw = r; memset(r, 0xEE, off); return r + off; }
static size_t size() { switch (R.below(4)) { case 0: return R.below(70); case 1: return R.below(20); case 2: return R.below(300); default: return R.pick<size_t>({ 0, 1, 7, 8, 9, 15, 16, 24, 25, 27, 28, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000, 4096, 4099 }); } }
static std::string bytes(size_t n) { std::string s(n, 0); int k = (int)R.below(3); for (auto& c : s) c = (char)(k == 0 ? R.below(256) : k == 1 ? R.below(3) : "\x7f\x80\x81\x00\xff\x01"[R.below(6)]); return s; }
static std::string hx(std::string const& s) { return vp_esc(s, 60); }
static void r_set() {
	size_t n = size(), off = R.below(17); u8 v = (u8)R.pick<int>({ 0, 1, 0x7f, 0x80, 0xff, (int)R.below(256) }); char *raw, *p = blk(n, off, &raw); std::string b = bytes(n); memcpy(p, b.data(), n);
	HIST("set %zu bytes at +%zu to %u", n, off, v); bool z = v == 0 && R.chance(50);
	if (z) zero_size(p, n); else { void* r = mem_set(p, v, n); if (r != p) VIOL("mem_set: result", "not the destination"); }
	for (size_t i = 0; i < n; i++) if ((u8)p[i] != v) VIOL(z ? "zero_size" : "mem_set", "byte %zu of %zu (offset %zu) is %02x", i, n, off, (u8)p[i]);
	for (size_t i = 0; i < off; i++) if ((u8)raw[i] != 0xEE) VIOL(z ? "zero_size: margin" : "mem_set: margin", "wrote before the block");
	::free(raw); COUNT(z ? "zero_size" : "mem_set");
}
static void r_copy() {
	size_t n = size(), o1 = R.below(17), o2 = R.below(17); char *r1, *r2, *d = blk(n, o1, &r1), *s = blk(n, o2, &r2); std::string b = bytes(n); memcpy(s, b.data(), n); bool mv = R.chance(50); HIST("%s %zu bytes +%zu <- +%zu", mv ? "move" : "copy", n, o1, o2);
	void* r = mv ? mem_move(d, s, n) : mem_copy(d, s, n); const char* k = mv ? "mem_move" : "mem_copy";
	if (r != d) VIOL(k, "result is not the destination"); if (n && memcmp(d, b.data(), n)) VIOL(k, "bytes differ"); if (n && memcmp(s, b.data(), n)) VIOL(k, "source changed");
	for (size_t i = 0; i < o1; i++) if ((u8)r1[i] != 0xEE) VIOL(k, "wrote before the block"); ::free(r1); ::free(r2); COUNT(k);
}
static void r_overlap() {
	size_t tot = size() + 2, off = R.below(17); char* raw; char* p = blk(tot, off, &raw); std::string b = bytes(tot); memcpy(p, b.data(), tot); size_t from = R.below(tot), to = R.chance(20) ? from : R.below(tot); if (R.chance(40)) { size_t d = 8 * R.below(1 + (tot - 1 - from) / 8); to = from + d; if (R.chance(50)) std::swap(from, to); }
	size_t n = R.below(tot - std::max(from, to) + 1); if (R.chance(40)) n = tot - std::max(from, to); HIST("move %zu bytes inside %zu: %zu -> %zu (+%zu)", n, tot, from, to, off);
	std::string want = b; if (n) memmove(&want[to], &want[from], n); void* r = mem_move(p + to, p + from, n);
	if (r != p + to) VIOL("mem_move: result", "not the destination"); if (memcmp(p, want.data(), tot)) { size_t i = 0; while (p[i] == want[i]) i++; VIOL("mem_move: overlap", "byte %zu differs moving %zu bytes from %zu to %zu", i, n, from, to); }
	::free(raw); COUNT(from == to ? "move onto itself" : to < from ? (from - to < n ? "overlap down" : "apart down") : (to - from < n ? "overlap up" : "apart up"));
}
static void r_find() {
	size_t n = size(), off = R.below(17); char* raw; char* p = blk(n, off, &raw); u8 c = (u8)R.pick<int>({ 0, 1, 0x7f, 0x80, 0xff, (int)R.below(256) });
	// bytes near the sought one (zero-byte tricks confuse c and c+1), then possibly the byte itself
	for (size_t i = 0; i < n; i++) { u8 v = (u8)R.pick<int>({ c + 1, c - 1, c ^ 0x80, c + 0x80, (int)R.below(256), 0, 255 }); if (v == c) v = c + 1; p[i] = (char)v; }
	int hits = (int)R.below(3); if (n) for (int i = 0; i < hits; i++) p[R.below(n)] = (char)c; HIST("find %02x in %zu bytes at +%zu: %s", c, n, off, hx(std::string(p, n)).c_str());
	// the rest of the heap block is the block's own end, so reading further is caught
	const void* g = mem_find(p, c, n); const void* w = n ? memchr(p, c, n) : nullptr; if (g != w) VIOL("mem_find", "%02x in %zu bytes: found at %td, expected %td", c, n, g ? (char*)g - p : -1, w ? (char*)w - p : -1);
	::free(raw); COUNT(w ? "find: present" : "find: absent");
}
static void r_hash() {
	size_t n = size(), off = R.below(17); char* raw; char* p = blk(n, off, &raw); std::string b = bytes(n); memcpy(p, b.data(), n); HIST("hash of %s", hx(b).c_str());
	u32 c = ~0u; for (unsigned char x : b) { c ^= x; for (int i = 0; i < 8; i++) c = (c >> 1) ^ (c & 1 ? 0xEDB88320u : 0); } c = ~c;
	u64 d = 0; for (unsigned char x : b) { d ^= x; for (int i = 0; i < 8; i++) d = (d >> 1) ^ (d & 1 ? 0x95AC9329AC4BC9B5ull : 0); }
	if (crc32(p, n) != c) VIOL("crc32", "%08x for %zu bytes, expected %08x", crc32(p, n), n, c); if (crc64(p, n) != d) VIOL("crc64", "%016llx for %zu bytes, expected %016llx", (unsigned long long)crc64(p, n), n, (unsigned long long)d);
	::free(raw); COUNT("hash");
}
static void r_arith() {
	int sh = (int)R.below(13); ssize al = (ssize)1 << sh; s64 v = (s64)R.below(1 << 20) * R.pick<s64>({ 1, 1, 1ll << 20, 1ll << 30 }); if (R.chance(30)) v = v / al * al; HIST("align %lld to %zd", (long long)v, al);
	s64 w = (v + al - 1) / al * al; if (align_forward_s64(v, al) != w) VIOL("align_forward_s64", "%lld to %zd gives %lld", (long long)v, al, (long long)align_forward_s64(v, al));
	if (align_forward_by_value(v, al) != w) VIOL("align_forward_by_value", "%lld to %zd gives %lld", (long long)v, al, (long long)align_forward_by_value(v, al));
	ssize any = 1 + (ssize)R.below(100); s64 wa = (v + any - 1) / any * any; if (align_forward_s64(v, any) != wa) VIOL("align_forward_s64", "%lld to %zd gives %lld", (long long)v, any, (long long)align_forward_s64(v, any));
	if ((s64)(uintptr_t)align_forward((void*)(uintptr_t)v, al) != w) VIOL("align_forward", "%llx to %zd", (long long)v, al);
	if (R.chance(20)) { ssize bad = R.pick<ssize>({ 0, -1, -8, 3, 6, 12, 100 }); if (!TRAPS((void)align_forward((void*)(uintptr_t)v, bad))) VIOL("align_forward: bad alignment", "%zd accepted", bad); COUNT("bad alignment refused"); }
	ssize q = R.chance(50) ? (ssize)1 << R.below(63) : (ssize)R.next(); if (R.chance(30)) q = (ssize)R.below(40) - 8; if (R.chance(20)) q = ((ssize)1 << R.below(62)) + R.pick<ssize>({ -1, 1 }); bool p2 = q > 0 && __builtin_popcountll((u64)q) == 1; if (!!is_power_of_two(q) != p2) VIOL("is_power_of_two", "%zd gives %d", q, (int)is_power_of_two(q));
	char buf[256]; ssize a = R.below(257), b = R.below(257); char* A = buf + a; if (pointer_add(buf, a) != A || pointer_add_const(buf, a) != A || pointer_add(A, b - a) != buf + b) VIOL("pointer_add", "%zd then %zd", a, b - a); if (pointer_diff(A, buf + b) != b - a) VIOL("pointer_diff", "%zd to %zd gives %zd", a, b, (ssize)pointer_diff(A, buf + b));
	struct Odd { char c[11]; } x, y, x0, y0; for (int i = 0; i < 11; i++) x.c[i] = (char)R.below(256), y.c[i] = (char)R.below(256); x0 = x; y0 = y; gen::swap(x, y); if (memcmp(&x, &y0, 11) || memcmp(&y, &x0, 11)) VIOL("swap", "values lost"); gen::swap(x, x); if (memcmp(&x, &y0, 11)) VIOL("swap", "onto itself");
	struct Z { char a; long b; char c[5]; } z[4]; memset(z, 0xAB, sizeof z); int k = (int)R.below(4); zero_item(&z[k]); for (int i = 0; i < 4; i++) for (size_t j = 0; j < sizeof(Z); j++) if (((u8*)&z[i])[j] != (i == k ? 0 : 0xAB)) VIOL("zero_item", "item %d of 4", i);
	memset(z, 0xAB, sizeof z); int f = (int)R.below(4), m = (int)R.below(5 - f); if (m) { zero_array((z + f), m); for (int i = 0; i < 4; i++) for (size_t j = 0; j < sizeof(Z); j++) if (((u8*)&z[i])[j] != (i >= f && i < f + m ? 0 : 0xAB)) VIOL("zero_array", "item %d of 4", i); }
	COUNT("arithmetic");
}
static void vp_round_fn(long r) { switch (r % 8) { case 0: case 1: r_set(); break; case 2: r_copy(); break; case 3: case 4: r_overlap(); break; case 5: r_find(); break; case 6: r_hash(); break; default: r_arith(); } }
