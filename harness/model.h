#pragma once
// In-process model comparison: deterministic rounds of random operations, a plain model as the oracle, a history per round.
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <stdarg.h>
#include <sanitizer/common_interface_defs.h>
struct VpRng {
	uint64_t s; long n = 0, flip = -1;   // flip: the draw that is made to come out differently
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); if (n++ == flip) z += 0x123456789ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
	bool chance(int pct) { return below(100) < (uint64_t)pct; }
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};
static VpRng R;
static std::string vp_hist; static long vp_round; static std::map<std::string, long> vp_counts; static std::unordered_set<uint64_t> vp_seen; static std::set<std::string> vp_samples;
static FILE* vp_out = stdout; static jmp_buf vp_round_jb; static int vp_nviol;
static std::string vp_fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
#define HIST(...) do { if (vp_hist.size() < 60000) { vp_hist += vp_fmt(__VA_ARGS__); vp_hist += '\n'; } } while (0)
static std::string vp_esc(std::string const& s, size_t lim = 3000) {
	std::string r; for (unsigned char c : s) { if (r.size() > lim) { r += "..."; break; } if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c > 126) r += vp_fmt("\\x%02x", c); else r += (char)c; } return r;
}
static std::string vp_tail() { return vp_hist.size() > 1500 ? "..." + vp_hist.substr(vp_hist.size() - 1500) : vp_hist; }
#define VIOL(key, ...) vp_viol(key, vp_fmt(__VA_ARGS__))
[[noreturn]] static void vp_viol(std::string const& key, std::string const& msg) {
	if (vp_nviol++ < 200) { fprintf(vp_out, "V\t%s\t%s\tround %ld: %s\n", vp_esc(key).c_str(), vp_esc(msg).c_str(), vp_round, vp_esc(vp_tail()).c_str()); fflush(vp_out); }
	vp_jb_on = 0; longjmp(vp_round_jb, 1);
}
#define COUNT(name) (vp_counts[name]++)
static void DISTINCT(std::string const& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } if (vp_seen.size() < 200000) vp_seen.insert(h); }
static void vp_death() { fprintf(stderr, "\n@@round %ld\n%s\n", vp_round, vp_tail().c_str()); fflush(stderr); }
static void vp_round_fn(long r);
static bool vp_trapped;            // last EXPECT_TRAP outcome
/* Runs stmt; true when it ended in a diagnosed stop. */
struct VpKeepJb { jmp_buf b; int on; VpKeepJb() { memcpy(&b, &vp_jb, sizeof b); on = vp_jb_on; } ~VpKeepJb() { memcpy(&vp_jb, &b, sizeof b); vp_jb_on = on; } };   // what was armed before stays armed
#define TRAPS(stmt) ([&]() -> bool { VpKeepJb vp_keep; vp_jb_on = 1; if (setjmp(vp_jb)) return true; stmt; return false; }())
int main(int argc, char** argv) {
	uint64_t seed = strtoull(argv[1], 0, 10); long start = atol(argv[2]), n = atol(argv[3]);
	__sanitizer_set_death_callback(vp_death);
#ifdef VP_QUIET   // the library's own messages go to standard output: results take another way
	fflush(stdout); vp_out = fdopen(dup(1), "w"); { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul); }
#endif
	FILE* prog = fopen(argv[4], "wb");
	for (long r = start; r < start + n; r++) {
		vp_round = r; R.s = seed * 0x9E3779B97F4A7C15ull + (uint64_t)r * 0xD1B54A32D192ED03ull; R.next(); vp_hist.clear();
		rewind(prog); fprintf(prog, "%ld\n", r); fflush(prog);
		if (setjmp(vp_round_jb) == 0) {
			vp_jb_on = 1;
			if (setjmp(vp_jb)) { vp_jb_on = 0; vp_viol("stop", vp_fmt("diagnosed stop at %s:%d where none is due", vp_trap_file, vp_trap_line)); }
			vp_round_fn(r);
			vp_jb_on = 0;
		}
		DISTINCT(vp_hist);
		if (r - start < 2) { vp_samples.insert(vp_hist.substr(0, 400)); }
	}
	for (auto& c : vp_counts) fprintf(vp_out, "C\t%s\t%ld\n", vp_esc(c.first).c_str(), c.second);
	for (auto& s : vp_samples) fprintf(vp_out, "S\t%s\n", vp_esc(s).c_str());
	for (auto h : vp_seen) fprintf(vp_out, "D\t%llx\n", (unsigned long long)h);
	fprintf(vp_out, "E\n"); fflush(vp_out); _exit(0);
}
