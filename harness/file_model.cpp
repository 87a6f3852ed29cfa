// P15: files, memory streams, contents, builders and the scanner against the bytes they are to hold; faults are injected at the system calls.
#define VP_QUIET
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
typedef std::string S;
// ---- system calls of the library
extern "C" {
ssize_t __real_write(int, const void*, size_t); ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __real_read(int, void*, size_t); ssize_t __real_pread(int, void*, size_t, off_t);
int __real_open(const char*, int, ...); int __real_close(int);
}
static std::set<int> live; static bool faults_on; static int fault_at, fault_kind, fault_seen; static bool fault_hit; static S logged; static int stale_hits;
enum { F_SHORT, F_EINTR, F_ENOSPC, F_EIO };
static int fault() { if (!faults_on) return -1; if (fault_seen++ == fault_at) { fault_hit = true; return fault_kind; } if (fault_hit && fault_kind >= F_ENOSPC) return fault_kind; return -1; }
static ssize_t ferr(int k) { errno = k == F_EINTR ? EINTR : k == F_ENOSPC ? ENOSPC : EIO; return -1; }
extern "C" {
ssize_t __wrap_write(int fd, const void* b, size_t n) {
	if (fd == 1 || fd == 2) { if (logged.size() < 100000) logged.append((const char*)b, n); return n; }
	if (!live.count(fd)) return __real_write(fd, b, n);
	int k = fault(); if (k == F_SHORT) return n > 1 ? __real_write(fd, b, n / 2) : __real_write(fd, b, n); if (k >= 0) return ferr(k);
	return __real_write(fd, b, n);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { int k = live.count(fd) ? fault() : -1; if (k == F_SHORT && n > 1) return __real_pwrite(fd, b, n / 2, o); if (k > F_SHORT) return ferr(k); return __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { int k = live.count(fd) ? fault() : -1; if (k == F_SHORT && n > 1) return __real_pread(fd, b, n / 2, o); if (k > F_SHORT) return ferr(k == F_ENOSPC ? F_EIO : k); return __real_pread(fd, b, n, o); }
ssize_t __wrap_read(int fd, void* b, size_t n) { int k = live.count(fd) ? fault() : -1; if (k == F_SHORT && n > 1) return __real_read(fd, b, n / 2); if (k > F_SHORT) return ferr(k == F_ENOSPC ? F_EIO : k); return __real_read(fd, b, n); }
int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); int fd = __real_open(p, fl, m); if (fd >= 0) live.insert(fd); return fd; }
int __wrap_close(int fd) { live.erase(fd); return __real_close(fd); }
}
static void plan() { faults_on = R.chance(25); fault_at = (int)R.below(3); fault_kind = (int)R.below(4); fault_seen = 0; fault_hit = false; }
static const char* fault_name() { static const char* n[] = { "short", "EINTR", "ENOSPC", "EIO" }; return fault_hit ? n[fault_kind] : "none"; }
// ---- what is on disk
static std::map<S, S> disk; static std::set<S> maybe;   // maybe: a failed operation may have written part of it
static S slurp(S const& p) { int fd = __real_open(p.c_str(), O_RDONLY); if (fd < 0) return "<missing>"; S r; char b[4096]; ssize_t n; while ((n = __real_read(fd, b, sizeof b)) > 0) r.append(b, n); __real_close(fd); return r; }
static void put(S const& p, S const& t) { int fd = __real_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return; size_t o = 0; while (o < t.size()) { ssize_t n = __real_write(fd, t.data() + o, t.size() - o); if (n <= 0) break; o += n; } __real_close(fd); disk[p] = t; }
static const char* PATHS[] = { "f0", "f1", "d/f2", "a long name with spaces, %s and \xc3\xa9.hpp" };
static void check_disk(const char* op) {
	for (auto p : PATHS) {
		S now = slurp(p); auto i = disk.find(p); S want = i == disk.end() ? "<missing>" : i->second;
		if (now != want) { size_t k = 0; while (k < now.size() && k < want.size() && now[k] == want[k]) k++; VIOL("bytes on disk", "%s holds %zu bytes, %zu were due; they differ from %zu on (after %s, fault %s)", p, now.size(), want.size(), k, op, fault_name()); }
	}
}
static S bytes(size_t n) { S r(n, 0); int k = (int)R.below(3); for (auto& c : r) c = k == 0 ? (char)R.next() : k == 1 ? (char)('a' + R.below(26)) : (char)"x\n\r\0"[R.below(4)]; return r; }
static size_t some_size() { switch (R.below(8)) { case 0: return 0; case 1: return 1; case 2: case 3: return R.below(16); case 4: case 5: return R.below(200); case 6: return R.below(3000); default: return 4094 + R.below(5); } }
struct Buf { char* p; size_t n; Buf(S const& s) { n = s.size(); p = (char*)::malloc(n); memcpy(p, s.data(), n); } Buf(size_t k) { n = k; p = (char*)::malloc(n); memset(p, 0x5A, n); } ~Buf() { ::free(p); } };
// ---- handles
struct H { FileInfo f; bool open = false, closed = false; S path; int mode = 0; s64 pos = 0; bool pos_known = true; bool mem = false; S data; int flags = 0; char* user = nullptr; S user_orig; };
static H hs[4];
static s64 alloc_fail = -1; static std::map<void*, size_t> blocks;
static void* alloc_proc(void*, AllocType t, ssize size, ssize align, void* old, ssize old_size, u64) {
	switch (t) {
	case EAllocation_ALLOC: if (alloc_fail == 0) return nullptr; if (alloc_fail > 0) alloc_fail--; { void* p = nullptr; if (posix_memalign(&p, 16, size ? size : 1)) return nullptr; memset(p, 0xCD, size); blocks[p] = size; return p; }
	case EAllocation_FREE: if (old) { if (!blocks.erase(old)) VIOL("allocator", "freed something that was not allocated"); ::free(old); } return nullptr;
	case EAllocation_RESIZE: if (alloc_fail == 0) return nullptr; { void* p = nullptr; if (posix_memalign(&p, 16, size ? size : 1)) return nullptr; blocks[p] = size; if (old) { memcpy(p, old, (size_t)std::min(size, old_size)); blocks.erase(old); ::free(old); } return p; }
	default: return nullptr; }
}
static AllocatorInfo A() { AllocatorInfo a = { alloc_proc, nullptr }; return a; }
static S& content(H& h) { return h.mem ? h.data : disk[h.path]; }
static bool can_read(H& h) { return h.mem || (h.mode & EFileMode_READ) || (h.mode & EFileMode_RW); }
static bool can_write(H& h) { return h.mem ? (h.flags & (EFileStream_WRITABLE | EFileStream_CLONE_WRITABLE)) != 0 : (h.mode & (EFileMode_WRITE | EFileMode_APPEND | EFileMode_RW)) != 0; }
static bool fixed(H& h) { return h.mem && !(h.flags & EFileStream_CLONE_WRITABLE); }
static void check_mem(H& h, const char* op) {
	if (!h.mem) return; ssize n = -1; u8* b = file_stream_buf(&h.f, &n);
	if (n != (ssize)h.data.size()) VIOL("stream size", "the stream has %ld bytes, %zu were due (%s)", (long)n, h.data.size(), op);
	if (n && memcmp(b, h.data.data(), n)) VIOL("stream bytes", "the bytes of the stream are not those written (%s)", op);
	if (h.user && (h.flags & EFileStream_CLONE_WRITABLE) && memcmp(h.user, h.user_orig.data(), h.user_orig.size())) VIOL("stream bytes", "writing to a clone changed the original (%s)", op);
}
static S apply(S c, s64 off, S const& d) { if (d.empty()) return c; if ((s64)c.size() < off) c.resize(off, 0); if (c.size() < off + d.size()) c.resize(off + d.size(), 0); memcpy(&c[off], d.data(), d.size()); return c; }
// after a write of d at off that ended with ok / written (written -1 unknown)
static void wrote(H& h, s64 off, S const& d, bool ok, ssize written, const char* op) {
	S old = content(h); bool app = !h.mem && (h.mode & EFileMode_APPEND); s64 at = app ? (s64)old.size() : off;
	bool faulted = fault_hit || (h.mem && alloc_fail == 0);
	if (!can_write(h)) { if (ok && (d.size() || written > 0)) VIOL("refused write", "%s on a file that is not writable succeeded", op); return; }
	size_t fits = d.size(); if (fixed(h)) fits = at >= (s64)old.size() ? 0 : std::min(d.size(), old.size() - (size_t)at);
	if (written >= 0 ? (ok && !faulted) : ok) {
		if (written < 0) { if (fits != d.size()) VIOL("write reported", "%s of %zu bytes at %lld of a full buffer of %zu was reported as done", op, d.size(), (long long)off, old.size()); }
		else if ((size_t)written != fits) VIOL("write count", "%s of %zu bytes reports %ld, %zu were due", op, d.size(), (long)written, fits);
		content(h) = apply(old, at, d.substr(0, fits)); COUNT(h.mem ? "stream writes" : "file writes"); return;
	}
	if (!faulted && fits == d.size() && !ok) VIOL("write failed", "%s of %zu bytes at %lld failed with nothing wrong", op, d.size(), (long long)off);
	// some first part of it may be there; no more, nothing else
	S now; if (h.mem) { ssize n; u8* b = file_stream_buf(&h.f, &n); now.assign((char*)b, n); } else now = slurp(h.path);
	for (size_t k = 0; k <= fits; k++) { if (written >= 0 && k != (size_t)written && faulted) continue; if (apply(old, at, d.substr(0, k)) == now) { content(h) = now; COUNT("failed writes judged"); return; } }
	VIOL("partial write", "after a failed %s (reported %d/%ld, fault %s) the bytes are neither the old ones nor a first part of the new ones", op, ok, (long)written, fault_name());
}
static void resync(H& h, s64 a, s64 b, const char* op) {
	s64 t = file_tell(&h.f); if (t != a && t != b) VIOL("position", "%s: the position is %lld, %lld or %lld were due", op, (long long)t, (long long)a, (long long)b); h.pos = t;
}
static void judge_read(H& h, s64 off, size_t n, bool ok, ssize got, Buf& b, const char* op) {
	S const& c = content(h); size_t due = off >= (s64)c.size() ? 0 : std::min(n, c.size() - (size_t)off);
	if (!can_read(h)) { if (ok && n) VIOL("refused read", "%s of a file that is not readable succeeded", op); return; }
	if (!ok) { if (!fault_hit) VIOL("read failed", "%s of %zu bytes at %lld of %zu failed with nothing wrong", op, n, (long long)off, c.size()); COUNT("failed reads"); return; }
	if (got >= 0 && (size_t)got != due) VIOL("read count", "%s of %zu bytes at %lld of %zu reports %ld, %zu were due (fault %s)", op, n, (long long)off, c.size(), (long)got, due, fault_name());
	if (due && memcmp(b.p, c.data() + off, due)) VIOL("bytes read", "%s of %zu bytes at %lld: not the bytes of the file", op, n, (long long)off);
	for (size_t i = due; i < n; i++) if ((unsigned char)b.p[i] != 0x5A) VIOL("bytes read", "%s wrote past the bytes it read", op);
	COUNT(h.mem ? "stream reads" : "file reads");
}
static void step(H& h) {
	const char* op; plan(); if (h.mem) { faults_on = false; alloc_fail = R.chance(10) ? 0 : -1; }
	switch (R.below(12)) {
	case 0: case 1: { S d = bytes(some_size()); Buf b(d); s64 p = file_tell(&h.f); HIST("%s write %zu at %lld", h.path.c_str(), d.size(), (long long)p); bool ok = file_write(&h.f, b.p, d.size()); size_t fits = fixed(h) ? (p >= (s64)h.data.size() ? 0 : std::min(d.size(), h.data.size() - (size_t)p)) : d.size();
		wrote(h, p, d, ok, -1, "write"); if (ok) { if (!(!h.mem && (h.mode & EFileMode_APPEND))) resync(h, p + d.size(), p + d.size(), "write"); else h.pos = file_tell(&h.f); } else h.pos = file_tell(&h.f); (void)fits; op = "write"; break; }
	case 2: { S d = bytes(some_size()); Buf b(d); s64 off = R.chance(20) ? h.pos : (s64)R.below(content(h).size() + (R.chance(30) ? 50 : 1)); HIST("%s write_at %zu at %lld", h.path.c_str(), d.size(), (long long)off); bool ok = file_write_at(&h.f, b.p, d.size(), off); wrote(h, off, d, ok, -1, "write_at"); h.pos = file_tell(&h.f); op = "write_at"; break; }
	case 3: { S d = bytes(some_size()); Buf b(d); s64 off = R.chance(20) ? h.pos : (s64)R.below(content(h).size() + (R.chance(30) ? 50 : 1)); ssize w = -7; HIST("%s write_at_check %zu at %lld", h.path.c_str(), d.size(), (long long)off); bool ok = file_write_at_check(&h.f, b.p, d.size(), off, &w); if (w == -7) { if (ok) VIOL("write count", "no count was reported"); w = 0; } wrote(h, off, d, ok, w, "write_at_check"); h.pos = file_tell(&h.f); op = "write_at_check"; break; }
	case 4: case 5: { size_t n = some_size(); Buf b(n); s64 p = file_tell(&h.f); HIST("%s read %zu at %lld", h.path.c_str(), n, (long long)p); bool ok = file_read(&h.f, b.p, n); size_t due = p >= (s64)content(h).size() ? 0 : std::min(n, content(h).size() - (size_t)p); judge_read(h, p, n, ok, -1, b, "read"); if (ok && can_read(h)) resync(h, p + due, p + due, "read"); else h.pos = file_tell(&h.f); op = "read"; break; }
	case 6: { size_t n = some_size(); Buf b(n); s64 off = (s64)R.below(content(h).size() + 20); HIST("%s read_at %zu at %lld", h.path.c_str(), n, (long long)off); bool ok = file_read_at(&h.f, b.p, n, off); judge_read(h, off, n, ok, -1, b, "read_at"); h.pos = file_tell(&h.f); op = "read_at"; break; }
	case 7: { size_t n = some_size(); Buf b(n); s64 off = (s64)R.below(content(h).size() + 20); ssize g = -7; HIST("%s read_at_check %zu at %lld", h.path.c_str(), n, (long long)off); bool ok = file_read_at_check(&h.f, b.p, n, off, &g); if (g == -7) { if (ok) VIOL("read count", "no count was reported"); g = 0; } judge_read(h, off, n, ok, ok ? g : -1, b, "read_at_check"); h.pos = file_tell(&h.f); op = "read_at_check"; break; }
	case 8: { s64 to = (s64)R.below(content(h).size() + (R.chance(20) ? 100 : 1)); HIST("%s seek %lld", h.path.c_str(), (long long)to); s64 r = file_seek(&h.f, to); s64 due = h.mem ? std::min(to, (s64)h.data.size()) : to; if (r != due) VIOL("position", "seek to %lld reports %lld", (long long)to, (long long)r); resync(h, due, due, "seek"); op = "seek"; break; }
	case 9: { HIST("%s seek to end", h.path.c_str()); s64 r = file_seek_to_end(&h.f); if (r != (s64)content(h).size()) VIOL("position", "the end is reported at %lld of %zu", (long long)r, content(h).size()); resync(h, r, r, "seek to end"); op = "seek to end"; break; }
	case 10: { s64 p = file_tell(&h.f); s64 n = file_size(&h.f); HIST("%s size %lld", h.path.c_str(), (long long)n); if (n != (s64)content(h).size()) VIOL("size", "size is reported as %lld of %zu", (long long)n, content(h).size()); resync(h, p, p, "size"); op = "size"; break; }
	default: { S d; int n = 1 + (int)R.below(4); s64 p = file_tell(&h.f); for (int i = 0; i < n; i++) d += (char)('A' + R.below(26)); if (R.chance(15)) d += S(200 + R.below(9000), 'q'); HIST("%s printf %zu", h.path.c_str(), d.size() + 8); S want = d + "|-42|%"; ssize r = c_str_fmt_file(&h.f, "%s|%d|%%", d.c_str(), -42); wrote(h, p, want, r >= 0, -1, "printing to a file"); h.pos = file_tell(&h.f); if (r > 0 && !faults_on && !fixed(h) && !(!h.mem && h.mode & EFileMode_APPEND)) resync(h, p + want.size(), p + want.size(), "printing"); op = "printf"; }
	}
	faults_on = false; alloc_fail = -1; check_mem(h, op); check_disk(op);
}
static void do_open(H& h) {
	h = H(); static const int modes[] = { EFileMode_READ, EFileMode_WRITE, EFileMode_APPEND, EFileMode_READ | EFileMode_RW, EFileMode_WRITE | EFileMode_RW, EFileMode_APPEND | EFileMode_RW };
	switch (R.below(10)) {
	case 0: { static const char* bad[] = { "missing", "d/missing/x", "f0/x", "d", ".", "", "loop" }; S p = R.chance(15) ? S(400, 'n') : S(bad[R.below(7)]); int m = modes[R.below(6)]; if (p == "missing" && m != EFileMode_READ && m != (EFileMode_READ | EFileMode_RW)) m = EFileMode_READ;
		memset(&h.f, 0xA5, sizeof h.f); HIST("open %s mode %d (no such file)", p.substr(0, 30).c_str(), m); size_t l = live.size(); FileError e = R.chance(20) && m == EFileMode_READ ? file_open(&h.f, p.c_str()) : file_open_mode(&h.f, m, p.c_str());
		if (e == EFileError_NONE) VIOL("open reported", "opening %s with mode %d is reported as done", p.substr(0, 30).c_str(), m); if (live.size() != l) VIOL("descriptors", "a refused open left a descriptor"); COUNT("refused opens");
		h.path = p; h.closed = true; check_disk("refused open"); return; }
	case 1: { int m = (int)R.below(16); for (int x : modes) if (x == m) return; memset(&h.f, 0xA5, sizeof h.f); HIST("open f0 with mode %d", m); FileError e = EFileError_INVALID; bool t = TRAPS(e = file_open_mode(&h.f, m, "f0")); if (!t && e == EFileError_NONE) VIOL("open reported", "mode %d is taken", m); check_disk("open with a wrong mode"); COUNT("wrong modes"); return; }
	case 2: case 3: { h.mem = true; h.path = "stream"; int k = (int)R.below(4); alloc_fail = R.chance(10) ? (s64)R.below(2) : -1; bool ok; size_t before = blocks.size();
		if (k == 0) { h.flags = EFileStream_CLONE_WRITABLE; HIST("new stream"); ok = file_stream_new(&h.f, A()); }
		else { h.data = bytes(some_size()); h.user_orig = h.data; h.user = (char*)::malloc(h.data.size()); memcpy(h.user, h.data.data(), h.data.size()); h.flags = k == 1 ? 0 : k == 2 ? EFileStream_WRITABLE : EFileStream_CLONE_WRITABLE; HIST("stream over %zu bytes, flags %d", h.data.size(), h.flags); ok = file_stream_open(&h.f, A(), (u8*)h.user, h.data.size(), (FileStreamFlags)h.flags); }
		bool refused = alloc_fail == 0; alloc_fail = -1;
		if (!ok) { if (!refused) VIOL("open reported", "a stream could not be made"); if (blocks.size() != before) VIOL("descriptors", "a stream that could not be made keeps memory"); ::free(h.user); h = H(); COUNT("streams without memory"); return; }
		h.open = true; check_mem(h, "open"); if (file_tell(&h.f) != 0) VIOL("position", "a new stream is at %lld", (long long)file_tell(&h.f)); return; }
	default: {
		int m = modes[R.below(6)]; S p = PATHS[R.below(4)]; bool have = disk.count(p); for (auto& o : hs) if (&o != &h && o.open && o.path == p && (m & EFileMode_WRITE)) m = EFileMode_READ;
		memset(&h.f, 0xA5, sizeof h.f); HIST("open %s mode %d%s", p.c_str(), m, have ? "" : " (new)"); FileError e = file_open_mode(&h.f, m, p.c_str());
		if (!have && (m & EFileMode_READ)) { if (e == EFileError_NONE) VIOL("open reported", "a missing file was opened"); h.closed = true; h.path = p; check_disk("open"); return; }
		if (e != EFileError_NONE) VIOL("open failed", "%s could not be opened with mode %d: %d", p.c_str(), m, (int)e);
		h.open = true; h.path = p; h.mode = m; if (m & EFileMode_WRITE) disk[p] = ""; if (!have) disk[p] = "";
		if (S(file_name(&h.f)) != p) VIOL("name", "the file is called %s, not %s", file_name(&h.f), p.c_str());
		s64 due = m & EFileMode_APPEND ? (s64)disk[p].size() : 0; if (file_tell(&h.f) != due) VIOL("position", "a file opened with mode %d is at %lld, not %lld", m, (long long)file_tell(&h.f), (long long)due);
		check_disk("open"); COUNT("files opened"); }
	}
}
static void do_close(H& h) {
	HIST("close %s", h.path.c_str()); size_t l = live.size(), b = blocks.size(); FileError e = file_close(&h.f);
	if (e != EFileError_NONE) VIOL("close", "closing %s is reported as %d", h.path.c_str(), (int)e);
	if (h.mem) { if (blocks.size() >= b) VIOL("descriptors", "a closed stream keeps its memory"); if (h.user) { if (h.flags == 0 && memcmp(h.user, h.user_orig.data(), h.user_orig.size())) VIOL("stream bytes", "a read only buffer was changed"); if (h.flags == EFileStream_WRITABLE && memcmp(h.user, h.data.data(), h.data.size())) VIOL("stream bytes", "the buffer does not hold what was written"); ::free(h.user); } }
	else if (live.size() != l - 1) VIOL("descriptors", "closing %s closed %ld descriptors", h.path.c_str(), (long)(l - live.size()));
	h.open = false; h.closed = true; h.mode = 0; check_disk("close");
}
// a file that is not open any more
static void after_close(H& h) {
	HIST("use %s after it was closed", h.path.c_str()); Buf b(S("stale bytes")); size_t l = live.size();
	switch (R.below(4)) {
	case 0: if (file_write(&h.f, b.p, b.n)) VIOL("closed file", "writing to a closed file is reported as done"); break;
	case 1: if (file_write_at(&h.f, b.p, R.chance(20) ? 0 : b.n, 2)) VIOL("closed file", "writing to a closed file is reported as done"); break;
	case 2: { Buf r(8); if (file_read(&h.f, r.p, 8)) VIOL("closed file", "reading a closed file is reported as done"); break; }
	default: if (file_close(&h.f) == EFileError_NONE) VIOL("closed file", "closing a file twice is reported as done"); if (live.size() != l) VIOL("closed file", "closing a file twice closed another one"); }
	for (auto& o : hs) if (o.open) check_mem(o, "closed file"); check_disk("use after close"); COUNT("uses after close");
}
static void contents() {
	plan(); S p = R.chance(20) ? S(R.pick({ "missing", "d", "f0/x" })) : S(PATHS[R.below(4)]); bool zt = R.chance(50); bool have = disk.count(p); HIST("contents of %s", p.c_str()); size_t n0 = blocks.size(), l = live.size();
	if (R.chance(8)) alloc_fail = 0; bool refused = alloc_fail == 0;
	FileContents c = file_read_contents(A(), zt, p.c_str()); faults_on = false; alloc_fail = -1; S want = have ? disk[p] : "";
	if (live.size() != l) VIOL("descriptors", "reading contents left a descriptor");
	if (c.data == nullptr) { if (c.size != 0) VIOL("contents", "nothing was read but a size of %ld is reported", (long)c.size); if (want.size() && !fault_hit && !refused) VIOL("contents", "nothing was read from %s", p.c_str()); if (blocks.size() != n0) VIOL("contents", "contents that could not be read keep memory"); COUNT("contents refused"); return; }
	if (!have) VIOL("contents", "a file that can not be read has contents");
	if ((size_t)c.size != want.size() || memcmp(c.data, want.data(), want.size())) VIOL("contents", "the contents of %s are not its %zu bytes (%ld, fault %s)", p.c_str(), want.size(), (long)c.size, fault_name());
	if (zt && ((char*)c.data)[c.size]) VIOL("contents", "no terminator");
	if (c.allocator.Proc != alloc_proc) VIOL("contents", "not the allocator that was given"); allocator_free(c.allocator, c.data); COUNT("contents read");
}
// ---- builders and scanner
static S text_of(Code c) { StrBuilder s = code_to_strbuilder(c); return S(s, strbuilder_length(s)); }
static Code some_code() {
	static const char* src[] = { "int a;", "void f( int a, char b );", "struct S { int a; void g() { return; } };", "enum E : int { A, B = 3 };", "namespace n { int x; }", "#define M( a ) a + 1\n", "template< class T > T f( T a );", "using X = int;", "// a comment\nint b;\n" };
	switch (R.below(4)) { case 0: { S t = bytes(some_size()); for (auto& c : t) if (!c) c = '0'; if (t.empty()) t = "x"; return untyped_str(Str{ t.data(), (ssize)t.size() }); } case 1: return def_include(txt("some/file.hpp"), { true }); default: { const char* s = src[R.below(9)]; return parse_global_body(Str{ s, (ssize)strlen(s) }); } }
}
#ifdef GEN_DONT_USE_FATAL
#	define STOPS_AT_FAILURE false
#else
#	define STOPS_AT_FAILURE true
#endif
static S reports() { S r, line; for (char c : logged + "\n") if (c == '\n') { if (line.find("Generated") == S::npos && line.find("Parsed") == S::npos) r += line; line.clear(); } else line += c; return r; }
static void builders() {
	int n = 1 + (int)R.below(2); struct B { Builder b; S want, path; bool bad = false; }; std::vector<B> bs;
	for (int i = 0; i < n; i++) {
		B x; x.path = R.chance(15) ? S(R.pick({ "d/missing/x", "d", "f0/x", "" })) : S(PATHS[(i + R.below(2) * 2) % 4]); x.bad = x.path.empty() || x.path == "d" || x.path == "f0/x" || x.path == "d/missing/x"; logged.clear(); HIST("builder for %s", x.path.c_str()); size_t l = live.size();
		bool t = TRAPS(x.b = builder_open(x.path.c_str()));
		if (t) { if (!x.bad) VIOL("stop", "diagnosed stop opening %s", x.path.c_str()); COUNT("builders refused"); if (live.size() != l) VIOL("descriptors", "a refused builder left a descriptor"); continue; }
		if (x.bad && reports().empty()) VIOL("builder reported", "a builder for %s was opened without a word", x.path.c_str());
		if (!x.bad) disk[x.path] = ""; check_disk("builder open"); bs.push_back(x);
	}
	if (bs.empty()) return;
	for (int k = (int)R.below(12); k > 0; k--) {
		B& x = bs[R.below(bs.size())];
		switch (R.below(4)) {
		case 0: { s32 pad = (s32)R.below(5); HIST("pad %d", pad); if (R.chance(50)) builder_pad_lines(&x.b, pad); else x.b.pad_lines(pad); x.want += S(pad, '\n'); break; }
		case 1: { S s = bytes(some_size()); for (auto& c : s) if (!c) c = '0'; HIST("print_fmt %zu", s.size()); if (R.chance(50)) builder_print_fmt(&x.b, "<%s|%d|%%>", s.c_str(), -7); else x.b.print_fmt("<%s|%d|%%>", s.c_str(), -7); x.want += "<" + s + "|-7|%>"; break; }
		default: { Code c = some_code(); S w = text_of(c); HIST("print %zu bytes of kind %d", w.size(), (int)c->Type); if (R.chance(50)) builder_print(&x.b, c); else x.b.print(c); if (text_of(c) != w) VIOL("builder", "printing changed the code"); x.want += w; } }
		for (auto& y : bs) { if ((size_t)strbuilder_length(y.b.Buffer) != y.want.size() || memcmp(y.b.Buffer, y.want.data(), y.want.size())) VIOL("builder buffer", "the builder does not hold what was printed, in order"); }
		check_disk("builder print");
	}
	for (auto& x : bs) {
		plan(); logged.clear(); HIST("write %zu to %s, fault %s/%d", x.want.size(), x.path.c_str(), faults_on ? "yes" : "no", fault_kind); size_t l = live.size();
		bool t = TRAPS(builder_write(&x.b)); faults_on = false; bool rep = t || !reports().empty(); S now = slurp(x.path);
		if (x.bad) { if (!rep && x.want.size()) VIOL("builder reported", "a builder for %s wrote without a word", x.path.c_str()); }
		else if (now == x.want) { if (rep && !fault_hit) VIOL("stop", "writing was refused though nothing was wrong: %s", t ? vp_trap_file : logged.c_str()); disk[x.path] = now; COUNT("builders written"); if (fault_hit) COUNT("builders written through a fault"); }
		else {
			if (!fault_hit) VIOL("builder bytes", "%s holds %zu bytes, %zu were printed", x.path.c_str(), now.size(), x.want.size());
			if (!rep) VIOL("builder reported", "%s was not written (fault %s) and nothing was said", x.path.c_str(), fault_name());
			if (x.want.compare(0, now.size(), now)) VIOL("builder bytes", "a failed write left bytes that were not printed"); disk[x.path] = now; COUNT("failed builder writes");
		}
		if (!t && live.size() != l - (x.bad ? 0 : 1)) VIOL("descriptors", "a written builder keeps its file"); if (t && !x.bad) { int fd = (int)x.b.File.fd.i; if (live.erase(fd)) __real_close(fd); }
		check_disk("builder write");
	}
}
static void scan() {
	static const char* nls[] = { "\n", "\r\n" }; S nl = nls[R.below(2)], pre, block, post; bool has = R.chance(60), terminated = true;
	auto line = [&]() -> S { static const char* ls[] = { "int a;", "#define X 3", "# pragma once", "// # a comment", "char const* s = \"#\";", "", "#", "#if 1", "#ifdef OTHER", "x", "#ifd", "  " }; return ls[R.below(12)]; };
	if (has) { for (int i = (int)R.below(3); i > 0; i--) { S x = line(); pre += (x == "#" ? S("y") : x) + nl; } block = S(R.pick({ "#ifdef ", "# ifdef ", "#ifdef\t" })) + "INTELLISENSE_DIRECTIVES" + nl; for (int i = (int)R.below(4); i > 0; i--) block += S(R.pick({ "#\tinclude \"a.hpp\"", "#pragma once", "int q;", "" })) + nl; if (R.chance(10)) terminated = false; else block += R.pick({ "#endif", "# endif", "#endif // INTELLISENSE_DIRECTIVES" }); }
	if (!has || terminated) { if (has) post += R.chance(85) ? nl : S(""); if (!has || post.size()) for (int i = (int)R.below(6); i > 0; i--) post += line() + (i == 1 && R.chance(40) ? S("") : nl); }
	S all = pre + block + post; S p = PATHS[R.below(4)]; for (auto& o : hs) if (o.open && o.path == p) return; put(p, all); HIST("scan %s: %s", p.c_str(), vp_esc(all, 600).c_str());
	size_t l = live.size(); Code c = { nullptr }; logged.clear(); bool t = TRAPS(c = scan_file(p.c_str()));
	if (all.empty()) { if (!t) VIOL("scan reported", "an empty file was scanned"); while (live.size() > l) { __real_close(*live.rbegin()); live.erase(*live.rbegin()); } COUNT("scans refused"); return; }
	S want = has && terminated ? post : all; if (want.find_first_not_of("\r\n") == S::npos) { COUNT("scans of nothing"); if (t) { while (live.size() > l) { __real_close(*live.rbegin()); live.erase(*live.rbegin()); } } return; }
	if (t) VIOL("stop", "diagnosed stop scanning"); if (live.size() != l) VIOL("descriptors", "scanning left a descriptor");
	S got = text_of(c); auto strip = [](S s) { size_t i = 0; while (i < s.size() && (s[i] == '\n' || s[i] == '\r')) i++; return s.substr(i); };
	if (has && terminated ? strip(got) != strip(want) : got != want) VIOL("scan", "scanned %s\nwanted %s", vp_esc(got, 500).c_str(), vp_esc(want, 500).c_str());
	COUNT(has ? "scans with a block" : "scans"); check_disk("scan");
}
static void parse_files() {
	size_t l = live.size(); if (R.chance(25)) { S p = R.pick({ "missing", "d", "f0/x", "" }); HIST("parse_file %s", p.c_str()); CodeBody b = { nullptr }; bool t = TRAPS(b = parse_file(p.c_str())); if (!t && b.ast && code_is_valid((Code)b) && b->NumEntries > 0) VIOL("parse_file", "a missing file was parsed"); while (live.size() > l) { __real_close(*live.rbegin()); live.erase(*live.rbegin()); } COUNT("parse_file refused"); return; }
	static const char* src[] = { "int a;\n", "struct S { int a; };", "enum E { A };\n\n", "// x\n", "namespace n { void f(); }\n" }; S s; for (int i = 1 + (int)R.below(5); i > 0; i--) s += src[R.below(5)];
	S p = PATHS[R.below(4)]; for (auto& o : hs) if (o.open && o.path == p) return; put(p, s); HIST("parse_file %s", vp_esc(s).c_str()); plan(); if (fault_kind >= F_ENOSPC) faults_on = false; CodeBody b = parse_file(p.c_str()); faults_on = false; if (live.size() != l) VIOL("descriptors", "parse_file left a descriptor");
	S w = text_of((Code)parse_global_body(Str{ s.data(), (ssize)s.size() })); if (text_of((Code)b) != w) VIOL("parse_file", "not what its text parses to"); COUNT("parse_file"); check_disk("parse_file");
}
static void columns() {
	bool two = R.chance(50); int cols = (int)R.below(4), rows = (int)R.below(6); std::vector<std::vector<S>> t; S s; for (int r = 0; r < rows && cols; r++) { std::vector<S> row; for (int c = 0; c < cols; c++) { S v; for (int k = 1 + (int)R.below(6); k > 0; k--) v += (char)('a' + R.below(26)); row.push_back(v); s += (c ? "," : "") + v; } s += "\n"; t.push_back(row); }
	S p = R.chance(10) ? S(R.pick({ "missing", "d" })) : S(PATHS[R.below(4)]); for (auto& o : hs) if (o.open && o.path == p) return; bool bad = p == "missing" || p == "d" || t.empty() || (two && cols < 2); if (p != "missing" && p != "d") put(p, s);
	HIST("columns of %s: %s", p.c_str(), vp_esc(s).c_str()); logged.clear(); size_t l = live.size(); CSV_Column c1; CSV_Columns2 c2; memset(&c1, 0xA5, sizeof c1); memset(&c2, 0xA5, sizeof c2);
	bool tr = two ? TRAPS(c2 = parse_csv_two_columns(A(), p.c_str())) : TRAPS(c1 = parse_csv_one_column(A(), p.c_str()));
	if (live.size() != l) VIOL("descriptors", "reading columns left a descriptor");
	if (bad) { if (!tr && reports().empty()) VIOL("columns reported", "columns were taken from a table that has none"); COUNT("columns refused"); return; } if (tr) VIOL("stop", "diagnosed stop reading columns");
	Array(ADT_Node) a[2] = { two ? c2.Col_1 : c1.Content, two ? c2.Col_2 : nullptr };
	for (int k = 0; k < (two ? 2 : 1); k++) { if ((int)array_num(a[k]) != (int)t.size()) VIOL("columns", "column %d has %d rows of %zu", k, (int)array_num(a[k]), t.size()); for (size_t r = 0; r < t.size(); r++) if (S(a[k][r].string) != t[r][k]) VIOL("columns", "row %zu of column %d is %s, not %s", r, k, a[k][r].string, t[r][k].c_str()); }
	COUNT("columns read"); check_disk("columns");
}
static Context ctx; static bool ctx_on;
static void vp_round_fn(long r) {
	static bool first = true; if (first) { first = false; mkdir("d", 0755); symlink("loop", "loop"); }
	faults_on = false; alloc_fail = -1; for (int fd : live) __real_close(fd); live.clear(); for (auto& b : blocks) ::free(b.first); blocks.clear(); disk.clear(); for (auto& h : hs) h = H();
	for (auto p : PATHS) unlink(p); put("f0", bytes(some_size())); if (R.chance(60)) put("d/f2", bytes(some_size())); if (R.chance(50)) put(PATHS[3], bytes(some_size()));
	bool code = R.chance(45);
	if (code) {
		if (!ctx_on || R.chance(5)) { if (ctx_on) { deinit(&ctx); } memset(&ctx, 0, sizeof ctx); init(&ctx); ctx_on = true; }
		for (int k = 1 + (int)R.below(4); k > 0; k--) switch (R.below(6)) { case 0: scan(); break; case 1: parse_files(); break; case 2: columns(); break; default: builders(); }
		return;
	}
	for (int k = 4 + (int)R.below(26); k > 0; k--) {
		H& h = hs[R.below(4)];
		if (h.open) { if (R.chance(8)) do_close(h); else step(h); }
		else if (h.closed && R.chance(60)) after_close(h);
		else if (R.chance(15)) contents();
		else do_open(h);
	}
	for (auto& h : hs) if (h.open) do_close(h);
	if (!live.empty()) VIOL("descriptors", "%zu descriptors are left", live.size());
	if (!blocks.empty()) VIOL("descriptors", "%zu blocks are left", blocks.size());
	COUNT("histories");
}
