// P12: Str queries, C string helpers and StrBuilder histories against std::string.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
static std::map<char*, size_t> live; static int fail_in;
static void* mem_proc(void*, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64 flags) {
	if (type == EAllocation_ALLOC) { if (fail_in && --fail_in == 0) return nullptr; char* p = (char*)::malloc(size ? size : 1); memset(p, R.chance(50) ? 0xCD : 0, size); live[p] = size; return p; }
	if (type == EAllocation_FREE) { if (!old) return nullptr; if (!live.erase((char*)old)) VIOL("free of foreign memory", "%p", old); ::free(old); return nullptr; }
	if (type == EAllocation_RESIZE) { AllocatorInfo a = { mem_proc, 0 }; return default_resize_align(a, old, old_size, size, align); }
	return nullptr;
}
static AllocatorInfo AI = { mem_proc, 0 };
static std::string rnd(size_t maxn = 30) {
	size_t n = R.chance(10) ? 0 : R.chance(85) ? R.below(maxn) : R.below(8 * maxn); std::string s(n, 'a'); int style = (int)R.below(4);
	for (auto& c : s) switch (style) { case 0: c = (char)('a' + R.below(2)); break; case 1: c = " \t\r\n\v\fxyZ."[R.below(10)]; break; case 2: c = (char)(1 + R.below(255)); break; default: c = (char)(32 + R.below(95)); }
	return s;
}
// an exact-size copy without terminator
struct Ex { char* p; size_t n; Ex(std::string const& s) : n(s.size()) { p = (char*)::malloc(n ? n : 1); memcpy(p, s.data(), n); } ~Ex() { ::free(p); } operator Str() { return { p, (ssize)n }; } };
struct Cs { char* p; Cs(std::string const& s) { p = (char*)::malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Cs() { ::free(p); } };
static std::string V(Str s) { VP_WRITTEN(&s, sizeof s); if (s.Len > 0) VP_WRITTEN(s.Ptr, (size_t)s.Len); return std::string(s.Ptr, s.Len); }
#define WANT(key, got, want) do { auto g_ = (got); auto w_ = (want); if (!(g_ == w_)) VIOL(key, "on %s", ctx.c_str()); } while (0)
static std::string vis(std::string const& s) { std::string r; for (char c : s) switch (c) { case ' ': r += "\xC2\xB7"; break; case '\t': r += "\xE2\x86\x92"; break; case '\n': r += "\xE2\x86\xB5"; break; case '\r': r += "\xE2\x8F\x8E"; break; case '\v': r += "\xE2\x87\x95"; break; case '\f': r += "\xE2\x8C\x82"; break; default: r += c; } return r; }
static std::string mutate(std::string s) { switch (R.below(5)) { case 0: return s.substr(0, R.below(s.size() + 1)); case 1: return s.empty() ? s : s.substr(R.below(s.size())); case 2: if (!s.empty()) s[R.below(s.size())] ^= 1; for (auto& c : s) if (!c) c = 1; return s; case 3: { if (s.empty()) return s; size_t a = R.below(s.size()); return s.substr(a, R.below(s.size() - a + 1)); } default: return s + (char)(1 + R.below(200)); } }
static std::string trimmed(std::string const& s, std::string const& cut) { size_t a = s.find_first_not_of(cut); if (a == std::string::npos) return ""; size_t b = s.find_last_not_of(cut); return s.substr(a, b - a + 1); }
static void r_query() {
	std::string a = rnd(), b = R.chance(60) ? mutate(a) : rnd(6); std::string ctx = "\"" + vp_esc(a, 80) + "\" \"" + vp_esc(b, 80) + "\""; HIST("%s", ctx.c_str());
	Ex x(a), y(b); Str X = x, Y = y;
	WANT("str_are_equal", str_are_equal(X, Y), a == b); WANT("str_are_equal", X.is_equal(X), true);
	WANT("str_starts_with", (bool)str_starts_with(X, Y), a.compare(0, b.size(), b) == 0); WANT("str_contains", X.contains(Y), a.find(b) != std::string::npos); WANT("str_contains", str_contains(Y, X), b.find(a) != std::string::npos);
	if (!a.empty()) { WANT("str_back", *str_back(X), a.back()); }
	std::string it; for (char const* c = str_begin(X); c != str_end(X); c = str_next(X, c)) it += *c; WANT("str iteration", it, a); it.clear(); for (char c : X) it += c; WANT("str range", it, a);
	Str d = str_duplicate(X, AI); WANT("str_duplicate", V(d), a); if (d.Ptr[d.Len]) VIOL("str_duplicate", "not terminated"); if (d.Ptr == X.Ptr) VIOL("str_duplicate", "same memory");
	Str v = str_visualize_whitespace(X, AI); WANT("str_visualize_whitespace", V(v), vis(a)); if (v.Ptr[v.Len]) VIOL("str_visualize_whitespace", "not terminated");
	Cs p(a), q(b); char c = R.chance(60) && !a.empty() ? a[R.below(a.size())] : (char)R.below(256);
	auto sgn = [](long v) { return v < 0 ? -1 : v > 0; };
	WANT("c_str_len", c_str_len(p.p), (ssize)a.size()); WANT("c_str_compare", sgn(c_str_compare(p.p, q.p)), sgn(strcmp(p.p, q.p)));
	ssize n = (ssize)R.below(std::max(a.size(), b.size()) + 4); WANT("c_str_compare_len", sgn(c_str_compare_len(p.p, q.p, n)), sgn(strncmp(p.p, q.p, n)));
	{ Cs eq(a); WANT("c_str_compare_len", c_str_compare_len(p.p, eq.p, n), 0); WANT("c_str_compare", c_str_compare(p.p, eq.p), 0); }
	WANT("c_str_len_capped", c_str_len_capped(p.p, n), (ssize)strnlen(p.p, n)); if (!a.empty()) { ssize k = (ssize)R.below(a.size() + 1); WANT("c_str_len_capped", c_str_len_capped(x.p, k), k); }
	WANT("char_first_occurence", (const char*)char_first_occurence(p.p, c), (const char*)strchr(p.p, c));
	{ const char* w = c ? strchr(p.p, c) : nullptr; WANT("c_str_skip", c_str_skip(p.p, c), w ? w : (const char*)p.p + a.size()); }
	WANT("c_str_skip_any", c_str_skip_any(p.p, q.p), (const char*)p.p + strcspn(p.p, q.p));
	{ size_t k = a.find_first_not_of(" \t\r\n\v\f"); if (k == std::string::npos) k = a.size(); WANT("c_str_trim", c_str_trim(p.p, false), (const char*)p.p + k); size_t k2 = a.find_first_not_of(" \t\r\v\f"); if (k2 == std::string::npos) k2 = a.size(); WANT("c_str_trim", c_str_trim(p.p, true), (const char*)p.p + k2); }
	for (int k = 0; k < 2; k++) { size_t m = R.below(a.size() + 6); char* dst = (char*)::malloc(m ? m : 1); memset(dst, 'w', m); std::string want = a.substr(0, m); std::string pad = want; pad.resize(m, 0);
		if (k == 0) { WANT("c_str_copy", (void*)c_str_copy(dst, p.p, m), (void*)dst); } else WANT("c_str_copy_nulpad", c_str_copy_nulpad(dst, p.p, m), (ssize)want.size());
		WANT(k ? "c_str_copy_nulpad" : "c_str_copy", std::string(dst, m), pad); ::free(dst); }
	{ Cs t(a); c_str_reverse(t.p); WANT("c_str_reverse", std::string(t.p), std::string(a.rbegin(), a.rend())); }
	{ Cs t(a); c_str_to_lower(t.p); std::string w = a; for (auto& ch : w) if (ch >= 'A' && ch <= 'Z') ch += 32; WANT("c_str_to_lower", std::string(t.p), w); c_str_to_upper(t.p); for (auto& ch : w) if (ch >= 'a' && ch <= 'z') ch -= 32; WANT("c_str_to_upper", std::string(t.p), w); }
	{ unsigned char u = (unsigned char)c; bool asc = u < 128; WANT("char_is_alpha", !!char_is_alpha(c), asc && isalpha(u)); WANT("char_is_digit", !!char_is_digit(c), asc && isdigit(u)); WANT("char_is_alphanumeric", !!char_is_alphanumeric(c), asc && isalnum(u)); WANT("char_is_hex_digit", !!char_is_hex_digit(c), asc && isxdigit(u)); WANT("char_is_space", !!char_is_space(c), asc && isspace(u)); WANT("char_to_lower", char_to_lower(c), asc ? (char)tolower(u) : c); WANT("char_to_upper", char_to_upper(c), asc ? (char)toupper(u) : c); WANT("hex_digit_to_int", hex_digit_to_int(c), asc && isdigit(u) ? u - '0' : asc && isxdigit(u) ? (tolower(u) - 'a' + 10) : -1); if (asc && isdigit(u)) WANT("digit_to_int", digit_to_int(c), u - '0'); }
	{ Str z = to_str_from_c_str(p.p); WANT("to_str_from_c_str", V(z), a); }
	COUNT("queries");
}
static void inv(StrBuilder s, std::string const& m, const char* op) {
	COUNT(op); StrBuilderHeader* h = strbuilder_get_header(s);
	if (h->Length != (ssize)m.size()) VIOL(op, "length %zd, expected %zu", h->Length, m.size()); if (h->Length > h->Capacity) VIOL(op, "length %zd above capacity %zd", h->Length, h->Capacity);
	auto it = live.find((char*)h); if (it == live.end()) VIOL(op, "does not live in allocated memory"); if ((ssize)it->second < (ssize)sizeof(StrBuilderHeader) + h->Capacity + 1) VIOL(op, "capacity %zd in an allocation of %zu", h->Capacity, it->second);
	if (memcmp(s.Data, m.data(), m.size())) VIOL(op, "contents \"%s\", expected \"%s\"", vp_esc(std::string(s.Data, h->Length), 200).c_str(), vp_esc(m, 200).c_str()); if (s.Data[m.size()]) VIOL(op, "not terminated");
	if (strbuilder_length(s) != h->Length || strbuilder_capacity(s) != h->Capacity || strbuilder_avail_space(s) != h->Capacity - h->Length) VIOL(op, "length, capacity and free space disagree");
	Str t = strbuilder_to_str(s); if (t.Ptr != s.Data || t.Len != (ssize)m.size()) VIOL(op, "to_str"); Str u = s; if (u.Ptr != s.Data || u.Len != t.Len) VIOL(op, "conversion to Str");
}
static StrBuilder make(std::string& m, const char*& how) {
	switch (R.below(7)) {
		case 0: { m = rnd(); Cs c(m); how = "make_c_str"; return R.chance(50) ? strbuilder_make_c_str(AI, c.p) : StrBuilder::make(AI, c.p); }
		case 1: { m = rnd(); Ex e(m); how = "make_str"; return R.chance(50) ? strbuilder_make_str(AI, e) : StrBuilder::make(AI, (Str)e); }
		case 2: { m = ""; how = "make_reserve"; return strbuilder_make_reserve(AI, R.below(40)); }
		case 3: { m = rnd(); Ex e(m); how = "make_length"; return strbuilder_make_length(AI, e.p, e.n); }
		case 4: { std::vector<std::string> ps; int n = (int)R.below(5); for (int i = 0; i < n; i++) ps.push_back(rnd(6)); std::string g = rnd(4); std::vector<const char*> cs; for (auto& p : ps) cs.push_back(p.c_str()); m = ""; for (int i = 0; i < n; i++) { m += ps[i]; if (i + 1 < n) m += g; } how = "join"; return strbuilder_join(AI, cs.data(), n, g.c_str()); }
		case 5: { std::string t = rnd(); int k = (int)R.next(); m = "<" + t + ">" + std::to_string(k); how = "fmt_buf"; return strbuilder_fmt_buf(AI, "<%S>%d", Str{ t.data(), (ssize)t.size() }, k); }
		default: { char buf[400]; std::string t = rnd(20); if (t.size() > 300) t.resize(300); m = "[" + t + "]"; how = "fmt"; return strbuilder_fmt(AI, buf, sizeof buf, "[%s]", t.c_str()); }
	}
}
static void r_builder() {
	std::string m; const char* how = ""; StrBuilder s = make(m, how); HIST("%s %s", how, vp_esc(m, 100).c_str()); inv(s, m, how);
	std::string m2; const char* how2 = ""; StrBuilder o = make(m2, how2);
	int n = 4 + (int)R.below(40);
	for (int i = 0; i < n; i++) {
		if (R.chance(3)) fail_in = 1 + (int)R.below(2); bool failing = fail_in != 0; std::string before = m; bool ok = true; const char* op = "";
		switch (R.below(20)) {
			case 0: case 1: { char c = (char)(1 + R.below(255)); op = "append_char"; ok = R.chance(50) ? strbuilder_append_char(&s, c) : R.chance(50) ? gen::append(s, c) : s.append(c); if (ok) m += c; break; }
			case 2: case 3: { std::string t = rnd(12); Cs c(t); op = "append_c_str"; ok = R.chance(50) ? strbuilder_append_c_str(&s, c.p) : R.chance(50) ? gen::append(s, (char const*)c.p) : s.append(c.p); if (ok) m += t; break; }
			case 4: case 5: { std::string t = rnd(12); Ex e(t); op = "append_str"; ok = R.chance(50) ? strbuilder_append_str(&s, e) : R.chance(50) ? gen::append(s, (Str)e) : s.append((Str)e); if (ok) m += t; break; }
			case 6: { std::string t = rnd(12); Ex e(t); op = "append_c_str_len"; ok = R.chance(50) ? gen::append(s, (char const*)e.p, (ssize)e.n) : s.append(e.p, (ssize)e.n); if (ok) m += t; break; }
			case 7: { op = "append_string"; ok = R.chance(50) ? strbuilder_append_string(&s, o) : R.chance(50) ? gen::append(s, (const StrBuilder)o) : s.append(o); if (ok) m += m2; break; }
			case 8: { if (m.size() > 5000) break; op = "append itself"; if (R.chance(50)) { ok = strbuilder_append_string(&s, s); if (ok) m += m; } else { size_t a = R.below(m.size() + 1), l = R.below(m.size() - a + 1); ok = strbuilder_append_c_str_len(&s, s.Data + a, l); if (ok) m += std::string(m, a, l); } break; }
			case 9: { std::string t = rnd(12); int k = (int)R.below(1000); op = "append_fmt"; ok = R.chance(50) ? strbuilder_append_fmt(&s, "%d:%S;", k, Str{ t.data(), (ssize)t.size() }) : R.chance(50) ? gen::append_fmt(s, "%d:%S;", k, Str{ t.data(), (ssize)t.size() }) : s.append_fmt("%d:%S;", k, Str{ t.data(), (ssize)t.size() }); if (ok) m += std::to_string(k) + ":" + t + ";"; break; }
			case 10: { op = "clear"; if (!R.chance(30)) { op = ""; break; } R.chance(50) ? strbuilder_clear(s) : R.chance(50) ? gen::clear(s) : s.clear(); m.clear(); break; }
			case 11: { op = "trim"; std::string cut = R.chance(50) ? "ab" : rnd(5); Cs c(cut); HIST("cut %s", vp_esc(cut).c_str()); R.chance(50) ? strbuilder_trim(s, c.p) : s.trim(c.p); m = trimmed(m, cut); break; }
			case 12: { op = "trim_space"; R.chance(50) ? strbuilder_trim_space(s) : s.trim_space(); m = trimmed(m, " \t\r\n\v\f"); break; }
			case 13: { op = "strip_space"; if (!R.chance(40)) { op = ""; break; } strbuilder_strip_space(s); m.erase(std::remove_if(m.begin(), m.end(), [](unsigned char c) { return c < 128 && isspace(c); }), m.end()); break; }
			case 14: { op = "skip_line"; if (!R.chance(40)) { op = ""; break; } strbuilder_skip_line(s); size_t k = m.find_first_of("\r\n"); if (k == std::string::npos) m.clear(); else { if (m[k] == '\r' && k + 1 < m.size() && m[k + 1] == '\n') k++; m = m.substr(k + 1); } break; }
			case 15: { op = "visualize_whitespace"; fail_in = 0; StrBuilder v = strbuilder_visualize_whitespace(s); inv(v, vis(m), op); strbuilder_free(&v); break; }
			case 16: { op = "duplicate"; fail_in = 0; StrBuilder v = R.chance(50) ? strbuilder_duplicate(s, AI) : s.duplicate(AI); inv(v, m, op); if (v.Data == s.Data) VIOL(op, "same memory"); if (!strbuilder_are_equal(v, s) || !v.is_equal(s)) VIOL("are_equal", "a duplicate differs"); strbuilder_free(&v); break; }
			case 17: { op = "make_space_for"; ssize k = (ssize)R.below(60); ok = R.chance(50) ? strbuilder_make_space_for(&s, "", k) : R.chance(50) ? gen::make_space_for(s, "", k) : s.make_space_for("", k); if (ok && strbuilder_avail_space(s) < k) VIOL(op, "%zd free after asking for %zd", strbuilder_avail_space(s), k); break; }
			case 18: { op = "queries"; std::string t = mutate(m); Ex e(t); std::string ctx = vp_esc(m, 80) + " " + vp_esc(t, 80); WANT("are_equal_str", strbuilder_are_equal_str(s, e), m == t); WANT("starts_with_str", (bool)strbuilder_starts_with_str(s, e), m.compare(0, t.size(), t) == 0); WANT("contains_str", strbuilder_contains_str(s, e), m.find(t) != std::string::npos);
				fail_in = 0; StrBuilder q = strbuilder_make_str(AI, e); WANT("are_equal", strbuilder_are_equal(s, q), m == t); WANT("starts_with_string", (bool)strbuilder_starts_with_string(s, q), m.compare(0, t.size(), t) == 0); WANT("starts_with", (bool)s.starts_with(q), m.compare(0, t.size(), t) == 0); WANT("contains_string", strbuilder_contains_string(s, q), m.find(t) != std::string::npos); WANT("contains", s.contains(q), m.find(t) != std::string::npos); strbuilder_free(&q);
				if (!m.empty()) { WANT("back", *strbuilder_back(s), m.back()); WANT("back", gen::back(s), m.back()); WANT("back", *s.back(), m.back()); } std::string it; for (char c : s) it += c; WANT("iteration", it, m); it.clear(); for (char* c = strbuilder_begin(s); c != strbuilder_end(s); c = strbuilder_next(s, c)) it += *c; WANT("iteration", it, m); break; }
			default: { op = "other"; if (!m2.empty() && R.chance(30)) { strbuilder_append_string(&o, s); if (fail_in == 0 && failing) { fail_in = 0; } if (strbuilder_length(o) != (ssize)m2.size()) m2 += m; if (m2.size() > 3000) { strbuilder_clear(o); m2.clear(); } inv(o, m2, "other"); } break; }
		}
		if (!*op) { fail_in = 0; continue; }
		HIST("%s%s", op, ok ? "" : " (out of memory)");
		if (!ok) { if (!failing) VIOL(op, "reports failure with memory available"); m = before; COUNT("out of memory"); }
		fail_in = 0; inv(s, m, op); inv(o, m2, "other");
		if (m.size() > 20000) { strbuilder_clear(s); m.clear(); }
	}
	R.chance(50) ? gen::free(s) : strbuilder_free(&s); R.chance(50) ? o.free() : strbuilder_free(&o);
}
static void vp_round_fn(long r) { for (auto& e : live) ::free(e.first); live.clear(); fail_in = 0; if (r & 1) r_query(); else r_builder(); }
