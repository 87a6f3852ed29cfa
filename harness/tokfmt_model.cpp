// P19: token formatting against plain text substitution, and untyped code against the text it was made from.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
typedef std::string S;
typedef std::vector<std::pair<S, S>> KV;
static S model_fmt(KV const& kv, S const& t) {
	std::map<S, S> m; for (auto& p : kv) m[p.first] = p.second;
	S r; size_t i = 0;
	while (i < t.size()) {
		if (t[i] == '<') { size_t e = t.find('>', i + 1); if (e != S::npos) { auto f = m.find(t.substr(i + 1, e - i - 1)); if (f != m.end()) { r += f->second; i = e + 1; continue; } } }
		r += t[i++];
	}
	return r;
}
// exact-size copies, so that a read past the end is seen
struct Exact { char* p; ssize n; Exact(S const& s, bool z) { n = s.size(); p = (char*)malloc(n + z + (n + z == 0)); memcpy(p, s.data(), n); if (z) p[n] = 0; } ~Exact() { free(p); } };
static ssize call_va(char* buf, usize n, s32 num, ...) { va_list va; va_start(va, num); ssize r = token_fmt_va(buf, n, num, va); va_end(va); return r; }
static Code call_untyped(s32 num, char const* f, std::vector<char const*> k, std::vector<Str> v) {
	while (k.size() < 8) { k.push_back("unused"); v.push_back(Str{ "unused", 6 }); }
	return untyped_token_fmt(num, f, k[0], v[0], k[1], v[1], k[2], v[2], k[3], v[3], k[4], v[4], k[5], v[5], k[6], v[6], k[7], v[7]);
}
#define PAIR(i) k[i], v[i]
#define DISP(n, CALL) switch (n) { case 0: return CALL(1, f); case 1: return CALL(2, PAIR(0), f); case 2: return CALL(3, PAIR(0), PAIR(1), f); case 3: return CALL(4, PAIR(0), PAIR(1), PAIR(2), f); \
	case 4: return CALL(5, PAIR(0), PAIR(1), PAIR(2), PAIR(3), f); case 5: return CALL(6, PAIR(0), PAIR(1), PAIR(2), PAIR(3), PAIR(4), f); case 6: return CALL(7, PAIR(0), PAIR(1), PAIR(2), PAIR(3), PAIR(4), PAIR(5), f); \
	default: return CALL(9, PAIR(0), PAIR(1), PAIR(2), PAIR(3), PAIR(4), PAIR(5), PAIR(6), PAIR(7), f); }
static Str call_impl(int n, char const* f, std::vector<char const*>& k, std::vector<Str>& v) { 
#define C1(...) token_fmt_impl(__VA_ARGS__)
	DISP(n, C1) }
static Str call_macro(int n, char const* f, std::vector<char const*>& k, std::vector<Str>& v) {
#define C2(m, ...) token_fmt(__VA_ARGS__)
	DISP(n, C2) }
static Code call_code(int n, char const* f, std::vector<char const*>& k, std::vector<Str>& v) {
#define C3(m, ...) code_fmt(__VA_ARGS__)
	DISP(n, C3) }
static ssize call_buf(char* b, usize z, int n, char const* f, std::vector<char const*>& k, std::vector<Str>& v) {
#define C4(...) call_va(b, z, __VA_ARGS__)
	DISP(n, C4) }
static S text(Str s) { return S(s.Ptr ? s.Ptr : "", s.Len); }
static std::vector<std::pair<Code, S>> kept; static bool started;
static void expect_same(const char* key, S const& got, S const& want) {
	if (got == want) return;
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	VIOL(key, "%zu characters where %zu are due, first difference at %zu: '%s' where '%s' is due", got.size(), want.size(), i, vp_esc(got.substr(i, 60)).c_str(), vp_esc(want.substr(i, 60)).c_str());
}
static S code_text(Code c) { return text(strbuilder_to_str(code_to_strbuilder(c))); }
static void check_code(const char* who, Code c, S const& want) {
	if (!c || c == Code_Invalid || c->Type == CT_Invalid) VIOL(S(who) + " refused", "no code for a valid request");
	if (c->Type != CT_Untyped) VIOL(S(who) + " kind", "the code is of kind %d", (int)c->Type);
	expect_same(who, code_text(c), want);
	expect_same(who, text(c->Content), want);
	if (kept.size() < 4000) kept.push_back({ c, want });
}
static S word() {
	static const char* w[] = { "a", "b", "ab", "key", "keys", "type", "Type", "type_name", "type name", "T", "", " ", "x1", "name", "<", "a<b", "0", "\t", "value", "a.b", "key ", "\xc3\xa9" };
	if (R.chance(10)) { S r; for (int i = R.range(1, R.chance(10) ? 300 : 12); i--; ) r += (char)R.range(33, 126); for (auto& c : r) if (c == '>') c = ')'; return r; }
	return w[R.below(sizeof w / sizeof *w)];
}
static S value() {
	int k = R.below(14); S r;
	if (k == 0) return "";
	if (k == 1) return "<" + word() + ">";
	if (k == 2) return word() + "<";
	if (k == 3) return ">" + word();
	if (k == 4) { r.assign(R.range(1, 3000), 'v'); return r; }
	if (k == 5) return "%s%d%%";
	if (k == 6) { r = word() + S(1, '\0') + word(); return r; }
	if (k == 7) return "line\n\tline\\\"'";
	for (int i = R.range(1, 4); i--; ) r += word();
	return r;
}
static S templ(KV const& kv) {
	S t; int parts = R.range(0, 12);
	for (int i = 0; i < parts; i++) switch (R.below(12)) {
		case 0: case 1: case 2: case 3: if (kv.size()) t += "<" + kv[R.below(kv.size())].first + ">"; break;
		case 4: t += "<" + word() + ">"; break;
		case 5: t += R.pick({ "<", ">", "<<", ">>", "<>", "><", "->", "<=", "a < b", "a > b", "<<<", "std::vector<" }); break;
		case 6: if (kv.size()) t += "<" + kv[R.below(kv.size())].first; break;
		case 7: if (kv.size()) t += "< " + kv[R.below(kv.size())].first + " >"; break;
		case 8: t += "\n\t"; break;
		case 9: t += "%s %d %"; break;
		default: t += word(); t += R.pick({ "", " ", ";", "(", ")", "\n" });
	}
	return t;
}
static void vp_round_fn(long r) {
	if (!started) { static Context c; init(&c); started = true; }
	KV kv; int n = R.chance(10) ? 8 : R.range(0, 6);
	for (int i = 0; i < n; i++) { S k = word(); for (auto& c : k) if (c == '>') c = ')'; if (R.chance(12) && i) k = kv[R.below(i)].first; kv.push_back({ k, value() }); }
	S t = templ(kv);
	const size_t LIM = GEN_PRINTF_MAXLEN;
	bool big = R.chance(2);
	if (big && n) { // around the limit of the buffer
		S base = model_fmt(kv, t); long want = (long)LIM + R.range(-3, 3);
		if (R.chance(50)) { if (want > (long)base.size()) t += S(want - base.size(), 'z'); }
		else { S k = "bigvalue"; kv[0] = { k, "" }; t += "<bigvalue>"; size_t occ = 0, at = 0; base = model_fmt(kv, t); for (at = 0; (at = t.find("<bigvalue>", at)) != S::npos; at++) occ++; for (size_t i = 1; i < kv.size(); i++) if (kv[i].first == k) kv[i].first = "notbig"; if (want > (long)base.size()) kv[0].second = S((want - base.size()) / occ, 'y'); }
	}
	if (R.chance(1) && n) { kv[0].second = S(R.range(100000, 300000), 'q'); }
	S want = model_fmt(kv, t);
	HIST("pairs %zu template '%s'", kv.size(), vp_esc(t, 400).c_str());
	for (auto& p : kv) HIST("  '%s' = '%s' (%zu)", vp_esc(p.first).c_str(), vp_esc(p.second, 100).c_str(), p.second.size());
	std::vector<Exact*> own; std::vector<char const*> k; std::vector<Str> v;
	for (auto& p : kv) { Exact* a = new Exact(p.first, true), *b = new Exact(p.second, false); own.push_back(a); own.push_back(b); k.push_back(a->p); v.push_back(Str{ b->p, b->n }); }
	while (k.size() < 8) { k.push_back("unused"); v.push_back(Str{ "unused", 6 }); }
	Exact* ft = new Exact(t, true); own.push_back(ft);
	if (R.chance(12)) {   // literals as the values, and as the names
		S w; Str g; Str one = v[0]; S o(v[0].Ptr, v[0].Len); if (o.size() > 10000) o = S(), one.Len = 0; int kind = R.below(7); HIST("literals %d", kind);
		switch (kind) {
		case 0: g = token_fmt("a", txt("x, y"), "b", txt("(z"), "c", txt("w"), "<a>|<b>|<c>|<d>"); w = "x, y|(z|w|<d>"; break;
		case 1: g = token_fmt("T", name(int), "n", one, "v", code(f(1, 2)), "d", name(q), "<T> <n> = <v>;<d>"); w = "int " + o + " = f(1, 2);q"; break;
		case 2: g = token_fmt("only", txt("1"), "<only><only>"); w = "11"; break;
		case 3: g = token_fmt("a", one, "b", txt("2"), "<b><a><b>"); w = "2" + o + "2"; break;
		case 4: { Code u = code_fmt("x", name(alpha), "y", code(a[1, 2]), "z", txt("\"s\""), "<z>;<y>;<x>"); check_code("code_fmt", u, "\"s\";a[1, 2];alpha"); COUNT("literals as values"); for (auto e : own) delete e; return; }
		case 5: g = token_fmt("a", one, "<a>,<b>"); w = o + ",<b>"; break;
		default: g = token_fmt("no pairs <a>"); w = "no pairs <a>"; break;
		}
		expect_same("token_fmt", text(g), w); COUNT("literals as values"); for (auto e : own) delete e; return;
	}
	int how = R.below(6); Code c; Str s;
	bool fits = want.size() < LIM;
	if (!fits) { COUNT("text that does not fit"); if (how == 5) how = 0; }
	switch (how) {
	case 0: case 1: {
		HIST("token_fmt");
		if (!fits) { if (!TRAPS(s = call_impl(n, ft->p, k, v))) VIOL("token_fmt overflow", "%zu characters do not fit the buffer and %td are handed out", want.size(), s.Len); break; }
		s = how ? call_macro(n, ft->p, k, v) : call_impl(n, ft->p, k, v);
		expect_same("token_fmt", text(s), want);
		if (s.Ptr[s.Len] != 0) VIOL("token_fmt end", "the text is not terminated");
		COUNT("token_fmt"); break; }
	case 2: {
		usize z = R.chance(50) ? R.range(0, want.size() + 2) : want.size() + R.range(0, 100); if (R.chance(10)) z = want.size();
		HIST("token_fmt_va into %zu", (size_t)z);
		char* b = (char*)malloc(z ? z : 1); memset(b, '#', z);
		ssize got = call_buf(b, z, n, ft->p, k, v);
		size_t due = want.size() < z ? want.size() : z;
		if (got < 0 || (size_t)got > z) VIOL("token_fmt_va length", "%td reported for a buffer of %zu", got, (size_t)z);
		expect_same("token_fmt_va", S(b, got), want.substr(0, due));
		for (size_t i = due; i < z; i++) if (b[i] != '#') VIOL("token_fmt_va excess", "character %zu beyond the text of %zu is written", i, due);
		free(b); COUNT("token_fmt_va"); break; }
	case 3: {
		HIST("untyped_token_fmt");
		if (n == 0) { if (!TRAPS(c = call_untyped(0, ft->p, k, v)) && c && c != Code_Invalid) VIOL("untyped_token_fmt none", "a request without tokens gives code"); break; }
		if (!fits) { if (!TRAPS(c = call_untyped(n, ft->p, k, v)) && c && c != Code_Invalid) VIOL("untyped_token_fmt overflow", "%zu characters do not fit and code is handed out", want.size()); break; }
		if (want.empty()) break;
		c = call_untyped(n, ft->p, k, v); check_code("untyped_token_fmt", c, want); COUNT("untyped_token_fmt"); break; }
	case 4: {
		HIST("code_fmt");
		if (!fits) { if (!TRAPS(c = call_code(n, ft->p, k, v)) && c && c != Code_Invalid) VIOL("code_fmt overflow", "%zu characters do not fit and code is handed out", want.size()); break; }
		if (want.empty()) { if (!TRAPS(c = call_code(n, ft->p, k, v)) && c && c != Code_Invalid) VIOL("untyped_str empty", "empty text gives code"); break; }
		c = call_code(n, ft->p, k, v); check_code("code_fmt", c, want); COUNT("code_fmt"); break; }
	case 5: {
		int form = R.below(4);
		if (form == 0) { S x = want.empty() ? "x" : want; Exact e(x, false); HIST("untyped_str"); c = untyped_str(Str{ e.p, e.n }); check_code("untyped_str", c, x); COUNT("untyped_str"); }
		else { S a = value(), b = word(); for (auto& ch : a) if (!ch) ch = '0'; if (R.chance(6)) a = S(R.range(GEN_PRINTF_MAXLEN - 100, GEN_PRINTF_MAXLEN + 5000), 'w'); long d = (long)R.next();
			S f = form == 1 ? "%s" : form == 2 ? "a %s [%d] %s;\n" : "%s%%%x_%ld"; HIST("untyped_fmt '%s' '%s' (%zu) '%s' %ld", vp_esc(f).c_str(), vp_esc(a, 60).c_str(), a.size(), vp_esc(b).c_str(), d);
			S x; if (form == 1) x = a; else if (form == 2) { x = "a " + a + vp_fmt(" [%d] ", (int)d) + b + ";\n"; } else x = a + vp_fmt("%%%x_%ld", (unsigned)d, d);
			if (x.empty()) break;
			Exact ea(a, true), eb(b, true);
			if (form == 1) c = untyped_fmt(f.c_str(), ea.p); else if (form == 2) c = untyped_fmt(f.c_str(), ea.p, (int)d, eb.p); else c = untyped_fmt(f.c_str(), ea.p, (unsigned)d, d);
			check_code("untyped_fmt", c, x); COUNT("untyped_fmt"); }
		break; }
	}
	for (auto e : own) delete e;
	if (kept.size()) for (int i = 0; i < 3; i++) { auto& q = kept[R.below(kept.size())]; COUNT("earlier untyped code re-read"); expect_same("kept untyped code", code_text(q.first), q.second); }
	if (r % 3000 == 2999) { kept.clear(); reset(get_context()); HIST("reset"); COUNT("reset"); }
}
