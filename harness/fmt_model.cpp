// P13: formatting and number conversion against the C library, with guarded buffers of every size.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
// one conversion with its argument: what the C library prints for it, and how to pass it on
struct Arg { std::string spec, cspec, expect, other; int kind; long long i; unsigned long long u; double d; std::string s; int w, p; bool lit; };
static Arg mk() {
	Arg a = {}; a.kind = (int)R.below(20);
	std::string fl, wd;
	bool minus = R.chance(25), zero = R.chance(25); int w = R.chance(50) ? 0 : 1 + (int)R.below(20); if (R.chance(2)) w = 40 + (int)R.below(200);
	if (minus) fl += '-'; if (zero && w) fl += '0'; else zero = false;
	std::string f = "%" + fl + (w ? std::to_string(w) : "");
	char b[2048] = ""; auto P = [&](const char* cf, auto... x) { snprintf(b, sizeof b, cf, x...); };
	auto ri = [&]() -> unsigned long long { switch (R.below(6)) { case 0: return R.below(10); case 1: return R.next(); case 2: return 0ull - R.below(1000); case 3: return 1ull << R.below(64); case 4: return (1ull << R.below(64)) - 1; default: return R.pick<unsigned long long>({ 0, 1, 9, 10, 99, 100, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, ~0ull, 127, 128, 255, 256, 32767, 32768, 65535 }); } };
	a.u = ri(); a.i = (long long)a.u;
	switch (a.kind) {
		case 0: f += R.chance(50) ? "d" : "i"; P(f.c_str(), (int)a.i); break;
		case 1: f += "u"; P(f.c_str(), (unsigned)a.u); break;
		case 2: f += R.chance(50) ? "x" : "X"; P(f.c_str(), (unsigned)a.u); break;
		case 3: f += "o"; P(f.c_str(), (unsigned)a.u); break;
		case 4: f += "ld"; P(f.c_str(), (long)a.i); break;
		case 5: f += "lld"; P(f.c_str(), (long long)a.i); break;
		case 6: f += R.chance(50) ? "llu" : "lu"; P(f.c_str(), a.u); break;
		case 7: f += R.chance(50) ? "llx" : "lX"; P(f.c_str(), a.u); break;
		case 8: f += R.chance(50) ? "zd" : "td"; P(f.c_str(), (ssize_t)a.i); break;
		case 9: f += R.chance(50) ? "zu" : "zx"; P(f.c_str(), (size_t)a.u); break;
		case 10: f += R.chance(50) ? "hd" : "hhd"; P(f.c_str(), (int)a.i); break;
		case 11: f += R.pick<const char*>({ "hu", "hhu", "hx", "hhX" }); P(f.c_str(), (int)a.u); break;
		case 12: { if (zero) { f = "%" + std::to_string(w); } f += "c"; a.i = 1 + R.below(127); P(f.c_str(), (int)a.i); break; }
		case 13: { if (zero) { f = "%" + std::to_string(w); } if (R.chance(40)) f += "." + std::to_string(R.below(12)); f += "s"; a.s = std::string(R.below(15), 'x'); for (auto& c : a.s) c = (char)(33 + R.below(200)); P(f.c_str(), a.s.c_str()); break; }
		case 14: case 15: { // strings with a length
			if (zero) { f = "%" + std::to_string(w); } a.s = std::string(R.chance(5) ? R.below(900) : R.below(20), 'x'); for (auto& c : a.s) c = (char)(1 + R.below(255));
			P((f + ".*s").c_str(), (int)a.s.size(), a.s.c_str()); f += a.kind == 14 ? "S" : "SB"; break; }
		case 16: { // star width and precision
			a.s = std::string(R.below(15), 'x'); for (auto& c : a.s) c = (char)(33 + R.below(90)); a.w = (int)R.range(1, 20); if (R.chance(30)) a.w = -a.w; a.p = (int)R.below(20); f = "%*.*s"; P(f.c_str(), a.w, a.p, a.s.c_str()); break; }
		case 17: { // a character as often as the width says
			a.i = 1 + R.below(127); f = "%" + (w ? std::to_string(w) : "") + "r"; std::string t(w ? w : 1, (char)a.i); P("%s", t.c_str()); break; }
		case 18: { f += "p"; P((f.substr(0, f.size() - 1) + "llx").c_str(), a.u); a.other = b; P(f.c_str(), (void*)a.u); break; }
		case 19: { // flags that integers may show: as the C library does, or not at all
			std::string g = f; f.insert(1, R.pick<const char*>({ "+", " ", "#", "+ ", "-+", " #" })); if (R.chance(50)) { const char* c = R.chance(50) ? "x" : "o"; f += c; g += c; if (f.find('-') < g.find('-')) g.insert(1, "-"); P(g.c_str(), (unsigned)a.u); a.other = b; P(f.c_str(), (unsigned)a.u); a.p = 1; } else { f += "d"; g += "d"; if (f.find('-') < g.find('-')) g.insert(1, "-"); P(g.c_str(), (int)a.i); a.other = b; P(f.c_str(), (int)a.i); } break; }
	}
	a.spec = f; a.expect = b; return a;
}
static ssize call(char* buf, ssize n, Arg& a, std::string const& fmt) {
	const char* f = fmt.c_str();
	switch (a.kind) {
		case 0: return c_str_fmt(buf, n, f, (int)a.i); case 1: case 2: case 3: return c_str_fmt(buf, n, f, (unsigned)a.u);
		case 4: return c_str_fmt(buf, n, f, (long)a.i); case 5: return c_str_fmt(buf, n, f, (long long)a.i); case 6: case 7: return c_str_fmt(buf, n, f, a.u);
		case 8: return c_str_fmt(buf, n, f, (ssize_t)a.i); case 9: return c_str_fmt(buf, n, f, (size_t)a.u); case 10: return c_str_fmt(buf, n, f, (int)a.i); case 11: return c_str_fmt(buf, n, f, (int)a.u);
		case 12: return c_str_fmt(buf, n, f, (int)a.i); case 13: return c_str_fmt(buf, n, f, a.s.c_str());
		case 14: { char* e = (char*)::malloc(a.s.size() + 1); memcpy(e, a.s.data(), a.s.size()); e[a.s.size()] = R.chance(50) ? 'Z' : 0; ssize r = c_str_fmt(buf, n, f, Str{ e, (ssize)a.s.size() }); ::free(e); return r; }
		case 15: { StrBuilder sb = strbuilder_make_length(heap(), a.s.data(), a.s.size()); ssize r = c_str_fmt(buf, n, f, sb.Data); strbuilder_free(&sb); return r; }
		case 17: return c_str_fmt(buf, n, f, (int)a.i); case 18: return c_str_fmt(buf, n, f, (void*)a.u); case 19: return c_str_fmt(buf, n, f, (int)a.u);
		default: return c_str_fmt(buf, n, f, a.w, a.p, a.s.c_str());
	}
}
static std::string lit() { std::string s(R.below(R.chance(5) ? 60 : 9), ' '); for (auto& c : s) { c = (char)(1 + R.below(255)); if (c == '%') c = '.'; } return s; }
static std::string generic(std::string const& spec) { std::string r; for (char c : spec) if (!(c >= '0' && c <= '9')) r += c; return r; }
static void judge(const char* op, std::string const& fmt, std::string const& want, char* buf, ssize n, ssize res, char* raw, std::string const& key) {
	for (int i = 0; i < 16; i++) if ((unsigned char)raw[i] != 0xEE || (unsigned char)raw[16 + n + i] != 0xEE) VIOL(key + ": past the buffer", "%s of \"%s\" wrote outside its %zd bytes", op, vp_esc(fmt).c_str(), n);
	size_t len = strnlen(buf, n); if ((ssize)len >= n) VIOL(key + ": termination", "%s of \"%s\" leaves %zd bytes unterminated", op, vp_esc(fmt).c_str(), n);
	if ((ssize)want.size() < n - 1 || ((ssize)want.size() == n - 1 && res >= 0)) {
		if (res != (ssize)want.size() + 1) VIOL(key + ": length", "\"%s\" in %zd bytes returns %zd, expected %zu", vp_esc(fmt).c_str(), n, res, want.size() + 1);
		if (std::string(buf, len) != want) VIOL(key + ": text", "\"%s\" gives \"%s\", expected \"%s\"", vp_esc(fmt).c_str(), vp_esc(std::string(buf, len), 200).c_str(), vp_esc(want, 200).c_str());
		COUNT("fits");
	} else {
		if (res >= 0) VIOL(key + ": overflow unreported", "\"%s\" needs %zu bytes, has %zd, returns %zd", vp_esc(fmt).c_str(), want.size() + 1, n, res);
		if (want.compare(0, len, std::string(buf, len))) VIOL(key + ": truncation", "\"%s\" in %zd bytes leaves \"%s\", not the beginning of \"%s\"", vp_esc(fmt).c_str(), n, vp_esc(std::string(buf, len), 200).c_str(), vp_esc(want, 200).c_str());
		COUNT("does not fit");
	}
}
static void r_fmt() {
	Arg a = mk(); std::string pre = lit(), post = lit(); std::string fmt = pre + a.spec + (R.chance(20) ? "%%" : "") + post; if (a.kind == 14 && a.spec.back() == 'S' && fmt.size() > pre.size() + a.spec.size() && fmt[pre.size() + a.spec.size()] == 'B') return;
	std::string want = pre + a.expect + (fmt.size() > pre.size() + a.spec.size() + post.size() ? "%" : "") + post;
	if (! a.other.empty()) { char big[2048]; if (call(big, sizeof big, a, a.spec) > 0 && a.other == big) { want = pre + a.other + want.substr(pre.size() + a.expect.size()); COUNT("flags not shown"); } }
	HIST("%s", vp_esc(fmt).c_str());
	ssize need = (ssize)want.size() + 1;
	ssize sizes[] = { need + 1 + (ssize)R.below(60), need, need - 1, 1 + (ssize)R.below(need + 2), 1 + (ssize)R.below(8) };
	for (ssize n : sizes) { if (n < 1) continue;
		char* raw = (char*)::malloc(n + 32); memset(raw, 0xEE, n + 32); char* buf = raw + 16; memset(buf, 0x41 + (int)R.below(26), n);
		// the buffer proper is also exact, so that reads past it are seen
		ssize res = call(buf, n, a, fmt); judge("formatting", fmt, want, buf, n, res, raw, generic(a.spec)); ::free(raw);
		char* ex = (char*)::malloc(n); memset(ex, 'q', n); call(ex, n, a, fmt); ::free(ex);
	}
}
static void r_several() {
	// several values in one call
	int d = (int)R.next(); u64 u = R.next(); std::string s(R.below(9), 's'), t(R.below(30), 't'); char c = (char)('a' + R.below(26)); std::string l = lit();
	std::string fmt = l + "%d|%S|%-6d%llx %c%s%5u." + l; char w[2000]; snprintf(w, sizeof w, "%s%d|%s|%-6d%llx %c%s%5u.%s", l.c_str(), d, t.c_str(), d / 7, (unsigned long long)u, c, s.c_str(), (unsigned)u, l.c_str()); std::string want = w; HIST("several %s", vp_esc(fmt).c_str());
	for (int k = 0; k < 4; k++) { ssize n = k == 0 ? (ssize)want.size() + 20 : 1 + (ssize)R.below(want.size() + 3); char* raw = (char*)::malloc(n + 32); memset(raw, 0xEE, n + 32); ssize res = c_str_fmt(raw + 16, n, fmt.c_str(), d, Str{ t.data(), (ssize)t.size() }, d / 7, (unsigned long long)u, c, s.c_str(), (unsigned)u); judge("formatting", fmt, want, raw + 16, n, res, raw, "several"); ::free(raw); }
	// the whole family gives the same text
	if (std::string(c_str_fmt_buf("%s%d|%S", l.c_str(), d, Str{ t.data(), (ssize)t.size() })) != l + std::to_string(d) + "|" + t) VIOL("family", "c_str_fmt_buf");
	char small[64]; AllocatorInfo h = heap();
	StrBuilder a = strbuilder_fmt_buf(h, "%d %S", d, Str{ t.data(), (ssize)t.size() }); StrBuilder b = strbuilder_fmt(h, small, sizeof small, "%d %S", d, Str{ t.data(), (ssize)t.size() });
	StrBuilder e = strbuilder_make_c_str(h, "x="); strbuilder_append_fmt(&e, "%d %S", d, Str{ t.data(), (ssize)t.size() }); StrBuilder m = StrBuilder::fmt_buf(h, "%d %S", d, Str{ t.data(), (ssize)t.size() });
	std::string x = std::to_string(d) + " " + t;
	if (std::string(a, a.length()) != x) VIOL("family", "strbuilder_fmt_buf gives \"%s\"", vp_esc(std::string(a, a.length())).c_str()); if (std::string(b, b.length()) != x) VIOL("family", "strbuilder_fmt"); if (std::string(e, e.length()) != "x=" + x) VIOL("family", "strbuilder_append_fmt"); if (std::string(m, m.length()) != x) VIOL("family", "StrBuilder::fmt_buf");
	strbuilder_free(&a); strbuilder_free(&b); strbuilder_free(&e); strbuilder_free(&m); COUNT("family");
	{ // a buffer that may be too small: what fits of the text, never more
		ssize n = 1 + (ssize)R.below(x.size() + 3); char* raw = (char*)::malloc(n); memset(raw, 0xEE, n); StrBuilder k = strbuilder_fmt(h, raw, n, "%d %S", d, Str{ t.data(), (ssize)t.size() }); std::string g(k, k.length());
		if ((size_t)n > x.size() ? g != x : x.compare(0, g.size(), g) != 0) VIOL("family", "strbuilder_fmt with a buffer of %zd gives \"%s\" for \"%s\"", n, vp_esc(g).c_str(), vp_esc(x).c_str());
		strbuilder_free(&k); ::free(raw); COUNT("small buffer");
	}
	if (R.chance(2)) { // text longer than the internal buffer
		std::string big(GEN_PRINTF_MAXLEN - 40 + R.below(80), 'b'); if (R.chance(50)) big.resize(GEN_PRINTF_MAXLEN * 4 - 40 + R.below(80), 'c'); big[R.below(big.size())] = '#'; Str B = { big.data(), (ssize)big.size() };
		StrBuilder q = strbuilder_fmt_buf(h, "<%S>%d", B, d); std::string wq = "<" + big + ">" + std::to_string(d); if ((size_t)q.length() != wq.size() || memcmp(q, wq.data(), wq.size()) || q.Data[q.length()]) VIOL("long text", "%zd bytes of %zu", q.length(), wq.size());
		StrBuilder z = strbuilder_make_c_str(h, "."); bool ok = strbuilder_append_fmt(&z, "<%S>%d", B, d); if (!ok || (size_t)z.length() != wq.size() + 1 || memcmp(z.Data + 1, wq.data(), wq.size())) VIOL("long text", "append_fmt gives %zd bytes of %zu", z.length(), wq.size() + 1); strbuilder_free(&q); strbuilder_free(&z); COUNT("long text");
	}
}
static void r_float() {
	double v; bool large = R.chance(20), odd = false; switch (R.below(6)) { case 0: v = (double)R.range(-1000, 1000); break; case 1: v = (double)R.range(-100000, 100000) / 100.0; break; case 2: v = (double)(R.next() >> 12) / 4096.0; break; case 3: v = (double)R.range(-9, 9) / 8.0; break; case 4: v = (double)(long long)R.next() / 1e9; break; default: v = R.pick<double>({ 0.0, 0.5, -0.5, 0.25, 0.1, 0.001, 123456.789, -1.0, 99999999.0, 0.999999 }); }
	if (large) { if (R.chance(10)) { v = R.pick<double>({ INFINITY, -INFINITY, NAN }); odd = true; } else { v = ldexp(1.0 + (double)(R.next() >> 12) / 4503599627370496.0, 53 + (int)R.below(971)); if (R.chance(30)) v = R.pick<double>({ 1.7976931348623157e308, 9223372036854775808.0, 18446744073709551616.0, 9223372036854774784.0, 1e22, 1e300 }); if (R.chance(40)) v = -v; } }
	int prec = R.chance(40) ? -1 : 1 + (int)R.below(R.chance(20) ? 40 : 9); int w = R.chance(50) ? 0 : (int)R.below(25); std::string fmt = "%" + (w ? std::to_string(w) : "") + (prec < 0 ? "" : "." + std::to_string(prec)) + "f"; HIST("%s %a", fmt.c_str(), v);
	int p = prec < 0 ? 6 : prec; ssize n = R.chance(70) ? large ? 400 : 100 : 1 + (ssize)R.below(30);
	char* raw = (char*)::malloc(n + 32); memset(raw, 0xEE, n + 32); char* buf = raw + 16; ssize res = c_str_fmt(buf, n, fmt.c_str(), v);
	for (int i = 0; i < 16; i++) if ((unsigned char)raw[i] != 0xEE || (unsigned char)raw[16 + n + i] != 0xEE) VIOL("%f: past the buffer", "\"%s\" of %a wrote outside %zd bytes", fmt.c_str(), v, n);
	ssize len = strnlen(buf, n); if (len >= n) VIOL("%f: termination", "\"%s\"", fmt.c_str());
	if (res < 0) { char c[800]; int l = snprintf(c, sizeof c, fmt.c_str(), v); if (l + 2 < n) VIOL("%f: length", "\"%s\" of %a does not fit %zd", fmt.c_str(), v, n); ::free(raw); COUNT("float does not fit"); return; }
	if (res != len + 1) VIOL("%f: length", "returns %zd for %zd characters", res, len);
	{ // the same digits in their field: to either side of it, with zeros, with a sign
		char d[800]; std::string pr = prec < 0 ? "" : "." + std::to_string(prec); bool plus = R.chance(40), minus = R.chance(40), zero = R.chance(40), alt = R.chance(20); c_str_fmt(d, sizeof d, ("%" + pr + "f").c_str(), v);
		std::string s = d, sign; if (s[0] == '-') { sign = "-"; s.erase(0, 1); } else if (plus) sign = "+"; int fw = 1 + (int)R.below(40); std::string fl; if (plus) fl += '+'; if (minus) fl += '-'; if (alt) fl += '#'; if (zero) fl += '0'; for (size_t i = fl.size(); i-- > 1;) std::swap(fl[i], fl[R.below(i + 1)]);
		std::string f2 = "%" + fl + std::to_string(fw) + pr + R.pick<const char*>({ "f", "F" }), pad(std::max(0, fw - (int)(s.size() + sign.size())), ' '), w2 = minus ? sign + s + pad : zero && prec < 0 && ! odd ? sign + std::string(pad.size(), '0') + s : pad + sign + s; if (v != v) w2 = ""; HIST("then %s", f2.c_str());
		for (int k = 0; k < 3 && ! w2.empty(); k++) { ssize m = k == 0 ? (ssize)w2.size() + 1 + (ssize)R.below(9) : 1 + (ssize)R.below(w2.size() + 3); char* raw2 = (char*)::malloc(m + 32); memset(raw2, 0xEE, m + 32); ssize r2 = c_str_fmt(raw2 + 16, m, f2.c_str(), v);
			for (int i = 0; i < 16; i++) if ((unsigned char)raw2[i] != 0xEE || (unsigned char)raw2[16 + m + i] != 0xEE) VIOL("real field: past the buffer", "\"%s\" of %a wrote outside %zd bytes", f2.c_str(), v, m);
			if (strnlen(raw2 + 16, m) >= (size_t)m) VIOL("real field: termination", "\"%s\"", f2.c_str()); else if (m > (ssize)w2.size() + 1 || r2 >= 0) { if (r2 != (ssize)w2.size() + 1 || w2 != raw2 + 16) VIOL("real field: text", "\"%s\" of %a in %zd bytes gives \"%s\" (%zd), expected \"%s\"", f2.c_str(), v, m, raw2 + 16, r2, w2.c_str()); } else if (m > (ssize)w2.size() + 1) VIOL("real field: length", "\"%s\" of %a does not fit %zd", f2.c_str(), v, m); ::free(raw2); }
		COUNT("real field");
	}
	if (odd) { char c[400]; snprintf(c, sizeof c, "%f", v); const char* b = buf; while (*b == ' ') b++; if (strcmp(b, c) && !(v != v && !strcmp(b, "nan"))) VIOL("%f: value", "\"%s\" of %s gives \"%s\"", fmt.c_str(), c, buf); ::free(raw); COUNT("float: no number"); return; }
	if (large) { char c[800]; snprintf(c, sizeof c, fmt.c_str(), v); if (strcmp(buf, c)) VIOL("%f: value", "\"%s\" of %s gives \"%s\"", fmt.c_str(), c, buf); COUNT("float: large"); }
	char* e; double back = strtod(buf, &e); char cs[800]; snprintf(cs, sizeof cs, fmt.c_str(), v); double unit = pow(10, -p);
	if (e == buf || *e) VIOL("%f: text", "\"%s\" of %a gives \"%s\"", fmt.c_str(), v, buf);
	if (fabs(back - v) > unit + fabs(v) * 1e-13) VIOL("%f: value", "\"%s\" of %s gives \"%s\"", fmt.c_str(), cs, buf);
	const char* dot = strchr(buf, '.'); if (!dot || (int)strlen(dot + 1) != p) VIOL("%f: decimals", "\"%s\" gives \"%s\"", fmt.c_str(), buf); if (w && len < w) VIOL("%f: width", "\"%s\" gives \"%s\"", fmt.c_str(), buf);
	::free(raw); COUNT("float");
}
static std::string ndig(u64 v, int base) { if (!v) return "0"; std::string r; while (v) { r.insert(r.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz@$"[v % base]); v /= base; } return r; }
static void r_conv() {
	u64 u; switch (R.below(4)) { case 0: u = R.next(); break; case 1: u = R.below(100000); break; case 2: u = 0 - R.below(70000); break; default: u = R.pick<u64>({ 0, 1, 1ull << 63, (1ull << 63) - 1, ~0ull, 1ull << 32, 0xffffffff }) ; }
	if (R.chance(40)) u >>= R.below(64); s64 i = (s64)u; int base = (int)R.pick<int>({ 10, 10, 16, 16, 2, 3, 8, 7, 36, 64, 5, 9 }); HIST("%llx base %d", (unsigned long long)u, base);
	char b[140]; memset(b, 'y', sizeof b); u64_to_str(u, b, base); if (std::string(b) != ndig(u, base)) VIOL("u64_to_str", "%llu in base %d gives \"%s\"", (unsigned long long)u, base, b);
	memset(b, 'y', sizeof b); i64_to_str(i, b, base); std::string want = (i < 0 ? "-" : "") + ndig(i < 0 ? 0 - u : u, base); if (std::string(b) != want) VIOL("i64_to_str", "%lld in base %d gives \"%s\"", (long long)i, base, b);
	if (base <= 10 || base == 16) {
		const char* tails[] = { "", " ", "z", "-", ".5", ";", "x", "G", "_1" }; std::string tail = tails[R.below(9)]; std::string src = want; if (base == 16 && R.chance(30)) { if (src[0] == '-') src.insert(1, R.pick({"0x","0X"})); else src.insert(0, R.pick({"0x","0X"})); } if (base == 16 && R.chance(30)) for (auto& c : src) c = (char)tolower(c);
		if (base < 10 && R.chance(30)) tail = std::string(1, (char)('0' + base + R.below(10 - base))); 
		if (base == 16 && tail[0] == 'x') tail = ""; std::string full = src + tail; char* ex = strdup(full.c_str()); char* end = nullptr; s64 v = c_str_to_i64(ex, &end, base); if (v != i) VIOL("c_str_to_i64", "\"%s\" in base %d read as %lld", full.c_str(), base, (long long)v);
		if (end != ex + src.size()) VIOL("c_str_to_i64: end", "\"%s\" in base %d read up to %td, expected %zu", full.c_str(), base, end - ex, src.size());
		if (base == 10 || (base == 16 && (src.substr(0, 2) == "0x" || src.substr(0, 2) == "0X") && full.size() > 2)) { s64 z = c_str_to_i64(ex, nullptr, 0); if (z != i) VIOL("c_str_to_i64: detected base", "\"%s\" read as %lld", full.c_str(), (long long)z); } ::free(ex); COUNT("integer read back");
	} else COUNT("integer written");
	// floating text against the C library
	char fs[80]; double d = (double)(s64)(R.next() >> R.below(63)) / (double)(1 + R.below(1000)); if (R.chance(50)) d = -d; snprintf(fs, sizeof fs, R.pick<const char*>({ "%f", "%.3f", "%e", "%.12f", "%g", "%.15e", "%+.4f" }), d); if (R.chance(20)) snprintf(fs, sizeof fs, "%s%lld.%lluE%c%d", R.chance(50) ? " " : "", (long long)R.range(-99, 99), (unsigned long long)R.below(100000), "+-"[R.below(2)], (int)R.below(250));
	const char* tails[] = { "", " ", "f", ",", "..", "x" }; std::string full = std::string(fs) + tails[R.below(6)]; if (full.find("x") != std::string::npos && full.find("0x") != std::string::npos) return; HIST("%s", full.c_str()); char* ex = strdup(full.c_str()); char* e1; char* e2; double a = c_str_to_f64(ex, &e1), c = strtod(ex, &e2);
	if (e1 != e2) VIOL("c_str_to_f64: end", "\"%s\" read up to %td, expected %td", full.c_str(), e1 - ex, e2 - ex); if (fabs(a - c) > fabs(c) * 1e-12 + 1e-300) VIOL("c_str_to_f64", "\"%s\" read as %.17g", full.c_str(), a); ::free(ex); COUNT("float read");
}
static void vp_round_fn(long r) { switch (r % 8) { case 0: case 1: case 2: case 3: case 4: r_fmt(); break; case 5: r_several(); break; case 6: r_float(); break; default: r_conv(); } }
