// P06: construction functions against an independent description of what was asked for.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
#include "build.h"
#include "fields.h"
#include "direct.h"
static bool started; static Context ctx;
static std::vector<N> kept;
static void directly(Code c, const char* how) {      // every node of the tree, by every way there is to serialize it
	Fields fs; fs.walk(c.ast); int left = 24;
	for (AST* a : fs.seen) {
		if (fs.seen.size() > 24 && !R.chance(100 * 24 / (int)fs.seen.size() + 1)) continue; if (!left--) break;
		std::vector<std::pair<const char*, S>> v; Code n = { a }; S t = code_text(n); if (!direct_texts(n, v)) continue;
		for (auto& x : v) if (x.second != t) VIOL(S("direct serialization: ") + x.first, "%s node: '%s' where the node gives '%s'", how, x.second.substr(0, 300).c_str(), t.substr(0, 300).c_str());
		COUNT(S("serialized directly: ") + codetype_to_str(a->Type).Ptr);
	}
}
static void vp_round_fn(long r) {
	if (!started) { init(&ctx); started = true; }
	if (r % 400 == 399) { reset(&ctx); types.clear(); shared_params.clear(); kept.clear(); }
	uid = r * 1000 % 1000000;
	N n; int k = R.below(10); const char* who;
	if (k < 5) { n = body(IN_GLOBAL, CT_Global_Body, 1, 5, 3); who = "file body"; }
	else if (k < 8) { n = decl(IN_GLOBAL, 3); who = codetype_to_str(n.c->Type).Ptr; }
	else if (k == 8) { n = record(IN_GLOBAL, 3, R.chance(50), false); who = "record"; }
	else { N b = body(IN_GLOBAL, CT_Export_Body, 1, 4, 2); n.c = b.c; n.t = "export\n{\n" + b.t + "};\n"; n.parses = false; who = "export body"; }
	drop_bufs();
	if (!n.c || n.c == Code_Invalid || n.c->Type == CT_Invalid) VIOL("refused", "no node for a valid request");
	S got = code_text(n.c), why;
	if (!same_tokens(got, n.t, why)) VIOL(S("text of ") + who, "%s", why.c_str());
	if (code_text(n.c) != got) VIOL("text twice", "a second serialization differs");
	directly(n.c, "built");
	bool ascii = true; for (unsigned char c : n.t) if (c > 127) ascii = false;
	if (ascii && n.parses && toks(n.t).size()) {
		COUNT("parsed for comparison"); CodeBody p = { nullptr };
		if (TRAPS(p = parse_global_body(Str{ n.t.c_str(), (ssize)n.t.size() }))) { COUNT("parser refuses"); if (getenv("VP_REFUSED")) fprintf(stderr, "REFUSED %s\n", n.t.c_str()); } else if (p) {
			S pt = code_text(cast(Code, p)); if (!same_tokens(pt, got, why)) VIOL("parsed differs", "the same text parsed serializes differently: %s", why.c_str()); directly(cast(Code, p), "parsed"); }
	}
	// nodes of earlier rounds are not changed by building others from the same parts
	if (kept.size() < 60) kept.push_back(n); else kept[R.below(60)] = n;
	for (int i = 0; i < 2; i++) { N& q = kept[R.below(kept.size())]; COUNT("earlier node re-read"); if (!same_tokens(code_text(q.c), q.t, why)) VIOL("earlier node changed", "%s", why.c_str()); }
}
