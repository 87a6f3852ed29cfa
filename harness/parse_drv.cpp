// Replays parse/serialize cases. Case fields: kind, src, opt (letters), macros (lines "type flags name").
//  opt: d=dump tree, l=tokens, t=serialize, n=keep the context of the previous case, z=exact-size buffer without terminator
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#include "vpio.h"
#include "astwalk.h"
using namespace gen;
static Code parse_kind(std::string const& k, Str s) {
#define K(n) if (k == #n) return (Code)parse_##n(s);
	K(class) K(constructor) K(define) K(destructor) K(enum) K(export_body) K(extern_link) K(friend) K(function) K(global_body) K(namespace) K(operator) K(operator_cast) K(struct) K(template) K(type) K(typedef) K(union) K(using) K(variable)
	fprintf(stderr, "unknown kind %s\n", k.c_str()); exit(5);
}
static Context* ctx;
static bool own_heap;   // every array, table and string builder in a block of its own, next to red zones
static void fresh() {
	ctx = (Context*)calloc(1, sizeof(Context));
	if (own_heap) { ctx->Allocator_DyanmicContainers = ctx->Allocator_Pool = ctx->Allocator_StrCache = ctx->Allocator_Temp = heap(); ctx->CodePool_NumBlocks = 512; ctx->InitSize_LexerTokens = 16; }
	init(ctx);
}
#ifdef VP_LEX
static void put_toks() {
	std::string r; char b[160];
	for (ssize i = 0; i < array_num(_ctx->Lexer_Tokens); i++) {
		Token t = _ctx->Lexer_Tokens[i];
		Str ts = toktype_to_str(t.Type);
		snprintf(b, sizeof b, "%d %d %d %u %.*s %ld ", (int)t.Line, (int)t.Column, (int)t.Type, (unsigned)t.Flags, (int)ts.Len, ts.Ptr, (long)t.Text.Len); r += b;
		r += vp_esc(vp_str(t.Text)); r += "\n";
	}
	vp_field("toks", r);
}
#endif
int main(int argc, char** argv) {
	std::vector<VpCase> cs = vp_read(argv[1]); vp_open(argv[2]);
	own_heap = argc > 3 && strchr(argv[3], 'h');
	fresh(); bool dirty = false;
	for (int i = 0; i < (int)cs.size(); i++) {
		VpCase& c = cs[i]; std::string opt = c["opt"], src = c["src"];
		if (dirty) { fresh(); dirty = false; }
		else if (opt.find('n') == std::string::npos && i) { deinit(ctx); free(ctx); fresh(); }
		char* buf;
		if (opt.find('z') != std::string::npos) { buf = (char*)malloc(src.size() ? src.size() : 1); memcpy(buf, src.data(), src.size()); }
		else { buf = (char*)malloc(src.size() + 1); memcpy(buf, src.data(), src.size()); buf[src.size()] = 0; }
		vp_start(i);
		vp_jb_on = 1;
		if (setjmp(vp_jb) == 0) {
			{ std::string m = c["macros"]; size_t p = 0;
			  while (p < m.size()) { size_t e = m.find('\n', p); if (e == std::string::npos) e = m.size(); int ty, fl; char nm[256];
				if (sscanf(m.substr(p, e - p).c_str(), "%d %d %255s", &ty, &fl, nm) == 3) { Macro mm; memset(&mm, 0, sizeof mm); mm.Name = cache_str(Str{nm, (ssize)strlen(nm)}); mm.Type = (MacroType)ty; mm.Flags = (MacroFlags)fl; register_macro(mm); }
				p = e + 1; } }
#ifdef VP_LEX
			if (c["kind"] == "lex") {
				TokArray ta = lex(Str{ buf, (ssize)src.size() });
				vp_jb_on = 0;
				if (!ta.Arr) { dirty = true; free(buf); vp_end("INVALID"); continue; }
				memset(buf, 'X', src.size()); free(buf);
				put_toks(); vp_end("OK"); continue;
			}
#endif
			if (c.count("before")) { std::string o = c["before"]; parse_kind(c.count("before_kind") ? c["before_kind"] : std::string("global_body"), Str{ o.c_str(), (ssize)o.size() }); }
			Code r = parse_kind(c["kind"], Str{ buf, (ssize)src.size() });
			if (!r.ast || !code_is_valid(r)) { vp_jb_on = 0; vp_field("msg", "invalid"); free(buf); dirty = true; vp_end("INVALID"); continue; }
			// the source may be gone: everything kept must be the library's own
			memset(buf, 'X', src.size());
			vp_field("type", vp_str(code_type_str(r)));
			if (opt.find('t') != std::string::npos) { StrBuilder o = code_to_strbuilder(r); vp_field("text", (char*)o, (size_t)strbuilder_length(o)); }
			if (opt.find('d') != std::string::npos) {
				VpWalk w; w.walk(r.ast, "root"); vp_field("dump", w.dump); std::string b; for (auto& x : w.bad) b += x + "\n"; vp_field("bad", b);
				vp_field("nodes", std::to_string(w.nodes)); std::string k; for (auto& x : w.kinds) k += x + "\n"; vp_field("kinds", k);
			}
			vp_jb_on = 0; free(buf); vp_end("OK");
		} else {
			vp_jb_on = 0; char b[300]; snprintf(b, sizeof b, "%s:%d", vp_trap_file, vp_trap_line); vp_field("msg", b); free(buf); dirty = true; vp_end("TRAP");
		}
	}
	fclose(vp_o);
	return 0;
}
