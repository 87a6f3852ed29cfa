// P21: duplicates, comparison, lists and iteration of code objects against plain lists and the texts asked for.
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#define VP_QUIET
#include "model.h"
#include "build.h"
#include "fields.h"
static bool started; static Context ctx;
struct Kept { Code c; S t; };
static std::vector<Kept> kept;
static void keep(Code c, S const& t) { if (kept.size() < 60) kept.push_back({ c, t }); else kept[R.below(60)] = { c, t }; }
static std::vector<S> meaning(S const& t) { std::vector<S> r; for (auto& x : toks(t)) if (x[0] != '/' || x.size() < 2 || (x[1] != '/' && x[1] != '*')) r.push_back(x); return r; }   // without comments
static bool eq(Code a, Code b) { bool r = code_is_equal(a, b); COUNT(r ? "compared equal" : "compared different"); return r; }
static void must_equal(const char* key, Code a, Code b) { if (!eq(a, b)) VIOL(key, "compares different: '%s' and '%s'", code_text(a).substr(0, 300).c_str(), code_text(b).substr(0, 300).c_str()); if (!eq(b, a)) VIOL(key, "compares different the other way around: '%s'", code_text(a).substr(0, 300).c_str()); }
static void same_text(const char* key, Code c, S const& t) { S why; if (!same_tokens(code_text(c), t, why)) VIOL(key, "%s", why.c_str()); }
struct Saved { VpRng r; std::vector<Ty> ty; std::vector<N> sp; int u; };
static Saved save() { return { R, types, shared_params, uid }; }
static void restore(Saved const& s) { R = s.r; types = s.ty; shared_params = s.sp; uid = s.u; }
static bool stands_alone(Code c) { return c->Type != CT_Constructor && c->Type != CT_Constructor_Fwd && c->Type != CT_Destructor && c->Type != CT_Destructor_Fwd; }
// ---- bodies
struct MB { CodeBody c; std::vector<S> e; };
static std::vector<MB> bodies;
static bool illegal_in(CodeType b, CodeType e) { return true; }
static S all(std::vector<S> const& v) { S r; for (auto& x : v) r += x; return r; }
static void check_body(MB& m, const char* after) {
	size_t n = m.e.size(), i = 0; Code self = cast(Code, m.c);
	if (m.c->NumEntries != (s32)n) VIOL(S("body count after ") + after, "a body of %zu entries counts %d", n, m.c->NumEntries);
	if (code_has_entries(self) != (n > 0)) VIOL(S("has entries after ") + after, "a body of %zu entries", n);
	if (!code_is_body(self)) VIOL("is body", "a body is not taken for one");
	Code last = { nullptr };
	for (Code e = begin_CodeBody(m.c); e != end_CodeBody(m.c); e = next_CodeBody(m.c, e)) {
		if (i >= n) VIOL(S("iteration after ") + after, "more than %zu entries", n);
		if (e->Prev != last) VIOL(S("iteration back after ") + after, "entry %zu does not lead back", i);
		if (e->Parent != self) VIOL(S("parent after ") + after, "entry %zu of %zu belongs to another body", i, n);
		S why; if (!same_tokens(code_text(e), m.e[i], why)) VIOL(S("entry after ") + after, "entry %zu of %zu: %s", i, n, why.c_str());
		last = e; i++;
	}
	if (i != n) VIOL(S("iteration after ") + after, "%zu of %zu entries", i, n);
	if (m.c->Back != last) VIOL(S("last entry after ") + after, "the last entry is another one");
	i = 0; for (Code e : m.c) { if (i >= n || e != * code_entry(self, i)) VIOL(S("entry by index after ") + after, "entry %zu", i); i++; }
	if (i != n) VIOL(S("for loop after ") + after, "%zu of %zu entries", i, n);
	{ Code* p = code_entry(self, n + R.below(3)); if (p && * p) VIOL(S("entry past the end after ") + after, "an entry past %zu", n); }
	if (n) same_text("body text", self, m.c->Type == CT_Export_Body ? "export {\n" + all(m.e) + "\n};" : all(m.e));
	if (!code_validate_body(self)) VIOL(S("validate after ") + after, "a valid %s is not accepted", codetype_to_str(self->Type).Ptr);
	COUNT("body checked");
}
static N entry_for(CodeType t) {
	int w = t == CT_Class_Body || t == CT_Struct_Body ? IN_CLASS : t == CT_Function_Body ? IN_FN : IN_NS;
	for (;;) {
		N n; if (t == CT_Enum_Body || t == CT_Union_Body) { n.t = ident("e") + (t == CT_Enum_Body ? S(",\n") : S(";\n")); n.c = untyped_str(mk(n.t)); if (R.chance(30)) { n.t = "//note\n"; n.c = cast(Code, def_comment(mk("note"))); } return n; }
		n = w == IN_FN ? stmt() : decl(w, 1); if (stands_alone(n.c) && n.t.find("@@CLASS@@") == S::npos) return n; }
}
static void body_history() {
	bodies.clear(); static const CodeType kinds[] = { CT_Class_Body, CT_Struct_Body, CT_Function_Body, CT_Global_Body, CT_Namespace_Body, CT_Extern_Linkage_Body, CT_Export_Body, CT_Enum_Body, CT_Union_Body };
	CodeType kind = kinds[R.below(9)]; std::vector<Kept> loose;
	for (int i = R.range(1, 3); i--; ) { MB m; m.c = def_body(kind); bodies.push_back(m); check_body(bodies.back(), "making it"); }
	for (int step = R.range(4, 14); step--; ) {
		MB& m = bodies[R.below(bodies.size())]; const char* what; size_t mi = &m - &bodies[0];
		switch (R.below(9)) {
		case 0: case 1: case 2: { N n = entry_for(kind); body_append(m.c, n.c); m.e.push_back(n.t); loose.push_back({ n.c, n.t }); what = "append"; break; }
		case 3: { if (loose.empty()) continue; Kept k = loose[R.below(loose.size())]; if (R.chance(50)) body_append(m.c, k.c); else m.c.append(k.c); m.e.push_back(k.t); what = "appending an entry of a body"; break; }
		case 4: { MB& o = bodies[R.below(bodies.size())]; if (&o == &m || m.e.size() + o.e.size() > 24) continue; if (kind == CT_Export_Body && R.chance(50)) { body_append(m.c, code_duplicate(cast(Code, o.c))); m.e.push_back("export\n{\n" + all(o.e) + "};\n"); what = "appending an export body"; break; } if (kind == CT_Export_Body || R.chance(50)) body_append_body(m.c, o.c); else body_append(m.c, cast(Code, o.c)); std::vector<S> add = o.e; m.e.insert(m.e.end(), add.begin(), add.end()); what = o.e.empty() ? "appending an empty body" : "appending a body"; break; }
		case 5: { if (bodies.size() > 4) continue; MB d; d.c = cast(CodeBody, code_duplicate(cast(Code, m.c))); d.e = m.e; must_equal("duplicate of a body", cast(Code, m.c), cast(Code, d.c)); bodies.push_back(d); what = "duplicating"; break; }
		case 6: { if (m.e.empty()) continue; size_t i = R.below(m.e.size()); Code e = * code_entry(cast(Code, m.c), i); Code d = code_duplicate(e); must_equal("duplicate of an entry", e, d); if (d->Parent || d->Next || d->Prev) VIOL("duplicate is linked", "a duplicate of entry %zu is part of a list", i); same_text("duplicate of an entry", d, m.e[i]); S t = m.e[i]; body_append(m.c, d); if (d->Parent != cast(Code, m.c)) VIOL("append copies", "a node that is part of nothing is copied when it is appended"); m.e.push_back(t); what = "appending a duplicate"; break; }
		case 7: { MB& o = bodies[R.below(bodies.size())]; bool same_t = meaning(all(o.e)) == meaning(all(m.e)); bool e1 = eq(cast(Code, m.c), cast(Code, o.c)), e2 = eq(cast(Code, o.c), cast(Code, m.c)); if (e1 != e2) VIOL("equality of bodies is not symmetric", "%d and %d", e1, e2); if (e1 && !same_t) VIOL("different bodies compare equal", "'%s' and '%s'", all(m.e).c_str(), all(o.e).c_str()); if (&o == &m && !e1) VIOL("reflexive", "a body is not equal to itself"); what = "comparing"; break; }
		default: { N n = entry_for(kind); code_append(cast(Code, m.c), n.c); m.e.push_back(n.t); what = "append to the node"; break; }
		}
		HIST("%s on %zu (%zu entries)", what, mi, bodies[mi].e.size()); COUNT(S("body: ") + what);
		drop_bufs();
		for (auto& b : bodies) check_body(b, what);
	}
	{ // an entry that does not belong is found
		MB& m = bodies[R.below(bodies.size())]; Code bad; switch (R.below(3)) { case 0: bad = cast(Code, def_specifier(Spec_Const)); break; case 1: bad = cast(Code, def_param(t_int, mk("bad"))); break; default: bad = cast(Code, def_type(mk("Bad"))); }
		MB d; d.c = cast(CodeBody, code_duplicate(cast(Code, m.c))); code_append(cast(Code, d.c), bad); int more = R.below(3); while (more--) { N n = entry_for(kind); body_append(d.c, n.c); }
		bool r = code_validate_body(cast(Code, d.c)); if (r) VIOL("validate", "a %s with an entry of kind %s is accepted", codetype_to_str(kind).Ptr, codetype_to_str(bad->Type).Ptr); COUNT("body: found invalid"); drop_bufs(); for (auto& b : bodies) check_body(b, "validating");
	}
}
// ---- parameters
struct MP { CodeParams c; std::vector<S> e; };
static void check_params(MP& m, const char* after) {
	size_t n = m.e.size(), i = 0; S t; for (auto& x : m.e) t += (t.size() ? ", " : "") + x;
	if ((m.c->NumEntries > 1 ? m.c->NumEntries : 1) != (s32)n) VIOL(S("parameters count after ") + after, "%zu parameters count %d", n, m.c->NumEntries);
	if (n > 1 && !params_has_entries(m.c)) VIOL("params has entries", "%zu parameters", n);
	for (CodeParams p = begin_CodeParams(m.c); p != end_CodeParams(m.c); p = next_CodeParams(m.c, p)) {
		if (i >= n) VIOL(S("iteration of parameters after ") + after, "more than %zu", n);
		if (params_get(m.c, i) != p) VIOL(S("parameter by index after ") + after, "parameter %zu of %zu", i, n);
		if (i) { S why; if (!same_tokens(code_text(cast(Code, p)), m.e[i], why)) VIOL(S("parameter after ") + after, "parameter %zu of %zu: %s", i, n, why.c_str()); }
		i++; }
	if (i != n) VIOL(S("iteration of parameters after ") + after, "%zu of %zu", i, n);
	i = 0; for (CodeParams p : m.c) { if (p != m.c.get(i)) VIOL(S("for loop of parameters after ") + after, "parameter %zu", i); i++; } if (i != n) VIOL(S("for loop of parameters after ") + after, "%zu of %zu", i, n);
	if (params_get(m.c, n) || params_get(m.c, n + R.below(5)) || params_get(m.c, -1 - (int)R.below(3))) VIOL("parameter past the end", "of %zu parameters", n);
	same_text("parameters text", cast(Code, m.c), t); COUNT("parameters checked");
}
static void params_history() {
	std::vector<MP> v; std::vector<N> loose;
	auto fresh = []() { N r; Ty t = type(); S n = ident("p"); Opts_def_param o = {}; S x; if (R.chance(25)) { x = value_txt(); o.value = untyped_str(mk(x)); x = " = " + x; } r.c = cast(Code, def_param(t.c, mk(n), o)); r.t = t.t + " " + n + x; return r; };
	for (int i = R.range(1, 3); i--; ) { N p = fresh(); MP m; m.c = cast(CodeParams, p.c); m.e.push_back(p.t); v.push_back(m); }
	for (int step = R.range(3, 12); step--; ) {
		MP& m = v[R.below(v.size())]; const char* what;
		switch (R.below(6)) {
		case 0: case 1: { N p = fresh(); if (R.chance(50)) params_append(m.c, cast(CodeParams, p.c)); else m.c.append(cast(CodeParams, p.c)); m.e.push_back(p.t); loose.push_back(p); what = "append"; break; }
		case 2: { if (loose.empty()) continue; N p = loose[R.below(loose.size())]; params_append(m.c, cast(CodeParams, p.c)); m.e.push_back(p.t); what = "appending a parameter of a list"; break; }
		case 3: { MP& o = v[R.below(v.size())]; if (&o == &m || o.e.size() + m.e.size() > 20 || o.e.size() < 2) continue; params_append(m.c, o.c); auto add = o.e; m.e.insert(m.e.end(), add.begin(), add.end()); what = "appending a list"; break; }
		case 4: { if (v.size() > 4) continue; MP d; d.c = cast(CodeParams, code_duplicate(cast(Code, m.c))); d.e = m.e; must_equal("duplicate of parameters", cast(Code, m.c), cast(Code, d.c)); v.push_back(d); what = "duplicating"; break; }
		default: { MP& o = v[R.below(v.size())]; bool st = o.e == m.e, e1 = eq(cast(Code, m.c), cast(Code, o.c)), e2 = eq(cast(Code, o.c), cast(Code, m.c)); if (e1 != e2 || e1 != st) VIOL("comparing parameters", "lists of %zu and %zu that are %s compare %d and %d", m.e.size(), o.e.size(), st ? "the same" : "different", e1, e2); what = "comparing"; }
		}
		HIST("parameters %s", what); COUNT(S("parameters: ") + what); drop_bufs(); for (auto& p : v) check_params(p, what);
	}
}
static void define_params_history() {
	auto fresh = [](S const& n) { CodeDefineParams q = cast(CodeDefineParams, make_code()); cast(Code, q)->Type = CT_Parameters_Define; q->Name = cache_str(mk(n)); cast(Code, q)->NumEntries = 1; return q; };
	struct M { CodeDefineParams c; std::vector<S> e; }; std::vector<M> v;
	auto check = [&](const char* after) { for (auto& m : v) { size_t i = 0; S t; for (auto& x : m.e) t += (t.size() ? ", " : "") + x;
		for (CodeDefineParams p = begin_CodeDefineParams(m.c); p != end_CodeDefineParams(m.c); p = next_CodeDefineParams(m.c, p)) { if (i >= m.e.size() || text(p->Name) != m.e[i] || define_params_get(m.c, i) != p) VIOL(S("define parameters after ") + after, "entry %zu of %zu", i, m.e.size()); i++; }
		if (i != m.e.size()) VIOL(S("define parameters after ") + after, "%zu of %zu", i, m.e.size()); if (define_params_get(m.c, i)) VIOL("define parameter past the end", "of %zu", i); same_text("define parameters text", cast(Code, m.c), t); } };
	for (int i = R.range(1, 2); i--; ) { S n = ident("d"); v.push_back({ fresh(n), { n } }); }
	for (int step = R.range(2, 8); step--; ) { M& m = v[R.below(v.size())]; const char* what; switch (R.below(4)) { case 0: case 1: { S n = ident("d"); define_params_append(m.c, fresh(n)); m.e.push_back(n); what = "append"; break; } case 2: { if (v.size() > 3) continue; M d; d.c = cast(CodeDefineParams, code_duplicate(cast(Code, m.c))); d.e = m.e; must_equal("duplicate of define parameters", cast(Code, m.c), cast(Code, d.c)); v.push_back(d); what = "duplicating"; break; } default: { M& o = v[R.below(v.size())]; bool e1 = eq(cast(Code, m.c), cast(Code, o.c)), e2 = eq(cast(Code, o.c), cast(Code, m.c)); if (e1 != e2 || e1 != (m.e == o.e)) VIOL("comparing define parameters", "%d %d", e1, e2); what = "comparing"; } } HIST("define parameters %s", what); COUNT(S("define parameters: ") + what); check(what); }
}
// ---- specifiers
static void specifiers_history() {
	struct M { CodeSpecifiers c; std::vector<Specifier> e; }; std::vector<M> v; auto pick = []() { return (Specifier)R.range(Spec_Invalid + 1, R.chance(60) ? Spec_Invalid + 4 : Spec_NumSpecifiers - 1); };
	for (int i = R.range(1, 2); i--; ) { Specifier s = pick(); M m; m.c = def_specifier(s); m.e.push_back(s); v.push_back(m); }
	bool fill = R.chance(30);
	for (int step = R.range(5, 40); step--; ) {
		M& m = v[R.below(v.size())]; const char* what; Specifier s = pick();
		switch (R.below(fill ? 12 : 7)) {
		case 0: case 1: case 7: case 8: case 9: case 10: case 11: { bool r = R.chance(50) ? specifiers_append(m.c, s) : m.c.append(s); bool room = m.e.size() < (size_t)AST_ArrSpecs_Cap; if (r != room) VIOL("append to specifiers", "the append of a specifier to %zu gives %d", m.e.size(), r); if (r) m.e.push_back(s); what = r ? "append" : "append to a full list"; break; }
		case 2: case 3: { long last = -1; std::vector<long> at; std::vector<Specifier> rest; for (size_t i = 0; i < m.e.size(); i++) if (m.e[i] == s) at.push_back(i); else rest.push_back(m.e[i]); s32 r = R.chance(50) ? specifiers_remove(m.c, s) : m.c.remove(s); (void)last;
			if (at.empty() ? r != -1 : std::find(at.begin(), at.end(), (long)r) == at.end()) VIOL("remove gives", "removing a specifier that stood at %ld of %zu gives %d", at.empty() ? -1L : at[0], m.e.size(), r); m.e = rest; what = at.empty() ? "removing one that is not there" : at.size() > 1 ? "removing one that repeats" : "remove"; break; }
		case 4: { if (v.size() > 3) continue; M d; d.c = cast(CodeSpecifiers, code_duplicate(cast(Code, m.c))); d.e = m.e; must_equal("duplicate of specifiers", cast(Code, m.c), cast(Code, d.c)); v.push_back(d); what = "duplicating"; break; }
		case 5: { M& o = v[R.below(v.size())]; bool e1 = eq(cast(Code, m.c), cast(Code, o.c)), e2 = eq(cast(Code, o.c), cast(Code, m.c)); if (e1 != e2 || e1 != (m.e == o.e)) VIOL("comparing specifiers", "%d %d", e1, e2); what = "comparing"; break; }
		default: { long at = std::find(m.e.begin(), m.e.end(), s) - m.e.begin(); bool is = at < (long)m.e.size(); if (specifiers_has(m.c, s) != is || m.c.has(s) != is) VIOL("specifiers has", "%d", is); if (specifiers_index_of(m.c, s) != (is ? at : -1)) VIOL("specifiers index", "%d rather than %ld", specifiers_index_of(m.c, s), at); what = "asking"; }
		}
		HIST("specifiers %s %d", what, (int)s); COUNT(S("specifiers: ") + what);
		if (R.chance(20)) {   // a list that is not there, a specifier that does not exist
			CodeSpecifiers none = { nullptr }; Specifier bad = R.pick<Specifier>({ Spec_Invalid, Spec_NumSpecifiers, (Specifier)-1, (Specifier)1000 });
			if (specifiers_append(none, s)) VIOL("append to no specifiers", "is said to succeed"); if (specifiers_remove(none, s) != -1) VIOL("remove from no specifiers", "is said to succeed"); if (begin_CodeSpecifiers(none) != end_CodeSpecifiers(none)) VIOL("iterating no specifiers", "has entries");
			if (specifiers_append(v.back().c, bad)) VIOL("append of an unknown specifier", "%d is accepted", (int)bad); COUNT("specifiers: nothing and unknown"); }
		for (auto& q : v) { if (q.c->NumEntries != (s32)q.e.size()) VIOL(S("specifiers count after ") + what, "%zu specifiers count %d", q.e.size(), q.c->NumEntries); size_t i = 0; for (Specifier* p = begin_CodeSpecifiers(q.c); p != end_CodeSpecifiers(q.c); p = next_CodeSpecifiers(q.c, p)) { if (i >= q.e.size() || * p != q.e[i]) VIOL(S("specifiers after ") + what, "specifier %zu of %zu", i, q.e.size()); i++; }
			S t; for (auto x : q.e) t += text(spec_to_str(x)) + " "; if (q.e.size()) same_text("specifiers text", cast(Code, q.c), t); }
	}
}
// ---- trees that are the same, trees that differ in a part
static void add_interfaces() {
	Saved s0 = save(); bool is_class = R.chance(50); N n; for (;;) { n = record(IN_GLOBAL, 1, is_class, false); size_t at = n.t.find("\n{"); S head = n.t.substr(0, at); if (head.find(" : ") == S::npos && head.find("final") == S::npos) break; }
	S head = n.t.substr(0, n.t.find("\n{")), rest = n.t.substr(head.size()); Code twin = { nullptr }; (void)s0; std::vector<S> used; S list; std::vector<Kept> ty;
	for (int k = R.range(1, 4); k--; ) { S p; CodeTypename c = plain_type(p); if (std::find(used.begin(), used.end(), p) != used.end()) continue; used.push_back(p); ty.push_back({ cast(Code, c), p });
		twin = code_duplicate(n.c); S before = head + (list.empty() ? S() : " : public " + list) + rest;
		if (is_class) class_add_interface(cast(CodeClass, n.c), c); else struct_add_interface(cast(CodeStruct, n.c), c);
		list += list.empty() ? p : (is_class ? ", public " : ", ") + p; same_text("interface added", n.c, head + " : public " + list + rest); HIST("interface %s", p.c_str());
		if (used.size() == 1) { same_text("a duplicate changed by adding an interface", twin, before); }
		if (eq(n.c, twin) && used.size() == 1) VIOL("interface compares equal", "a record with an interface is equal to one without"); for (auto& t : ty) same_text("a type used as interface changed", t.c, t.t); COUNT("interface added"); }
}
static N make(int k) { N n; if (k < 6) n = decl(IN_GLOBAL, 2); else if (k < 8) n = record(IN_GLOBAL, 2, k == 6, false); else if (k == 8) { N p = params(1, 4); n = p; n.parses = false; } else { n = body(IN_GLOBAL, CT_Global_Body, 1, 4, 2); } return n; }
static std::map<S, std::vector<Code>> donors;    // by role
static void exchange(Code a, Code b, const char* how) {      // b was made as a was; every part that shows in the text counts
	Fields fs; fs.walk(b.ast); if (fs.f.empty()) return; S ta = code_text(a); bool ro = false; (void)ro;
	for (int i = 0; i < 8; i++) {
		static std::map<S, long> tried; auto role = [](Field const& f) { return S(f.n) + " of " + codetype_to_str(f.a->Type).Ptr; };   // seldom tried parts first
		Field f = fs.f[R.below(fs.f.size())]; for (int k = 0; k < 4; k++) { Field g = fs.f[R.below(fs.f.size())]; if (tried[role(g)] < tried[role(f)]) f = g; } S what = role(f); tried[what]++; Code old = { nullptr }; Str olds = {}; long oldn = 0;
		if (f.kid) { old = * f.kid; auto& d = donors[S(f.n) + (f.kid->ast ? codetype_to_str((*f.kid)->Type).Ptr : "")]; Code n = { nullptr }; if (!f.optional || R.chance(60)) { if (d.size()) n = d[R.below(d.size())]; } if (!n && !f.optional) continue; if (n == old) continue; * f.kid = n; }
		else if (f.str) { olds = * f.str; * f.str = cache_str(mk(R.chance(50) ? ident("Other") : text(olds) + "x")); if (f.str->Ptr == olds.Ptr) continue; }
		else { long v = 0; memcpy(&v, f.num, f.size); oldn = v; v = R.range(f.lo, f.hi); if (v == oldn) continue; memcpy(f.num, &v, f.size); }
		HIST("%s: %s", how, what.c_str()); S tb, t2; bool ok = !TRAPS(tb = code_text(b)) && !TRAPS(t2 = code_text(a));
		if (ok && meaning(tb) != meaning(t2)) { bool e1 = true, e2 = true; if (TRAPS(e1 = eq(a, b)) || TRAPS(e2 = eq(b, a))) VIOL("comparing stops", "%s", what.c_str()); if (e1 || e2) { S why; same_tokens(tb, t2, why); VIOL("trees with different parts compare equal: " + what, "%d %d: %s", e1, e2, why.c_str()); } COUNT("exchanged " + what); }
		else COUNT("exchanged without effect");
		if (f.kid) * f.kid = old; else if (f.str) * f.str = olds; else memcpy(f.num, &oldn, f.size);
	}
	for (int i = 0; i < 6; i++) { Field f = fs.f[R.below(fs.f.size())]; if (f.kid && f.kid->ast) { auto& d = donors[S(f.n) + codetype_to_str((*f.kid)->Type).Ptr]; Code c = * f.kid; if (d.size() < 12) d.push_back(c); else d[R.below(12)] = c; } }
	if (code_text(a) != ta) VIOL("harness", "a part is not put back");
}
static void compare() {
	int k = R.below(10); Saved s0 = save(); s0.r.n = 0;
	restore(s0); N a = make(k); long draws = R.n; Saved s1 = save();
	restore(s0); N b = make(k);
	drop_bufs();
	if (toks(a.t) != toks(b.t)) VIOL("harness", "a replay differs");
	must_equal("the same request made twice", a.c, b.c); must_equal("reflexive", a.c, a.c);
	{ Code d = code_duplicate(a.c); must_equal("duplicate", a.c, d); same_text("duplicate text", d, a.t); if (d->Parent || (d->Type != CT_Parameters && d->Type != CT_Parameters_Define && !code_is_body(d) && d->Prev)) VIOL("duplicate is linked", "a duplicate is part of something"); Code d2 = code_duplicate(d); must_equal("duplicate of a duplicate", d2, a.c); keep(d2, a.t); COUNT("duplicated"); }
	CodeBody pa = { nullptr }, pb = { nullptr }; bool ascii = true; for (unsigned char c : a.t) if (c > 127) ascii = false;
	if (a.parses && ascii && a.t.size() < 4000 && k != 8) { if (TRAPS(pa = parse_global_body(Str{ a.t.c_str(), (ssize)a.t.size() }))) pa.ast = nullptr; else { if (TRAPS(pb = parse_global_body(Str{ a.t.c_str(), (ssize)a.t.size() }))) pb.ast = nullptr; else { must_equal("the same text parsed twice", cast(Code, pa), cast(Code, pb)); Code d = code_duplicate(cast(Code, pa)); must_equal("duplicate of a parsed body", d, cast(Code, pa)); S why; if (!same_tokens(code_text(d), code_text(cast(Code, pa)), why)) VIOL("duplicate of a parsed body", "%s", why.c_str()); COUNT("parsed and compared"); } } }
	std::vector<S> ma = meaning(a.t);
	for (int i = 0; i < 4 && draws > 0; i++) {
		restore(s0); R.flip = s1.r.below(draws); N c = make(k); HIST("with draw %ld changed", R.flip); R.flip = -1; drop_bufs();
		if (meaning(c.t) == ma) { COUNT("changed request with the same meaning"); if (eq(a.c, c.c) != eq(c.c, a.c)) VIOL("not symmetric", "'%s' '%s'", a.t.c_str(), c.t.c_str()); continue; }
		COUNT(S("different ") + codetype_to_str(a.c->Type).Ptr);
		bool e1 = eq(a.c, c.c), e2 = eq(c.c, a.c);
		if (e1 || e2) { S why; same_tokens(a.t, c.t, why); VIOL(S("different code compares equal: ") + codetype_to_str(a.c->Type).Ptr, "%d %d: %s", e1, e2, why.c_str()); }
		if (pa && c.parses && c.t.size() < 4000) { CodeBody pc = { nullptr }; bool asc = true; for (unsigned char x : c.t) if (x > 127) asc = false; if (asc && !TRAPS(pc = parse_global_body(Str{ c.t.c_str(), (ssize)c.t.size() })) && pc) { bool e1 = eq(cast(Code, pa), cast(Code, pc)), e2 = eq(cast(Code, pc), cast(Code, pa)); if (e1 || e2) { S why; same_tokens(a.t, c.t, why); VIOL("different parsed code compares equal", "%d %d: %s", e1, e2, why.c_str()); } COUNT("different parsed"); } }
		same_text("compared code changed", a.c, a.t); same_text("compared code changed", c.c, c.t);
	}
	restore(s1);
	{ Str d = code_debug_str(a.c); if (d.Len <= 0 || !d.Ptr) VIOL("description", "no description"); S dt = text(d); COUNT("described"); }
	if (pa && pb) exchange(cast(Code, pa), cast(Code, pb), "parsed"); exchange(a.c, b.c, "built"); must_equal("after exchanging parts", a.c, b.c);
	keep(a.c, a.t); keep(b.c, a.t);
}
static void vp_round_fn(long r) {
	if (!started) { init(&ctx); started = true; }
	if (r % 150 == 149) { reset(&ctx); types.clear(); shared_params.clear(); kept.clear(); bodies.clear(); donors.clear(); }
	uid = r * 1000 % 1000000; R.flip = -1;
	switch (R.below(8)) { case 0: case 1: body_history(); break; case 2: params_history(); break; case 3: if (R.chance(40)) define_params_history(); else specifiers_history(); break; case 4: add_interfaces(); break; default: compare(); }
	drop_bufs();
	for (int i = 0; i < 2 && kept.size(); i++) { Kept& q = kept[R.below(kept.size())]; COUNT("earlier node re-read"); same_text("earlier node changed", q.c, q.t); }
}
