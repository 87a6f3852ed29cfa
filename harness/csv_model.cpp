// P14: tables and trees against plain lists: cells in order, what is written parsed again, malformed tables, and the functions on trees.
#define VP_QUIET
#include "base/gen.cpp"
#undef min
#undef max
#undef swap
#undef malloc
#undef mfree
#include "model.h"
using namespace gen;
typedef std::string S;
typedef std::vector<std::vector<S>> T;
static std::map<void*, size_t> blocks;
static void* alloc_proc(void*, AllocType t, ssize size, ssize, void* old, ssize old_size, u64) {
	switch (t) {
	case EAllocation_ALLOC: { void* p = nullptr; posix_memalign(&p, 16, size ? size : 1); memset(p, 0xCD, size); blocks[p] = size; return p; }
	case EAllocation_FREE: if (old) { if (!blocks.erase(old)) VIOL("allocator", "freed something that was not allocated"); ::free(old); } return nullptr;
	case EAllocation_RESIZE: { void* p = nullptr; posix_memalign(&p, 16, size ? size : 1); blocks[p] = size; if (old) { memcpy(p, old, (size_t)std::min(size, old_size)); blocks.erase(old); ::free(old); } return p; }
	default: return nullptr; }
}
static AllocatorInfo A() { AllocatorInfo a = { alloc_proc, nullptr }; return a; }
struct Text { char* p; size_t n; Text(S const& s) { n = s.size(); p = (char*)::malloc(n + 1); memcpy(p, s.data(), n); p[n] = 0; } ~Text() { ::free(p); } };
static char delim; static bool spacy;
static S cell(bool& quoted) {
	S c; int k = (int)R.below(9); quoted = R.chance(35);
	if (k == 0) ;
	else if (k == 1) c = vp_fmt("%ld", R.range(-99999, 99999));
	else if (k == 2) c = R.pick({ "0x1F", "0xdeadbeef", "0X0", "1.5", "-3e5", "007", "0x", "0xG", "nan", "1,5", "0xFFFFFFFFFFFFFFFFFF" });
	else if (k == 3) { for (int i = 1 + (int)R.below(6); i > 0; i--) c += R.pick({ "\"", ",", "\n", " ", "\t", ";", "a", "\r\n", "\"\"", "'", "\\" }); quoted = true; }
	else if (k == 4) { for (int i = 1 + (int)R.below(40); i > 0; i--) c += (char)R.range(1, 255); quoted = true; }
	else if (k == 5) { c = S(R.pick({ "a b", "a\tb  c", "x y z", "a'b", "a\"b", "a\"\"", "%s%n", "\xc3\xa9", "#", "//", "0x12 34" })); }
	else for (int i = 1 + (int)R.below(12); i > 0; i--) c += (char)('a' + R.below(26));
	bool needs = false; for (char x : c) if (x == delim || x == '\n') needs = true; if (!c.empty() && (isspace((unsigned char)c[0]) || isspace((unsigned char)c.back()) || c[0] == '"')) needs = true;
	if (needs) quoted = true; return c;
}
static S blank(bool nl = false) { S r; if (!spacy) return r; for (int i = (int)R.below(3); i > 0; i--) { char c = R.pick({ ' ', '\t', '\r' }); if (c != delim) r += c; } (void)nl; return r; }
static S shown(S const& c, bool q) { if (!q) return c; S r = "\""; for (char x : c) { r += x; if (x == '"') r += x; } return r + "\""; }
struct Tab { T rows; std::vector<std::vector<bool>> q; S text; };
static Tab table() {
	Tab t; int rows = 1 + (int)R.below(R.chance(10) ? 60 : 6), cols = 1 + (int)R.below(R.chance(10) ? 30 : 5); S nl = R.chance(25) ? "\r\n" : "\n"; bool end = R.chance(75);
	if (R.chance(15)) for (int i = (int)R.below(3); i >= 0; i--) t.text += nl;
	for (int r = 0; r < rows; r++) {
		t.rows.push_back({}); t.q.push_back({});
		for (int c = 0; c < cols; c++) { bool q; S v = cell(q); if (cols == 1 && v.empty()) q = true; t.rows[r].push_back(v); t.q[r].push_back(q); t.text += (c ? S(1, delim) : S()) + blank() + shown(v, q) + blank(); }
		if (r + 1 < rows || end) { t.text += nl; if (R.chance(8)) t.text += blank() + nl; }
	}
	return t;
}
static S value(ADT_Node* n) { return n->string ? S(n->string) : S("<null>"); }
static void same(CSV_Object* o, T const& t, bool header, const char* when) {
	size_t cols = t[0].size(), rows = t.size() - header;
	if (o->type != (header ? EADT_TYPE_OBJECT : EADT_TYPE_ARRAY)) VIOL("table kind", "the table is of kind %d (%s)", (int)o->type, when);
	if (array_num(o->nodes) != cols) VIOL("columns", "%d columns of %zu (%s)", (int)array_num(o->nodes), cols, when);
	for (size_t c = 0; c < cols; c++) {
		ADT_Node* col = o->nodes + c; if (col->type != EADT_TYPE_ARRAY) VIOL("table kind", "column %zu is of kind %d (%s)", c, (int)col->type, when);
		if (array_num(col->nodes) != rows) VIOL("rows", "column %zu has %d rows of %zu (%s)", c, (int)array_num(col->nodes), rows, when);
		if (header ? !col->name || t[0][c] != col->name : col->name != nullptr) VIOL("header", "column %zu is called %s, not %s (%s)", c, col->name ? col->name : "<null>", header ? t[0][c].c_str() : "<null>", when);
		if (col->parent != o) VIOL("parents", "the parent of a column is another node (%s)", when);
		for (size_t r = 0; r < rows; r++) { ADT_Node* n = col->nodes + r; S const& want = t[r + header][c]; if (n->type != EADT_TYPE_STRING) VIOL("cell", "row %zu of column %zu is of kind %d (%s)", r, c, (int)n->type, when); if (value(n) != want) VIOL("cell", "row %zu of column %zu is \"%s\", not \"%s\" (%s)", r, c, vp_esc(value(n), 300).c_str(), vp_esc(want, 300).c_str(), when); COUNT("cells"); }
	}
}
static S written(CSV_Object* o) {
	if (delim == ',' && R.chance(50)) { StrBuilder s = csv_write_string(A(), o); S r(s, strbuilder_length(s)); strbuilder_free(&s); return r; }
	if (R.chance(50)) { StrBuilder s = csv_write_strbuilder_delimiter(A(), o, delim); S r(s, strbuilder_length(s)); strbuilder_free(&s); return r; }
	FileInfo f; file_stream_new(&f, A()); if (delim == ',' && R.chance(50)) csv_write(&f, o); else csv_write_delimiter(&f, o, delim); ssize n; u8* b = file_stream_buf(&f, &n); S r((char*)b, n); file_close(&f); return r;
}
static u8 parse(CSV_Object* o, Text& t, bool header) { memset(o, 0xA5, sizeof *o); return delim == ',' && R.chance(50) ? csv_parse(o, t.p, A(), header) : csv_parse_delimiter(o, t.p, A(), header, delim); }
static void pick_delim() { delim = R.chance(60) ? ',' : R.pick({ ';', '\t', '|', ':', ' ' }); spacy = R.chance(40); }
static void leaks(const char* w) { if (!blocks.empty()) VIOL("leak", "%zu blocks are left (%s)", blocks.size(), w); }
static void tables() {
	pick_delim(); Tab t = table(); bool header = R.chance(50); HIST("table with '%c', header %d: %s", delim, header, vp_esc(t.text, 1500).c_str());
	Text x(t.text); CSV_Object o; u8 e = parse(&o, x, header); if (e) VIOL("refused", "a table of %zu rows and %zu columns is refused with %d", t.rows.size(), t.rows[0].size(), e);
	same(&o, t.rows, header, "parsed"); S w = written(&o); same(&o, t.rows, header, "after it was written"); HIST("written: %s", vp_esc(w, 1500).c_str());
	Text y(w); CSV_Object p; u8 e2 = parse(&p, y, header); if (e2) VIOL("written table", "what was written is refused with %d", e2); same(&p, t.rows, header, "written and parsed");
	for (size_t c = 0; c < t.rows[0].size(); c++) for (size_t r = 0; r + header < t.rows.size(); r++) if (o.nodes[c].nodes[r].name_style != p.nodes[c].nodes[r].name_style) VIOL("written table", "row %zu of column %zu changed its quotes", r, c);
	S w2 = written(&p); if (w2 != w) VIOL("written table", "written again it is another text: %s", vp_esc(w2, 800).c_str());
	csv_free(&o); csv_free(&p); leaks("tables"); COUNT(header ? "tables with a header" : "tables without a header");
}
static void malformed() {
	pick_delim(); delim = delim == ' ' ? ',' : delim; spacy = false; Tab t = table(); bool header = R.chance(30); S s; int kind = (int)R.below(5); size_t cols = t.rows[0].size(), at = R.below(t.rows.size());
	if (kind <= 1 && t.rows.size() < 2) kind = 2;
	auto row = [&](size_t r, int drop, int add) { S l; size_t n = cols - drop; for (size_t c = 0; c < n; c++) l += (c ? S(1, delim) : S()) + shown(t.rows[r][c], t.q[r][c]); for (int i = 0; i < add; i++) l += S(1, delim) + "z"; return l; };
	switch (kind) {
	case 0: if (cols < 2) { kind = 1; } else { if (!at) at = 1; for (size_t r = 0; r < t.rows.size(); r++) { S l = row(r, r == at ? 1 + (int)R.below(cols - 1) : 0, 0); if (l.find_first_not_of(" \t\r\n") == S::npos) return; s += l + "\n"; } break; }
	case 1: if (!at) at = 1; for (size_t r = 0; r < t.rows.size(); r++) s += row(r, 0, r == at ? 1 + (int)R.below(3) : 0) + "\n"; break;
	case 2: s = row(0, 0, 0) + "\n"; for (size_t c = 0; c < cols; c++) s += (c ? S(1, delim) : S()) + (c == cols - 1 ? S("\"") + R.pick({ "", "abc", "a\"\"", "x\ny", "\"\"" }) : "q"); break;
	case 3: s = R.pick({ "", "\n", "  \n  \n", "\r\n\r\n", " " }); break;
	default: for (size_t c = 0; c < cols; c++) s += (c ? S(1, delim) : S()) + (c == cols - 1 ? S("\"ab\"") + R.pick({ "x", "-", " y", "x\ny" }) : "q"); s += "\n"; if (delim == 'x' || delim == '-') return; }
	HIST("malformed %d with '%c', header %d: %s", kind, delim, header, vp_esc(s, 1500).c_str()); Text x(s); CSV_Object o; u8 e = parse(&o, x, header);
	if (!e) VIOL("malformed", "a table with %s is taken", kind == 0 ? "a short row" : kind == 1 ? "a long row" : kind == 2 ? "an open quote" : kind == 3 ? "nothing in it" : "text after a quote");
	if ((kind <= 1) && e != ECSV_Error__MISMATCHED_ROWS) VIOL("malformed", "rows of different length are reported as %d", e);
	csv_free(&o); leaks("malformed"); COUNT(vp_fmt("malformed %d", kind));
}
static void corrupted() {
	pick_delim(); Tab t = table(); S s = t.text; for (int k = 1 + (int)R.below(6); k > 0; k--) { if (s.empty()) break; size_t i = R.below(s.size()); switch (R.below(4)) { case 0: s.erase(i, 1 + R.below(3)); break; case 1: s.insert(i, 1, R.pick({ '"', delim, '\n', '\r', ' ', '\t', 'x' })); break; case 2: s[i] = (char)R.range(1, 255); break; default: s.resize(i); } }
	bool header = R.chance(40); HIST("corrupted '%c' %d: %s", delim, header, vp_esc(s, 1500).c_str()); Text x(s); CSV_Object o; u8 e = parse(&o, x, header);
	if (!e) { T got; size_t cols = array_num(o.nodes), rows = cols ? array_num(o.nodes[0].nodes) : 0; if (header) { got.push_back({}); for (size_t c = 0; c < cols; c++) got[0].push_back(o.nodes[c].name ? o.nodes[c].name : "<null>"); }
		for (size_t c = 0; c < cols; c++) if (array_num(o.nodes[c].nodes) != rows) VIOL("malformed", "a table with columns of %zu and %d rows is taken", rows, (int)array_num(o.nodes[c].nodes));
		for (size_t r = 0; r < rows; r++) { got.push_back({}); for (size_t c = 0; c < cols; c++) got.back().push_back(value(&o.nodes[c].nodes[r])); }
		S w = written(&o); Text y(w); CSV_Object p; bool blankrow = false; for (auto& r : got) if (r.size() == 1 && r[0].empty()) blankrow = true;
		u8 e2 = parse(&p, y, header); if (!blankrow) { if (e2) VIOL("written table", "what was written is refused with %d: %s", e2, vp_esc(w, 600).c_str()); same(&p, got, header, "corrupted, written and parsed"); } csv_free(&p); COUNT("corrupted and taken"); }
	else COUNT("corrupted and refused");
	csv_free(&o); leaks("corrupted");
}
// ---- trees
struct M { S name; int type; S str; s64 num = 0; f64 real = 0; std::vector<M*> kids; M* up = nullptr; };
static std::vector<char*> texts; static char const* keep(S const& s) { char* p = (char*)::malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); texts.push_back(p); return p; }
static std::vector<M*> pool; static M* mk(int type, S name) { M* m = new M; m->type = type; m->name = name; pool.push_back(m); return m; }
static bool box(M* m) { return m->type == EADT_TYPE_OBJECT || m->type == EADT_TYPE_ARRAY; }
static void same_tree(ADT_Node* n, M* m, ADT_Node* up, const char* op) {
	if (n->type != m->type) VIOL("tree", "a node is of kind %d, not %d (%s)", (int)n->type, m->type, op);
	if (S(n->name ? n->name : "") != m->name) VIOL("tree", "a node is called %s, not %s (%s)", n->name ? n->name : "", m->name.c_str(), op);
	if (n->parent != up) VIOL("tree parents", "the parent of %s is not the node it is in (%s)", m->name.c_str(), op);
	if (m->type == EADT_TYPE_STRING && S(n->string) != m->str) VIOL("tree", "value"); if (m->type == EADT_TYPE_INTEGER && n->integer != m->num) VIOL("tree", "value"); if (m->type == EADT_TYPE_REAL && n->real != m->real) VIOL("tree", "value");
	if (box(m)) { if (array_num(n->nodes) != m->kids.size()) VIOL("tree", "%s has %d nodes of %zu (%s)", m->name.c_str(), (int)array_num(n->nodes), m->kids.size(), op); for (size_t i = 0; i < m->kids.size(); i++) same_tree(n->nodes + i, m->kids[i], n, op); }
}
static ADT_Node* node_of(ADT_Node* root, M* m) { if (!m->up) return root; ADT_Node* p = node_of(root, m->up); for (size_t i = 0; i < m->up->kids.size(); i++) if (m->up->kids[i] == m) return p->nodes + i; return nullptr; }
static M* find(M* m, S const& name, bool deep) { if (m->type != EADT_TYPE_OBJECT) return nullptr; for (auto k : m->kids) if (k->name == name) return k; if (deep) for (auto k : m->kids) if (M* r = find(k, name, deep)) return r; return nullptr; }
static void all(M* m, std::vector<M*>& o) { o.push_back(m); for (auto k : m->kids) all(k, o); }
static bool below(M* m, M* top) { for (; m; m = m->up) if (m == top) return true; return false; }
static S val(M* m) { return m->type == EADT_TYPE_STRING ? m->str : m->type == EADT_TYPE_INTEGER ? vp_fmt("%lld", (long long)m->num) : S("\1none"); }
static void trees() {
	ADT_Node root; memset(&root, 0, sizeof root); M* top = mk(R.chance(70) ? EADT_TYPE_OBJECT : EADT_TYPE_ARRAY, "root"); const char* rn = keep("root"); if (top->type == EADT_TYPE_OBJECT) adt_set_obj(&root, rn, A()); else adt_set_arr(&root, rn, A()); HIST("tree of kind %d", top->type);
	static const char* names[] = { "a", "b", "c", "width", "a b", "x", "key", "long name of a field" };
	for (int k = 3 + (int)R.below(40); k > 0; k--) {
		std::vector<M*> ns; all(top, ns); std::vector<M*> boxes; for (auto m : ns) if (box(m)) boxes.push_back(m); M* b = boxes[R.below(boxes.size())]; ADT_Node* bn = node_of(&root, b); const char* op = "?";
		switch (R.below(10)) {
		case 0: case 1: case 2: case 3: { S name = names[R.below(8)]; const char* nm = keep(name); int t = (int)R.below(5); M* m = mk(t == 0 ? EADT_TYPE_OBJECT : t == 1 ? EADT_TYPE_ARRAY : t == 2 ? EADT_TYPE_STRING : t == 3 ? EADT_TYPE_INTEGER : EADT_TYPE_REAL, name); m->up = b; ADT_Node* r = nullptr; op = "append";
			if (t == 2) { m->str = R.pick({ "v", "value", "", "a/b", "12" }); r = adt_append_str(bn, nm, keep(m->str)); } else if (t == 3) { m->num = R.chance(20) ? R.pick({ INT64_MAX, INT64_MIN, (int64_t)0 }) : R.range(-50, 50); r = adt_append_int(bn, nm, m->num); } else if (t == 4) { m->real = R.range(-1000, 1000) / 8.0; r = adt_append_flt(bn, nm, m->real); } else r = t == 0 ? adt_append_obj(bn, nm) : adt_append_arr(bn, nm);
			b->kids.push_back(m); HIST("append %s of kind %d to %s", name.c_str(), m->type, b->name.c_str()); if (!r || r != node_of(&root, b)->nodes + b->kids.size() - 1) VIOL("tree", "append did not hand out the node it made"); break; }
		case 4: { size_t at = R.below(b->kids.size() + 1); M* m = mk(EADT_TYPE_INTEGER, "at"); m->num = 7; m->up = b; op = "alloc_at"; HIST("alloc at %zu of %s", at, b->name.c_str()); ADT_Node* r = adt_alloc_at(bn, at); if (!r || r != bn->nodes + at) VIOL("tree", "alloc_at did not hand out the node at %zu", at); adt_set_int(r, keep("at"), 7); b->kids.insert(b->kids.begin() + at, m); if (adt_alloc_at(bn, b->kids.size() + 1) || adt_alloc_at(bn, -1)) VIOL("tree", "alloc_at past the end is taken"); break; }
		case 5: { if (b->kids.empty()) continue; size_t i = R.below(b->kids.size()); M* m = b->kids[i]; op = "remove"; HIST("remove %zu of %s", i, b->name.c_str()); ADT_Node* n = bn->nodes + i; if (box(m)) { ADT_Node gone = *n; adt_remove_node(n); for (size_t j = 0; j < array_num(gone.nodes); j++) ; adt_destroy_branch(&gone); } else adt_remove_node(n); b->kids.erase(b->kids.begin() + i); m->up = nullptr; break; }
		case 6: { if (b->kids.empty()) continue; size_t i = R.below(b->kids.size()); M* m = b->kids[i]; M* to = boxes[R.below(boxes.size())]; if (below(to, m)) continue; op = "move"; ADT_Node* n = bn->nodes + i; ADT_Node* tn = node_of(&root, to); size_t at = R.below(to->kids.size() + 1); ADT_Node* r; bool plain = R.chance(40); if (plain) at = to->kids.size(); HIST("move %zu of %s to %zu of %s", i, b->name.c_str(), at, to->name.c_str()); r = plain ? adt_move_node(n, tn) : adt_move_node_at(n, tn, at);
			b->kids.erase(b->kids.begin() + i); if (to == b && i < at) at--; to->kids.insert(to->kids.begin() + at, m); m->up = to; if (r != node_of(&root, to)->nodes + at) VIOL("tree", "move did not hand out the node it moved"); break; }
		case 7: { M* x = ns[R.below(ns.size())]; M* y = ns[R.below(ns.size())]; if (!x->up || !y->up || below(x, y) || below(y, x)) continue; op = "swap"; HIST("swap %s and %s", x->name.c_str(), y->name.c_str()); adt_swap_nodes(node_of(&root, x), node_of(&root, y)); M *xu = x->up, *yu = y->up; size_t i = std::find(xu->kids.begin(), xu->kids.end(), x) - xu->kids.begin(), j = std::find(yu->kids.begin(), yu->kids.end(), y) - yu->kids.begin(); xu->kids[i] = y; yu->kids[j] = x; x->up = yu; y->up = xu; break; }
		case 8: { S name = names[R.below(8)]; bool deep = R.chance(50); op = "find"; M* m = find(b, name, deep); ADT_Node* r = adt_find(bn, name.c_str(), deep); if (r != (m ? node_of(&root, m) : nullptr)) VIOL("find", "find %s in %s (deep %d) does not find it", name.c_str(), b->name.c_str(), deep); COUNT(m ? "found" : "not found"); break; }
		default: { // a path down to some node
			op = "query"; M* m = b; S uri = R.chance(30) ? "/" : ""; M* cur = m; int n = 1 + (int)R.below(4); bool odd = false;
			for (int i = 0; i < n && cur && box(cur); i++) { if (i) uri += "/";
				if (cur->type == EADT_TYPE_OBJECT) { if (R.chance(15) && !cur->kids.empty()) { M* f = cur->kids[R.below(cur->kids.size())]; S v = val(f); if (v[0] == 1 || v.find_first_of("/]=") != S::npos || f->name.find('/') != S::npos) { odd = true; break; } uri += "[" + f->name + "=" + v + "]"; M* hit = nullptr; for (auto q : cur->kids) if (q->name == f->name && val(q) == v) hit = cur; cur = hit; } else { S name = names[R.below(8)]; if (R.chance(70) && cur->kids.size()) name = cur->kids[R.below(cur->kids.size())]->name; uri += name; cur = find(cur, name, false); } }
				else { if (R.chance(25) && cur->kids.size()) { M* f = cur->kids[R.below(cur->kids.size())]; S v = val(f); if (v[0] == 1 || v.empty() || v.find_first_of("/]=") != S::npos) { odd = true; break; } uri += "[" + v + "]"; M* hit = nullptr; for (auto q : cur->kids) if (val(q) == v) { hit = q; break; } cur = hit; }
					else if (R.chance(20)) { S fn = names[R.below(8)], fv = "value"; M* hit = nullptr; for (auto q : cur->kids) if (q->type == EADT_TYPE_OBJECT) { for (auto z : q->kids) if (z->name == fn && val(z) == fv) { hit = q; break; } if (hit) break; } uri += "[" + fn + "=" + fv + "]"; cur = hit; }
					else { size_t ix = R.below(cur->kids.size() + 2); uri += vp_fmt("%zu", ix); cur = ix < cur->kids.size() ? cur->kids[ix] : nullptr; } } }
			if (odd || uri.empty() || uri == "/") continue; HIST("query %s in %s", uri.c_str(), b->name.c_str()); Text u(uri); ADT_Node* r = adt_query(bn, u.p); if (r != (cur ? node_of(&root, cur) : nullptr)) VIOL("query", "%s in %s gives %s, not %s", uri.c_str(), b->name.c_str(), r ? r->name ? r->name : "a node" : "nothing", cur ? cur->name.c_str() : "nothing"); COUNT(cur ? "queried" : "query without result"); break; }
		}
		same_tree(&root, top, nullptr, op); COUNT(vp_fmt("tree: %s", op));
	}
	adt_destroy_branch(&root); leaks("tree"); for (auto p : texts) ::free(p); texts.clear(); for (auto m : pool) delete m; pool.clear();
}
// a table made by hand
static void made() {
	pick_delim(); int cols = 1 + (int)R.below(4), rows = (int)R.below(5); bool header = rows == 0 || R.chance(60); ADT_Node root; memset(&root, 0, sizeof root); if (header) adt_set_obj(&root, nullptr, A()); else adt_set_arr(&root, nullptr, A()); T t(rows + header, std::vector<S>(cols));
	for (int c = 0; c < cols; c++) { bool q; S n = cell(q); ADT_Node* col = adt_append_arr(&root, header ? keep(n) : nullptr); if (header) t[0][c] = n; for (int r = 0; r < rows; r++) { if (R.chance(20)) { s64 v = R.range(-9999999, 9999999); adt_append_int(col, nullptr, v); t[r + header][c] = vp_fmt("%lld", (long long)v); } else { S v = cell(q); adt_append_str(col, nullptr, keep(v)); t[r + header][c] = v; } } }
	HIST("made table of %d rows and %d columns with '%c', header %d", rows, cols, delim, header); for (auto& r : t) for (auto& c : r) HIST("  %s", vp_esc(c, 100).c_str());
	S w = written(&root); Text y(w); CSV_Object p; u8 e = parse(&p, y, header); if (e) VIOL("made table", "what was written is refused with %d: %s", e, vp_esc(w, 600).c_str()); same(&p, t, header, "made, written and parsed");
	csv_free(&p); csv_free(&root); leaks("made"); for (auto q : texts) ::free(q); texts.clear(); COUNT("made tables");
}
static S printed(ADT_Node* n) { FileInfo f; file_stream_new(&f, A()); ADT_Error e = adt_print_number(&f, n); ssize k; u8* b = file_stream_buf(&f, &k); S r((char*)b, k); file_close(&f); if (e) VIOL("number", "printing a number is refused with %d", (int)e); return r; }
static void numbers() {
	for (int k = 0; k < 6; k++) {
		S s; int form = (int)R.below(6); bool sure = true; f64 want = 0; s64 iw = 0; bool integer = false;
		switch (form) {
		case 0: iw = R.chance(30) ? (s64)R.next() >> R.below(60) : R.range(-1000, 1000); if (iw == INT64_MIN) iw++; s = vp_fmt("%lld", (long long)iw); if (iw >= 0 && R.chance(20)) s = "+" + s; integer = true; break;
		case 1: iw = (s64)(R.next() >> (1 + R.below(60))); s = vp_fmt(R.chance(50) ? "0x%llx" : "0X%llX", (unsigned long long)iw); integer = true; break;
		case 2: s = vp_fmt("%s%lld.%0*lld", R.chance(40) ? "-" : "", (long long)R.below(1000000), 1 + (int)R.below(6), (long long)R.below(100)); want = strtod(s.c_str(), 0); break;
		case 3: s = vp_fmt("%s.%lld", R.chance(40) ? "-" : "", (long long)R.below(100000)); if (R.chance(40)) s.insert(s.find('.') + 1, "00"); want = strtod(s.c_str(), 0); break;
		case 4: s = vp_fmt("%s%lld.%llde%s%lld", R.chance(40) ? "-" : "", (long long)R.below(1000), (long long)R.below(10000), R.pick({ "", "+", "-" }), (long long)R.below(40)); want = strtod(s.c_str(), 0); break;
		default: sure = false; for (int i = (int)R.below(R.chance(30) ? 120 : 12); i > 0; i--) s += R.pick({ "0", "1", "9", "f", "x", ".", "e", "E", "+", "-", "a", "12345", "0x", " " }); }
		Text x(s); ADT_Node n; memset(&n, 0, sizeof n); n.type = EADT_TYPE_STRING; n.string = x.p; HIST("number %s", vp_esc(s).c_str());
		ADT_Error e = R.chance(50) && sure && form != 1 ? adt_c_str_to_number_strict(&n) : adt_c_str_to_number(&n); COUNT(vp_fmt("numbers of form %d", form));
		if (!sure) { if (n.type == EADT_TYPE_INTEGER || n.type == EADT_TYPE_REAL) printed(&n); continue; }
		if (e) VIOL("number", "%s is refused with %d", s.c_str(), (int)e);
		if (integer) { if (n.type != EADT_TYPE_INTEGER || n.integer != iw) VIOL("number", "%s is parsed to kind %d, %lld", s.c_str(), (int)n.type, (long long)n.integer); }
		else { f64 tol = fabs(want) * 1e-6 + 1e-12; if (n.type != EADT_TYPE_REAL || fabs(n.real - want) > tol) VIOL("number", "%s is parsed to kind %d, %.17g", s.c_str(), (int)n.type, n.real); }
		S p = printed(&n); char* end; if (integer) { long long v = strtoll(p.c_str(), &end, 0); if (*end || v != iw) VIOL("number printed", "%s is printed as %s", s.c_str(), p.c_str()); } else { f64 v = strtod(p.c_str(), &end); if (*end || p.empty() || fabs(v - want) > fabs(want) * 1e-6 + 1e-6) VIOL("number printed", "%s is printed as %s", s.c_str(), p.c_str()); }
		if (adt_c_str_to_number(&n) != EADT_ERROR_ALREADY_CONVERTED) VIOL("number", "a number is converted again");
	}
	leaks("numbers");
}
static void strings() {
	S s; for (int i = (int)R.below(30); i > 0; i--) s += R.pick({ "a", "\"", "\\", "\n", "%", ",", "bc" }); S esc = R.pick({ "\"", "\\\"", "\n", "%" }), sym = R.pick({ "\\", "\"", "%" }), want; for (char c : s) { if (esc.find(c) != S::npos) want += sym; want += c; }
	Text x(s); ADT_Node n; memset(&n, 0, sizeof n); adt_set_str(&n, "n", x.p); FileInfo f; file_stream_new(&f, A()); HIST("print %s escaping %s with %s", vp_esc(s).c_str(), vp_esc(esc).c_str(), sym.c_str()); ADT_Error e = adt_print_string(&f, &n, esc.c_str(), sym.c_str()); ssize k; u8* b = file_stream_buf(&f, &k); S got((char*)b, k); file_close(&f);
	if (e || got != want) VIOL("string printed", "%s is printed as %s, not %s", vp_esc(s).c_str(), vp_esc(got).c_str(), vp_esc(want).c_str()); leaks("strings"); COUNT("strings printed");
}
static void vp_round_fn(long r) {
	for (auto& b : blocks) ::free(b.first); blocks.clear(); for (auto p : texts) ::free(p); texts.clear();
	switch (R.below(12)) { case 0: malformed(); break; case 1: case 2: corrupted(); break; case 3: case 4: trees(); break; case 5: made(); break; case 6: numbers(); break; case 7: strings(); break; default: tables(); }
}
