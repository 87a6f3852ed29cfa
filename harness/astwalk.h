#pragma once
// Independent walk of a tree: structural dump and invariant monitor.
#include <set>
#include <string>
#include <vector>
using namespace gen;

static std::string vp_str(Str s) { VP_WRITTEN(&s, sizeof s); if (s.Ptr && s.Len > 0) VP_WRITTEN(s.Ptr, (size_t)s.Len); return s.Ptr && s.Len > 0 ? std::string(s.Ptr, (size_t)s.Len) : std::string(); }
static std::string vp_esc(std::string const& s) {
	std::string r; char b[8];
	for (unsigned char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += (char)c; }
	return r;
}
static bool vp_is_body(CodeType t) {
	switch (t) { case CT_Class_Body: case CT_Enum_Body: case CT_Export_Body: case CT_Extern_Linkage_Body: case CT_Function_Body:
		case CT_Global_Body: case CT_Namespace_Body: case CT_Struct_Body: case CT_Union_Body: return true; default: return false; }
}
struct VpWalk {
	std::string dump;
	std::vector<std::string> bad;       // broken invariants
	std::set<AST*> on_path, seen;
	long nodes = 0; int depth = 0;
	bool check_parent = true, check_dup = true, norm_ws = true;
	std::set<std::string> kinds;
	void err(std::string const& s) { if (bad.size() < 50) bad.push_back(s); }
	std::string tn(AST* a) { return a ? vp_str(code_type_str(Code{a})) : std::string("null"); }
	static bool shared(AST* a) {
		if ((void*)a == (void*)t_empty.ast) return true;
		// nodes every file shares by design: global constants
		switch (a->Type) { case CT_NewLine: case CT_Access_Public: case CT_Access_Private: case CT_Access_Protected: case CT_Preprocess_Else: case CT_Preprocess_EndIf: return true; default: return false; }
	}
	void str_ok(const char* what, AST* a, Str s) {
		if (s.Len < 0) { err(std::string("negative length of ") + what + " of " + tn(a)); return; }
		if (s.Len && !s.Ptr) { err(std::string("null text with length in ") + what + " of " + tn(a)); return; }
	}
	void interned(const char* what, AST* a, Str s) {
		if (!s.Ptr || !s.Len) return;
		str_ok(what, a, s);
		if (s.Ptr[s.Len] != 0) err(std::string("unterminated ") + what + " of " + tn(a));
		// library constants carry literals: shared, permanent, terminated
		switch (a->Type) { case CT_Access_Public: case CT_Access_Private: case CT_Access_Protected: case CT_Preprocess_Else: case CT_Preprocess_EndIf: return; default: break; }
		if (a->Type == CT_Parameters && s.Len == 3 && !memcmp(s.Ptr, "...", 3)) return;
		StrCached c = cache_str(s);
		if (c.Ptr != s.Ptr) err(std::string("not interned: ") + what + " of " + tn(a));
	}
	void ind() { for (int i = 0; i < depth; i++) dump += ' '; }
	void sub(const char* f, AST* owner, AST* kid, std::initializer_list<int> allowed = {}) {
		if (!kid) return;
		if (allowed.size()) { bool ok = false; for (int t : allowed) if (kid->Type == t) ok = true;
			if (!ok) err(std::string(f) + " of " + tn(owner) + " has kind " + tn(kid)); }
		ind(); dump += f; dump += ":\n"; depth++; walk(kid, f); depth--;
	}
	void text(const char* f, Str s) { if (s.Len <= 0) return; ind(); dump += f; dump += "="; dump += vp_esc(vp_str(s)); dump += "\n"; }
	void walk(AST* a, const char* role) {
		if (!a) return;
		if (depth > 4000) { err("tree deeper than 4000"); return; }
		if (on_path.count(a)) { err(std::string("cycle through ") + tn(a) + " as " + role); return; }
		if (check_dup && !shared(a) && seen.count(a)) err(std::string("reachable twice: ") + tn(a) + " as " + role);
		seen.insert(a); on_path.insert(a); nodes++;
		if ((unsigned)a->Type >= (unsigned)CT_NumTypes) { err("node kind out of range"); on_path.erase(a); return; }
		kinds.insert(tn(a));
		ind(); dump += tn(a); if (a->Name.Len > 0) { dump += " "; dump += vp_esc(vp_str(a->Name)); }
		if (a->ModuleFlags) { dump += " mflags="; dump += std::to_string((unsigned)a->ModuleFlags); }
		dump += "\n"; depth++;
		interned("name", a, a->Name);
		switch (a->Type) {
			case CT_Untyped: case CT_Comment: case CT_PlatformAttributes: case CT_Execution: case CT_Preprocess_Include: case CT_Preprocess_Pragma:
			case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf:
			case CT_Preprocess_Else: case CT_Preprocess_EndIf: case CT_Access_Private: case CT_Access_Protected: case CT_Access_Public: case CT_NewLine:
				interned("content", a, a->Content); if (a->Type != CT_NewLine) text("content", a->Content); break;
			case CT_Class_Body: case CT_Enum_Body: case CT_Export_Body: case CT_Extern_Linkage_Body: case CT_Function_Body:
			case CT_Global_Body: case CT_Namespace_Body: case CT_Struct_Body: case CT_Union_Body: {
				long n = 0; AST* prev = nullptr; AST* last = nullptr; std::set<AST*> chain;
				if (a->NumEntries < 0) err("negative entry count in " + tn(a));
				if ((a->NumEntries == 0) != (a->Front.ast == nullptr)) err("entry count and first entry disagree in " + tn(a));
				for (AST* e = a->Front.ast; e && n < a->NumEntries; e = e->Next.ast) {
					if (chain.count(e)) { err("entry chain of " + tn(a) + " loops"); break; }
					chain.insert(e);
					if (check_parent && e->Parent.ast != a) err("entry " + tn(e) + " of " + tn(a) + " does not name it as parent");
					if (e->Prev.ast != prev && !(n == 0 && e->Prev.ast == nullptr)) err("entry " + tn(e) + " of " + tn(a) + " has a wrong back link");
					if (vp_is_body(e->Type) && e->Type != CT_Export_Body) {}
					prev = last = e; n++;
					walk(e, "entry");
				}
				if (n != a->NumEntries) err("chain of " + tn(a) + " has " + std::to_string(n) + " entries, recorded " + std::to_string(a->NumEntries));
				if (last && last->Next.ast) err("chain of " + tn(a) + " continues past the recorded count");
				if (a->NumEntries > 0 && a->Back.ast != last) err("last-entry link of " + tn(a) + " is wrong");
				break; }
			case CT_Class: case CT_Struct: case CT_Class_Fwd: case CT_Struct_Fwd: {
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("specs", a, a->Specs.ast, {CT_Specifiers});
				ind(); dump += "access=" + std::to_string((int)a->ParentAccess) + "\n";
				if (a->ParentType.ast) { std::set<AST*> s; for (AST* p = a->ParentType.ast; p; p = p->Next.ast) { if (s.count(p)) { err("parent chain loops"); break; } s.insert(p);
					if (check_parent && p->Parent.ast && p->Parent.ast != a) err("base of " + tn(a) + " names another parent");
					sub("base", a, p); } }
				bool cls = a->Type == CT_Class || a->Type == CT_Class_Fwd;
				if (a->Type == CT_Class || a->Type == CT_Struct) { if (!a->Body.ast) err(tn(a) + " without a body"); }
				owned(a, a->Body.ast, "body", {cls ? (int)CT_Class_Body : (int)CT_Struct_Body, (int)CT_Untyped, (int)CT_Execution});
				sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break; }
			case CT_Union: case CT_Union_Fwd:
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes});
				owned(a, a->Body.ast, "body", {CT_Union_Body, CT_Untyped}); sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break;
			case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd:
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("underlying", a, a->UnderlyingType.ast, {CT_Typename});
				sub("underlying_macro", a, a->UnderlyingTypeMacro.ast);
				owned(a, a->Body.ast, "body", {CT_Enum_Body, CT_Untyped}); sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break;
			case CT_Constructor: case CT_Constructor_Fwd:
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("specs", a, a->Specs.ast, {CT_Specifiers}); sub("params", a, a->Params.ast, {CT_Parameters}); sub("init", a, a->InitializerList.ast);
				sub("body", a, a->Body.ast); sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break;
			case CT_Destructor: case CT_Destructor_Fwd:
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("specs", a, a->Specs.ast, {CT_Specifiers}); sub("body", a, a->Body.ast); sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break;
			case CT_Preprocess_Define: sub("params", a, a->Params.ast, {CT_Parameters_Define}); sub("body", a, a->Body.ast); break;
			case CT_Parameters_Define: case CT_Parameters: {
				AST* first = a; long n = 0; AST* last = nullptr; std::set<AST*> s;
				for (AST* p = a; p; p = p->Next.ast) {
					if (s.count(p)) { err("parameter chain loops"); break; } s.insert(p);
					if (p->Type != a->Type) err("parameter chain holds " + tn(p));
					if (p != first) { nodes++; seen.insert(p); ind(); dump += "param "; dump += vp_esc(vp_str(p->Name)); dump += "\n"; interned("parameter name", p, p->Name); }
					if (a->Type == CT_Parameters) { sub("macro", p, p->Macro.ast); sub("type", p, p->ValueType.ast, {CT_Typename, CT_Untyped, CT_Struct, CT_Enum, CT_Class, CT_Union}); sub("value", p, p->Value.ast); sub("postmacro", p, p->PostNameMacro.ast); }
					n++; last = p;
				}
				if (a->NumEntries != n && !(a->Type == CT_Parameters_Define && a->NumEntries <= 1 && n == 1) && !(n == 1 && a->NumEntries <= 1)) err(tn(a) + " chain has " + std::to_string(n) + " entries, recorded " + std::to_string(a->NumEntries));
				break; }
			case CT_Extern_Linkage: owned(a, a->Body.ast, "body", {CT_Extern_Linkage_Body, CT_Untyped}); break;
			case CT_Friend: owned(a, a->Declaration.ast, "decl"); sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break;
			case CT_Function: case CT_Function_Fwd:
			case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: {
				bool fn = a->Type == CT_Function || a->Type == CT_Function_Fwd;
				if (!fn) { ind(); dump += "op=" + std::to_string((int)a->Op) + "\n"; }
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("specs", a, a->Specs.ast, {CT_Specifiers});
				sub("ret", a, a->ReturnType.ast); sub("params", a, a->Params.ast, {CT_Parameters});
				sub("body", a, a->Body.ast); if (fn) sub("suffix", a, a->SuffixSpecs.ast); sub("inline", a, a->InlineCmt.ast, {CT_Comment});
				if ((a->Type == CT_Function || a->Type == CT_Operator || a->Type == CT_Operator_Member) && !a->Body.ast) err(tn(a) + " without a body");
				break; }
			case CT_Operator_Cast: case CT_Operator_Cast_Fwd:
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("specs", a, a->Specs.ast, {CT_Specifiers}); sub("type", a, a->ValueType.ast); sub("body", a, a->Body.ast); sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break;
			case CT_Namespace: owned(a, a->Body.ast, "body", {CT_Namespace_Body, CT_Untyped}); if (!a->Body.ast) err("namespace without a body"); break;
			case CT_Specifiers: {
				if (a->NumEntries < 0 || a->NumEntries > AST_ArrSpecs_Cap) { err("specifier count out of range"); break; }
				ind(); dump += "specs"; for (s32 i = 0; i < a->NumEntries; i++) { dump += " " + std::to_string((int)a->ArrSpecs[i]); if ((unsigned)a->ArrSpecs[i] >= (unsigned)Spec_NumSpecifiers || a->ArrSpecs[i] == Spec_Invalid) err("specifier out of range"); } dump += "\n"; break; }
			case CT_Template: sub("params", a, a->Params.ast, {CT_Parameters}); owned(a, a->Declaration.ast, "decl"); break;
			case CT_Typename: {
				ind(); dump += "pack=" + std::to_string((int)a->IsParamPack) + " tag=" + std::to_string((int)a->TypeTag) + "\n";
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("specs", a, a->Specs.ast, {CT_Specifiers}); sub("ret", a, a->ReturnType.ast); sub("params", a, a->Params.ast, {CT_Parameters}); arr(a); sub("suffix", a, a->SuffixSpecs.ast, {CT_Specifiers}); break; }
			case CT_Typedef: { ind(); dump += "fn=" + std::to_string((int)a->IsFunction) + "\n";
				AST* u = a->UnderlyingType.ast; if (!u) err("typedef without a type"); sub("type", a, u); sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break; }
			case CT_Using: sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("type", a, a->UnderlyingType.ast); sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break;
			case CT_Using_Namespace: sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break;
			case CT_Variable: {
				ind(); dump += "paren=" + std::to_string((int)(a->VarParenthesizedInit != 0)) + "\n";
				sub("attributes", a, a->Attributes.ast, {CT_PlatformAttributes}); sub("specs", a, a->Specs.ast, {CT_Specifiers});
				{ bool d = check_dup; if (role && !strcmp(role, "nextvar")) check_dup = false; sub("type", a, a->ValueType.ast); check_dup = d; }
				sub("bitfield", a, a->BitfieldSize.ast); sub("value", a, a->Value.ast);
				if (a->NextVar.ast) { if (check_parent && (!a->NextVar->Parent.ast || a->NextVar->Parent->Type != CT_Variable)) err("chained variable does not name a variable as parent");
					sub("nextvar", a, a->NextVar.ast, {CT_Variable}); }
				sub("inline", a, a->InlineCmt.ast, {CT_Comment}); break; }
			case CT_Module: break;
			default: err("unexpected node kind " + tn(a)); break;
		}
		depth--; on_path.erase(a);
	}
	void arr(AST* a) { std::set<AST*> s; for (AST* x = a->ArrExpr.ast; x; x = x->Next.ast) { if (s.count(x)) { err("array expression chain loops"); break; } s.insert(x); sub("array", a, x); } }
	void owned(AST* a, AST* k, const char* f, std::initializer_list<int> allowed = {}) {
		if (!k) return;
		// only class and struct bodies are promised to be reachable from their members
		if (check_parent && (a->Type == CT_Class || a->Type == CT_Struct) && vp_is_body(k->Type) && k->Parent.ast != a) err(std::string(f) + " of " + tn(a) + " does not name it as parent");
		sub(f, a, k, allowed);
	}
};
