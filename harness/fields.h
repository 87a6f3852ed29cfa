#pragma once
// The parts of the nodes of a tree, by kind, each of which can be exchanged and put back.
#include <set>
struct Field { AST* a; const char* n; Code* kid; Str* str; void* num; int size; int lo, hi; bool optional; };
struct Fields {
	std::vector<Field> f; std::set<AST*> seen; int depth = 0;
	static bool constant(AST* a) { if ((void*)a == (void*)t_empty.ast) return true; switch (a->Type) { case CT_NewLine: case CT_Access_Public: case CT_Access_Private: case CT_Access_Protected: case CT_Preprocess_Else: case CT_Preprocess_EndIf: return true; default: return false; } }
	void kid(AST* a, const char* n, Code& c, bool optional) { if (!c.ast) return; f.push_back({ a, n, &c, nullptr, nullptr, 0, 0, 0, optional }); walk(c.ast); }
	void nm(AST* a) { if (a->Name.Len > 0) f.push_back({ a, "name", nullptr, &a->Name, nullptr, 0, 0, 0, false }); }
	template<class T> void num(AST* a, const char* n, T& x, int lo, int hi) { f.push_back({ a, n, nullptr, nullptr, &x, (int)sizeof x, lo, hi, false }); }
	void walk(AST* a) {
		if (!a || constant(a) || depth > 60 || !seen.insert(a).second) return; depth++;
		switch (a->Type) {
		case CT_Untyped: case CT_PlatformAttributes: case CT_Execution: case CT_Preprocess_Include: case CT_Preprocess_Pragma: case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf:
			if (a->Content.Len > 0) f.push_back({ a, "content", nullptr, &a->Content, nullptr, 0, 0, 0, false }); break;
		case CT_Class_Body: case CT_Enum_Body: case CT_Export_Body: case CT_Extern_Linkage_Body: case CT_Function_Body: case CT_Global_Body: case CT_Namespace_Body: case CT_Struct_Body: case CT_Union_Body: { s32 n = 0; for (AST* e = a->Front.ast; e && n < a->NumEntries; e = e->Next.ast, n++) walk(e); break; }
		case CT_Class: case CT_Struct: case CT_Class_Fwd: case CT_Struct_Fwd: nm(a); num(a, "module flags", a->ModuleFlags, 0, 2); kid(a, "attributes", a->Attributes, true); kid(a, "specifiers", a->Specs, true); if (a->ParentType.ast) num(a, "parent access", a->ParentAccess, AccessSpec_Default, AccessSpec_Private); kid(a, "parent", a->ParentType, false); if (a->ParentType.ast) for (AST* p = a->ParentType->Next.ast; p; p = p->Next.ast) walk(p); kid(a, "body", a->Body, false); break;
		case CT_Union: case CT_Union_Fwd: nm(a); num(a, "module flags", a->ModuleFlags, 0, 2); kid(a, "attributes", a->Attributes, true); kid(a, "body", a->Body, false); break;
		case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: nm(a); num(a, "module flags", a->ModuleFlags, 0, 2); kid(a, "attributes", a->Attributes, true); kid(a, "underlying type", a->UnderlyingType, a->Type != CT_Enum_Fwd); kid(a, "underlying macro", a->UnderlyingTypeMacro, a->Type != CT_Enum_Fwd); kid(a, "body", a->Body, false); break;
		case CT_Constructor: case CT_Constructor_Fwd: kid(a, "specifiers", a->Specs, true); kid(a, "params", a->Params, true); kid(a, "initializers", a->InitializerList, true); kid(a, "body", a->Body, false); break;
		case CT_Destructor: case CT_Destructor_Fwd: kid(a, "specifiers", a->Specs, true); kid(a, "body", a->Body, false); break;
		case CT_Preprocess_Define: nm(a); kid(a, "params", a->Params, true); kid(a, "body", a->Body, true); break;
		case CT_Parameters_Define: for (AST* p = a; p; p = p->Next.ast) nm(p); break;
		case CT_Parameters: for (AST* p = a; p; p = p->Next.ast) { nm(p); kid(p, "macro", p->Macro, false); kid(p, "type", p->ValueType, false); kid(p, "value", p->Value, true); kid(p, "post macro", p->PostNameMacro, true); } break;
		case CT_Extern_Linkage: nm(a); kid(a, "body", a->Body, false); break;
		case CT_Friend: num(a, "module flags", a->ModuleFlags, 0, 2); kid(a, "declaration", a->Declaration, false); break;
		case CT_Function: case CT_Function_Fwd: case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: {
			bool fn = a->Type == CT_Function || a->Type == CT_Function_Fwd; nm(a); num(a, "module flags", a->ModuleFlags, 0, 2); if (!fn) num(a, "operator", a->Op, Op_Invalid + 1, Op_NumOps - 1);
			kid(a, "attributes", a->Attributes, true); kid(a, "specifiers", a->Specs, true); kid(a, "return type", a->ReturnType, false); kid(a, "params", a->Params, true); kid(a, "body", a->Body, false); if (fn) kid(a, "suffix specifiers", a->SuffixSpecs, true); break; }
		case CT_Operator_Cast: case CT_Operator_Cast_Fwd: nm(a); kid(a, "specifiers", a->Specs, true); kid(a, "type", a->ValueType, false); kid(a, "body", a->Body, false); break;
		case CT_Namespace: nm(a); num(a, "module flags", a->ModuleFlags, 0, 2); kid(a, "body", a->Body, false); break;
		case CT_Specifiers: for (s32 i = 0; i < a->NumEntries && i < AST_ArrSpecs_Cap; i++) num(a, "specifier", a->ArrSpecs[i], Spec_Invalid + 1, Spec_NumSpecifiers - 1); break;
		case CT_Template: num(a, "module flags", a->ModuleFlags, 0, 2); kid(a, "params", a->Params, true); kid(a, "declaration", a->Declaration, false); break;
		case CT_Typename: nm(a); num(a, "pack", a->IsParamPack, 0, 1); num(a, "tag", a->TypeTag, 0, 4); kid(a, "attributes", a->Attributes, true); kid(a, "specifiers", a->Specs, true); kid(a, "return type", a->ReturnType, false); kid(a, "params", a->Params, true); kid(a, "array", a->ArrExpr, true); if (a->ArrExpr.ast) for (AST* p = a->ArrExpr->Next.ast; p; p = p->Next.ast) walk(p); kid(a, "suffix specifiers", a->SuffixSpecs, true); break;
		case CT_Typedef: nm(a); num(a, "module flags", a->ModuleFlags, 0, 2); kid(a, "type", a->UnderlyingType, false); break;
		case CT_Using: nm(a); num(a, "module flags", a->ModuleFlags, 0, 2); kid(a, "attributes", a->Attributes, true); kid(a, "type", a->UnderlyingType, false); break;
		case CT_Using_Namespace: case CT_Module: nm(a); num(a, "module flags", a->ModuleFlags, 0, 3); break;
		case CT_Variable: nm(a); num(a, "module flags", a->ModuleFlags, 0, 2); num(a, "constructor expression", a->VarParenthesizedInit, 0, 1); kid(a, "attributes", a->Attributes, true); kid(a, "specifiers", a->Specs, true); kid(a, "type", a->ValueType, false); kid(a, "bitfield", a->BitfieldSize, true); kid(a, "value", a->Value, true); kid(a, "next variable", a->NextVar, true); break;
		default: break;
		}
		depth--;
	}
};
