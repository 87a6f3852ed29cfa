#pragma once
// Every way the library offers to serialize a node of a known kind: the function, the method, the overload, appending to a builder.
static bool direct_texts(Code c, std::vector<std::pair<const char*, std::string>>& out) {
	auto S_ = [](StrBuilder s) { VP_WRITTEN((char*)s, (size_t)strbuilder_length(s) + 1); return std::string((char*)s, (size_t)strbuilder_length(s)); };
	#define FN(what, call) out.push_back({ what, S_(call) })
	#define REF(what, call) { StrBuilder result = strbuilder_make_reserve(heap(), 16); strbuilder_append_str(&result, txt("before\n")); call; std::string t = S_(result); if (t.compare(0, 7, "before\n")) t = "(what was there is lost)"; else t = t.substr(7); out.push_back({ what, t }); strbuilder_free(&result); }
	#define ALL(T, x) { T k = cast(T, c); FN(#x, x(k)); FN(#T " method", k.to_strbuilder()); FN(#T " overload", to_strbuilder(k)); REF(#T " method appending", k.to_strbuilder(result)); REF(#T " overload appending", to_strbuilder(k, result)); REF(#x " appending", x##_ref(k, &result)); } return true;
	#define DEFFWD(T, x, fwd) { T k = cast(T, c); FN(#x, x##_to_strbuilder(k)); FN(#T " method", k.to_strbuilder()); FN(#T " overload", to_strbuilder(k)); \
		if (fwd) { REF(#x " forward", x##_to_strbuilder_fwd(k, &result)); REF(#T " method forward", k.to_strbuilder_fwd(result)); REF(#T " overload forward", to_strbuilder_fwd(k, result)); } else { REF(#x " definition", x##_to_strbuilder_def(k, &result)); REF(#T " method definition", k.to_strbuilder_def(result)); REF(#T " overload definition", to_strbuilder_def(k, result)); } } return true;
	REF("Code method appending", c.to_strbuilder(result)); FN("Code method", c.to_strbuilder());
	switch (c->Type) {
	case CT_Class: case CT_Class_Fwd: DEFFWD(CodeClass, class, c->Type == CT_Class_Fwd)
	case CT_Struct: case CT_Struct_Fwd: DEFFWD(CodeStruct, struct, c->Type == CT_Struct_Fwd)
	case CT_Union: case CT_Union_Fwd: DEFFWD(CodeUnion, union, c->Type == CT_Union_Fwd)
	case CT_Enum: case CT_Enum_Fwd: DEFFWD(CodeEnum, enum, c->Type == CT_Enum_Fwd)
	case CT_Enum_Class: { CodeEnum k = cast(CodeEnum, c); FN("enum class", enum_to_strbuilder(k)); FN("enum class method", k.to_strbuilder()); REF("enum class definition", enum_to_strbuilder_class_def(k, &result)); REF("enum class method definition", k.to_strbuilder_class_def(result)); FN("enum class overload", to_strbuilder(k)); REF("enum class overload definition", to_strbuilder_class_def(k, result)); } return true;
	case CT_Enum_Class_Fwd: { CodeEnum k = cast(CodeEnum, c); FN("enum class", enum_to_strbuilder(k)); FN("enum class method", k.to_strbuilder()); REF("enum class forward", enum_to_strbuilder_class_fwd(k, &result)); REF("enum class method forward", k.to_strbuilder_class_fwd(result)); FN("enum class overload", to_strbuilder(k)); REF("enum class overload forward", to_strbuilder_class_fwd(k, result)); } return true;
	case CT_Constructor: case CT_Constructor_Fwd: DEFFWD(CodeConstructor, constructor, c->Type == CT_Constructor_Fwd)
	case CT_Destructor: case CT_Destructor_Fwd: DEFFWD(CodeDestructor, destructor, c->Type == CT_Destructor_Fwd)
	case CT_Function: case CT_Function_Fwd: DEFFWD(CodeFn, fn, c->Type == CT_Function_Fwd)
	case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: DEFFWD(CodeOperator, code_op, c->Type == CT_Operator_Fwd || c->Type == CT_Operator_Member_Fwd)
	case CT_Operator_Cast: case CT_Operator_Cast_Fwd: DEFFWD(CodeOpCast, opcast, c->Type == CT_Operator_Cast_Fwd)
	case CT_PlatformAttributes: ALL(CodeAttributes, attributes_to_strbuilder)
	case CT_Comment: ALL(CodeComment, comment_to_strbuilder)
	case CT_Preprocess_Define: ALL(CodeDefine, define_to_strbuilder)
	case CT_Parameters_Define: ALL(CodeDefineParams, define_params_to_strbuilder)
	case CT_Parameters: ALL(CodeParams, params_to_strbuilder)
	case CT_Execution: ALL(CodeExec, exec_to_strbuilder)
	case CT_Preprocess_Include: ALL(CodeInclude, include_to_strbuilder)
	case CT_Friend: ALL(CodeFriend, friend_to_strbuilder)
	case CT_Namespace: ALL(CodeNS, namespace_to_strbuilder)
	case CT_Preprocess_Pragma: ALL(CodePragma, pragma_to_strbuilder)
	case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf: case CT_Preprocess_Else: case CT_Preprocess_EndIf: { CodePreprocessCond k = cast(CodePreprocessCond, c); FN("preprocess_to_strbuilder", preprocess_to_strbuilder(k)); FN("CodePreprocessCond method", k.to_strbuilder()); FN("CodePreprocessCond overload", to_strbuilder(k));
		#define COND(t, x) if (c->Type == t) { REF("preprocess_to_strbuilder_" #x, preprocess_to_strbuilder_##x(k, &result)); REF("CodePreprocessCond method " #x, k.to_strbuilder_##x(result)); REF("CodePreprocessCond overload " #x, to_strbuilder_##x(k, result)); }
		COND(CT_Preprocess_If, if) COND(CT_Preprocess_IfDef, ifdef) COND(CT_Preprocess_IfNotDef, ifndef) COND(CT_Preprocess_ElIf, elif) COND(CT_Preprocess_Else, else) COND(CT_Preprocess_EndIf, endif) } return true;
	case CT_Specifiers: ALL(CodeSpecifiers, specifiers_to_strbuilder)
	case CT_Template: ALL(CodeTemplate, template_to_strbuilder)
	case CT_Typename: ALL(CodeTypename, typename_to_strbuilder)
	case CT_Typedef: ALL(CodeTypedef, typedef_to_strbuilder)
	case CT_Using: ALL(CodeUsing, using_to_strbuilder)
	case CT_Using_Namespace: { CodeUsing k = cast(CodeUsing, c); FN("using_to_strbuilder", using_to_strbuilder(k)); FN("CodeUsing method", k.to_strbuilder()); FN("CodeUsing overload", to_strbuilder(k)); REF("CodeUsing namespace", using_to_strbuilder_ns(k, &result)); REF("CodeUsing method namespace", k.to_strbuilder_ns(result)); REF("CodeUsing overload namespace", to_strbuilder_ns(k, result)); } return true;
	case CT_Variable: ALL(CodeVar, var_to_strbuilder)
	case CT_Module: ALL(CodeModule, module_to_strbuilder)
	case CT_Class_Body: case CT_Enum_Body: case CT_Extern_Linkage_Body: case CT_Function_Body: case CT_Global_Body: case CT_Namespace_Body: case CT_Struct_Body: case CT_Union_Body: ALL(CodeBody, body_to_strbuilder)
	case CT_Export_Body: { CodeBody k = cast(CodeBody, c); REF("body_to_strbuilder_export", body_to_strbuilder_export(k, &result)); REF("CodeBody method export", k.to_strbuilder_export(result)); REF("CodeBody overload export", to_strbuilder_export(k, result)); } return true;
	case CT_Extern_Linkage: { CodeExtern k = cast(CodeExtern, c); REF("CodeExtern method appending", k.to_strbuilder(result)); REF("extern_to_strbuilder", extern_to_strbuilder(k, &result)); REF("CodeExtern overload appending", to_strbuilder(k, result)); } return true;
	default: return false;
	}
	#undef FN
	#undef REF
	#undef ALL
	#undef DEFFWD
	#undef COND
}
