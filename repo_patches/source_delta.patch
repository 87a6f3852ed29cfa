From 203113daff491db0a719adb2f0b95f8872f51ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 001/256] fix: make the POSIX branches of memory.cpp and
 filesystem.cpp compile; vm_trim frees the trailing range, not the kept one

---
 base/dependencies/filesystem.cpp |  2 +-
 base/dependencies/memory.cpp     | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index a52c621..3c6ced7 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -200,7 +200,7 @@ GEN_FILE_SEEK_PROC( _posix_file_seek )
 internal
 GEN_FILE_READ_AT_PROC( _posix_file_read )
 {
-	unused( stop_at_newline );
+	// unused( stop_at_newline );
 	ssize res = pread( fd.i, buffer, size, offset );
 	if ( res < 0 )
 		return false;
diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 8c32c81..e2d6c24 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -145,7 +145,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				ptr = aligned_alloc( alignment, ( size + alignment - 1 ) & ~( alignment - 1 ) );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -154,7 +154,11 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 		case EAllocation_FREE :
 			{
+#	if GEN_COMPILER_CPP
+				::free( old_memory );
+#	else
 				free( old_memory );
+#	endif
 			}
 			break;
 
@@ -169,7 +173,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				posix_memalign( &ptr, alignment, size );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -178,7 +182,11 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 		case EAllocation_FREE :
 			{
+#	if GEN_COMPILER_CPP
+				::free( old_memory );
+#	else
 				free( old_memory );
+#	endif
 			}
 			break;
 
@@ -312,9 +320,9 @@ VirtualMemory vm_trim( VirtualMemory vm, ssize lead_size, ssize size )
 	trail_size = vm.size - lead_size - size;
 
 	if ( lead_size != 0 )
-		vm_free( vm_from_memory(( vm.data, lead_size ) );
+		vm_free( vm_from_memory( vm.data, lead_size ) );
 	if ( trail_size != 0 )
-		vm_free( vm_from_memory( ptr, trail_size ) );
+		vm_free( vm_from_memory( pointer_add( ptr, size ), trail_size ) );
 	return vm_from_memory( ptr, size );
 }
 
-- 
2.43.0


From de763fcab597c133cfc0231ab203461cd885a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 002/256] fix: export body serialization starts at the first
 entry, not at the body itself

---
 base/components/code_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9ec168b..39dacb5 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -38,13 +38,13 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	GEN_ASSERT(result != nullptr);
 	strbuilder_append_fmt( result, "export\n{\n" );
 
-	Code curr = cast(Code, body);
+	Code curr = body->Front;
 	s32  left = body->NumEntries;
 	while ( left-- )
 	{
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 
 	strbuilder_append_fmt( result, "};\n" );
-- 
2.43.0


From a2936e0528c9f9cfbc4aff5b5496ab345422edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 003/256] fix: class definition with a parent passes one name
 too many to its format

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 39dacb5..e8c0c4b 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -158,7 +158,7 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 	if ( self->ParentType )
 	{
 		Str access_level = access_spec_to_str( self->ParentAccess );
-		strbuilder_append_fmt( result, " : %S %SB", self->Name, access_level, typename_to_strbuilder(self->ParentType) );
+		strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
 
 		CodeTypename interface = cast(CodeTypename, self->ParentType->Next);
 		if ( interface )
-- 
2.43.0


From d0b03b62e4a05879153707b9024557b78a4797fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 004/256] fix: enum class definition without an underlying type
 keeps the class keyword

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index e8c0c4b..c9135ea 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -411,7 +411,7 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 	}
 	else
 	{
-		strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
+		strbuilder_append_fmt( result, "enum class %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
 	}
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-- 
2.43.0


From 1f7c939553ccd8ff2e3106a435f593e91218c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 005/256] fix: enum class forward without an underlying type
 does not serialize a null type

---
 base/components/code_serialization.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index c9135ea..4b2284b 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -430,7 +430,10 @@ void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	if ( self->UnderlyingType )
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	else
+		strbuilder_append_str( result, self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
-- 
2.43.0


From 58cfb03cb17d5af51e8922368e92aa1d9fda8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 006/256] fix: enum forward puts attributes after the enum
 keyword

---
 base/components/code_serialization.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 4b2284b..b347d57 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -362,18 +362,20 @@ void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
+	strbuilder_append_str( result, txt("enum ") );
+
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
 	if ( self->UnderlyingType )
-		strbuilder_append_fmt( result, "enum %S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
 	else if (self->UnderlyingTypeMacro)
 	{
 		log_fmt("IDENTIFIED A UNDERLYING ENUM MACRO");
-		strbuilder_append_fmt( result, "enum %S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
 	}
 	else
-		strbuilder_append_fmt( result, "enum %S", self->Name );
+		strbuilder_append_str( result, self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
-- 
2.43.0


From fa1ae063688c6f49f9d73335e71031183421a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 007/256] fix: exported function definition separates export
 from what follows

---
 base/components/code_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index b347d57..8a9680d 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -467,10 +467,10 @@ void fn_to_strbuilder_def(CodeFn self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export") );
+		strbuilder_append_str( result, txt("export ") );
 
 	if ( self->Attributes )
-		strbuilder_append_fmt( result, " %SB ", attributes_to_strbuilder(self->Attributes) );
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
 	bool prefix_specs = false;
 	if ( self->Specs )
-- 
2.43.0


From e975a48c1a106867409ab81b0a5093db92aa9fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 008/256] fix: pure and deleted function forwards serialize
 that specifier once, after the other trailing ones

---
 base/components/code_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 8a9680d..cf37df4 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -536,7 +536,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( ! spec_is_trailing( * spec ) || ! ( * spec != Spec_Pure) )
+			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
@@ -567,7 +567,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( spec_is_trailing( * spec ) )
+			if ( spec_is_trailing( * spec ) && * spec != Spec_Pure && * spec != Spec_Delete )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
-- 
2.43.0


From 7f88020071232a24420d5b8783bc83045e196d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 009/256] fix: defaulted function forward ends with a single
 semicolon

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index cf37df4..bdb95bb 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -585,7 +585,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->SuffixSpecs) );
 
 	if (self->Body)
-		strbuilder_append_fmt( result, " = %SB;", body_to_strbuilder(self->Body) );
+		strbuilder_append_fmt( result, " = %SB", body_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
-- 
2.43.0


From 1125e2f3f8191620ead8cf2a0460961033a5369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 010/256] fix: operator definition serializes its attributes
 once

---
 base/components/code_serialization.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index bdb95bb..fd38d91 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -634,9 +634,6 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
-- 
2.43.0


From 2cd202d1d58a2edfff2b8a7655dc96c17feec1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 011/256] fix: forward cast operator with an inline comment
 passes the comment to its format

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index fd38d91..9b501e8 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -819,7 +819,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 	}
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "operator %SB();  %SB", typename_to_strbuilder(self->ValueType) );
+		strbuilder_append_fmt( result, "operator %SB();  %S", typename_to_strbuilder(self->ValueType), self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "operator %SB();\n", typename_to_strbuilder(self->ValueType) );
 }
-- 
2.43.0


From 79ee75c12cab289a43a14da6a09c88eb399518a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 012/256] fix: attributes, comment and execution serialization
 return a string builder, not a bare duplicate of the text

---
 base/components/inlines.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5bf6bf5..58e2dbc 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -7,9 +7,7 @@
 inline
 StrBuilder attributes_to_strbuilder(CodeAttributes attributes) {
 	GEN_ASSERT(attributes);
-	char* raw = ccast(char*, str_duplicate( attributes->Content, get_context()->Allocator_Temp ).Ptr);
-	StrBuilder result = { raw };
-	return result;
+	return strbuilder_make_str( get_context()->Allocator_Temp, attributes->Content );
 }
 
 inline
@@ -22,9 +20,7 @@ void attributes_to_strbuilder_ref(CodeAttributes attributes, StrBuilder* result)
 inline
 StrBuilder comment_to_strbuilder(CodeComment comment) {
 	GEN_ASSERT(comment);
-	char* raw = ccast(char*, str_duplicate( comment->Content, get_context()->Allocator_Temp ).Ptr);
-	StrBuilder result = { raw };
-	return result;
+	return strbuilder_make_str( get_context()->Allocator_Temp, comment->Content );
 }
 
 inline
@@ -71,9 +67,7 @@ inline
 StrBuilder exec_to_strbuilder(CodeExec exec)
 {
 	GEN_ASSERT(exec);
-	char* raw = ccast(char*, str_duplicate( exec->Content, _ctx->Allocator_Temp ).Ptr);
-	StrBuilder result = { raw };
-	return result;
+	return strbuilder_make_str( _ctx->Allocator_Temp, exec->Content );
 }
 
 inline
-- 
2.43.0


From ca38ae56a2a60ac1fc9736650658393cde707b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 013/256] fix: using namespace with an inline comment
 serializes its name

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 58e2dbc..e0dfb9a 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -292,7 +292,7 @@ void using_to_strbuilder_ns(CodeUsing self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "using namespace $S;  %S", self->Name, self->InlineCmt->Content );
+		strbuilder_append_fmt( result, "using namespace %S;  %S", self->Name, self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "using namespace %S;\n", self->Name );
 }
-- 
2.43.0


From 1ce99675da9ac25d724487d27fabf215811ba3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 014/256] fix: cast operator specifiers are bounded by
 precision, not padded by width

---
 base/components/code_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9b501e8..229fda8 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -757,7 +757,7 @@ void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%.*s ", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -796,7 +796,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%.*s ", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
-- 
2.43.0


From 8442365d742fc21760e2ca2f59a75ba04eef90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 015/256] fix: cast operator trailing specifiers are bounded by
 precision, not padded by width

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 229fda8..01df2f9 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -807,7 +807,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
-- 
2.43.0


From 7b8a8d013db9487e0ad133d1f911781c01d173e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 016/256] fix: class, struct and constructor inline comments
 are not commented twice

---
 base/components/code_serialization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 01df2f9..87483f7 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -87,7 +87,7 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->InitializerList) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, " %S", self->InlineCmt->Content );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -173,7 +173,7 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 
 	if ( self->InlineCmt )
 	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, " %S", self->InlineCmt->Content );
 	}
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
@@ -973,7 +973,7 @@ void struct_to_strbuilder_def( CodeStruct self, StrBuilder* result )
 
 	if ( self->InlineCmt )
 	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, " %S", self->InlineCmt->Content );
 	}
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
-- 
2.43.0


From 26d885dba7116a6a2ba68fc81f7fb9da81d41b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 017/256] fix: struct bodies name their struct as parent, as
 class bodies do

---
 base/components/interface.upfront.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 94af5f7..98e4f25 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1061,6 +1061,7 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 	if ( p.body ) {
 		result->Type = CT_Struct;
 		result->Body = p.body;
+		result->Body->Parent = cast(Code, result);
 	}
 	else {
 		result->Type = CT_Struct_Fwd;
-- 
2.43.0


From e0514b668d170237ff5265ad6dad494e0a586bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 018/256] fix: constructors serialize their specifiers and only
 take their name from an enclosing class or struct

---
 base/components/code_serialization.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 87483f7..cc95f6e 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -70,7 +70,18 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
+	Code ClassStructParent = { nullptr };
+	if (self->Parent && ( self->Parent->Type == CT_Class_Body || self->Parent->Type == CT_Struct_Body )) {
+		ClassStructParent = self->Parent->Parent;
+	}
+	if (self->Specs)
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
 	if (ClassStructParent) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
@@ -96,7 +107,18 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
+	Code ClassStructParent = { nullptr };
+	if (self->Parent && ( self->Parent->Type == CT_Class_Body || self->Parent->Type == CT_Struct_Body )) {
+		ClassStructParent = self->Parent->Parent;
+	}
+	if (self->Specs)
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
 	if (ClassStructParent) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
-- 
2.43.0


From 601cfd63b2d2266430028e06c69c796e76370685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 019/256] fix: defaulted and deleted constructors keep their
 assigned body and consume their statement end

---
 base/components/parser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b064e04..5df84a2 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3546,6 +3546,14 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	else if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
 	{
 		body = cast(CodeBody, parse_assignment_expression());
+
+		Token stmt_end = currtok;
+		eat( Tok_Statement_End );
+		// <Name> ( <Parameters> ) = <Expression>;
+
+		if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
+			inline_cmt = parse_comment();
+		// <Name> ( <Parameters> ) = <Expression>; <InlineCmt>
 	}
 	else
 	{
@@ -3576,7 +3584,10 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 		result->Type = CT_Constructor;
 	}
 	else
+	{
+		result->Body = cast(Code, body);
 		result->Type = CT_Constructor_Fwd;
+	}
 
 	if ( inline_cmt )
 		result->InlineCmt = inline_cmt;
-- 
2.43.0


From 690261cef4ea46cb3f253c0a89dc26db7999dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 020/256] fix: destructors serialize their own name, all
 specifiers and one statement end

---
 base/components/code_serialization.cpp | 56 +++++++++++++++-----------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index cc95f6e..a718686 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -274,24 +274,38 @@ StrBuilder destructor_to_strbuilder(CodeDestructor self)
 	return result;
 }
 
-void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
+internal
+void destructor_to_strbuilder_signature(CodeDestructor self, StrBuilder* result )
 {
-	GEN_ASSERT(self);
-	GEN_ASSERT(result);
-	if ( self->Name.Len )
+	if ( self->Specs )
 	{
-		strbuilder_append_fmt( result, "%S()", self->Name );
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
 	}
-	else if ( self->Specs )
+
+	if ( self->Parent && ( self->Parent->Type == CT_Class_Body || self->Parent->Type == CT_Struct_Body ) && self->Parent->Parent )
+		strbuilder_append_fmt( result, "~%S()", self->Parent->Parent->Name );
+	else
+		strbuilder_append_fmt( result, "%S()", self->Name );
+
+	if ( self->Specs )
 	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S()", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( spec_is_trailing( * spec ) && * spec != Spec_Pure && * spec != Spec_Delete )
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
+		}
 	}
-	else
-		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+}
 
+void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
+{
+	GEN_ASSERT(self);
+	GEN_ASSERT(result);
+	destructor_to_strbuilder_signature( self, result );
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
 
@@ -299,20 +313,14 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Specs )
-	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S();\n", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+	destructor_to_strbuilder_signature( self, result );
 
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0;") );
-		else if (self->Body)
-			strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
-	}
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Pure ) )
+		strbuilder_append_str( result, txt(" = 0;") );
+	else if (self->Body)
+		strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
 	else
-		strbuilder_append_fmt( result, "~%S();", self->Parent->Name );
+		strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
-- 
2.43.0


From 0fd2c23fc3f1dc8122da1b2cd1aa085306a5d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 021/256] fix: destructors keep their name and assigned body
 when parsed, also without prior specifiers or a class around them

---
 base/components/parser.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5df84a2..a6a56a2 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3715,6 +3715,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	}
 	// <Virtual Specifier> ~
 
+	Token       tilde      = prevtok;
 	Token       identifier = parse_identifier(nullptr);
 	CodeBody    body       = { nullptr };
 	CodeComment inline_cmt = NullCode;
@@ -3738,7 +3739,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 			eat( Tok_Number );
 			// <Virtual Specifier> ~<Name>() = 0
 
-			specifiers_append(specifiers, Spec_Pure );
+			if ( specifiers )
+				specifiers_append(specifiers, Spec_Pure );
+			else
+				specifiers = def_specifier( Spec_Pure );
 		}
 		else if ( left && c_str_compare_len( upcoming.Text.Ptr, "default", sizeof("default") - 1 ) == 0) 
 		{
@@ -3773,10 +3777,9 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 
 	CodeDestructor result = ( CodeDestructor )make_code();
 
-	if ( tok_is_valid(prefix_identifier) ) {
-		prefix_identifier.Text.Len += 1 + identifier.Text.Len;
-		result->Name = cache_str( prefix_identifier.Text );
-	}
+	Str full_name = tok_is_valid(prefix_identifier) ? prefix_identifier.Text : tilde.Text;
+	full_name.Len = ( (sptr)identifier.Text.Ptr + identifier.Text.Len ) - (sptr)full_name.Ptr;
+	result->Name  = cache_str( full_name );
 
 	if ( specifiers )
 		result->Specs = specifiers;
@@ -3786,7 +3789,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		result->Type = CT_Destructor;
 	}
 	else
+	{
+		result->Body = cast(Code, body);
 		result->Type = CT_Destructor_Fwd;
+	}
 
 	if ( inline_cmt )
 		result->InlineCmt = inline_cmt;
-- 
2.43.0


From 4d3719435712a17f97d846648672686ea62f7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 022/256] fix: define parameters keep interned names instead of
 pointing into the source

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a6a56a2..7ba91af 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3632,7 +3632,7 @@ CodeDefine parser_parse_define()
 		params->Type = CT_Parameters_Define;
 
 		if ( left && currtok.Type != Tok_Paren_Close ) {
-			params->Name = currtok.Text;
+			params->Name = cache_str( currtok.Text );
 			params->NumEntries ++;
 
 			eat( Tok_Preprocess_Define_Param );
@@ -3645,7 +3645,7 @@ CodeDefine parser_parse_define()
 
 			CodeDefineParams next_param = (CodeDefineParams) make_code();
 			next_param->Type = CT_Parameters_Define;
-			next_param->Name = currtok.Text;
+			next_param->Name = cache_str( currtok.Text );
 			define_params_append(params, next_param);
 
 			// #define  <Name> (  <param>, <next_param> ...
-- 
2.43.0


From 4207d194c0037965375b1615498dd8aa1450d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 023/256] fix: the lexer works on a terminated copy and never
 advances past its end

---
 base/components/lexer.cpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f501f70..51a7842 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -77,6 +77,8 @@ enum
 forceinline
 void lexer_move_forward( LexContext* ctx )
 {
+	if ( ctx->left <= 0 )
+		return;
 	if ( * ctx->scanner == '\n' ) {
 		ctx->line   += 1;
 		ctx->column  = 1;
@@ -398,8 +400,11 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			preprocess_content.Text.Len++;
 		}
 
-		move_forward();
-		preprocess_content.Text.Len++;
+		if ( ctx->left )
+		{
+			move_forward();
+			preprocess_content.Text.Len++;
+		}
 
 		if ( (* ctx->scanner) == '\r' && ctx->scanner[1] == '\n' )
 		{
@@ -569,10 +574,23 @@ neverinline
 // TokArray lex( Array<Token> tokens, Str content )
 TokArray lex( Str content )
 {
+	// The scanner looks up to two characters ahead without asking how many are left,
+	// the content is a view that is neither terminated nor required to outlive the call.
+	char* terminated = rcast(char*, alloc( _ctx->Allocator_Temp, content.Len + 3 ));
+	if ( terminated == nullptr )
+	{
+		log_failure( "gen::lex: failed to allocate a copy of the content" );
+		TokArray null_array = {};
+		return null_array;
+	}
+	mem_copy( terminated, content.Ptr, content.Len );
+	mem_set( terminated + content.Len, 0, 3 );
+
 	LexContext c; LexContext* ctx = & c;
-	c.content = content;
-	c.left    = content.Len;
-	c.scanner = content.Ptr;
+	c.content.Ptr = terminated;
+	c.content.Len = content.Len;
+	c.left        = content.Len;
+	c.scanner     = terminated;
 
 	char const* word        = c.scanner;
 	s32         word_length = 0;
@@ -1141,9 +1159,12 @@ TokArray lex( Str content )
 							slash  = c.scanner[1] == '/';
 							at_end = star && slash;
 						}
-						c.token.Text.Len += 2;
-						move_forward();
-						move_forward();
+						if ( at_end )
+						{
+							c.token.Text.Len += 2;
+							move_forward();
+							move_forward();
+						}
 
 						if ( (* ctx->scanner) == '\r' )
 						{
-- 
2.43.0


From 55131d160b7134b8dec4e2e76f9d79b9c5a3d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 024/256] fix: token lookups past either end see an invalid
 token instead of stale or foreign memory

---
 base/components/lexer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 51a7842..a7fa956 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -17,6 +17,9 @@ StrBuilder tok_to_strbuilder(Token tok)
 	return result;
 }
 
+// Invalid tokens kept (uncounted) after the last lexed token
+enum { Lexer_EndTokens = 4 };
+
 bool lex__eat( TokArray* self, TokType type );
 
 Token* lex_current(TokArray* self, bool skip_formatting )
@@ -47,12 +50,12 @@ Token* lex_previous(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( idx > 0 && self.Arr[idx].Type == Tok_NewLine )
 			idx --;
 
 		return & self.Arr[idx];
 	}
-	return & self.Arr[idx - 1];
+	return & self.Arr[idx > 0 ? idx - 1 : 0];
 }
 
 Token* lex_next(TokArray self, bool skip_formatting)
@@ -1315,6 +1318,12 @@ TokArray lex( Str content )
 		return tok_array;
 	}
 
+	// The parser may look a few tokens past the end, it must not see those of a previous lex.
+	Token end_tok = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
+	for ( s32 idx = 0; idx < Lexer_EndTokens; idx++ )
+		array_append( _ctx->Lexer_Tokens, end_tok );
+	array_get_header( _ctx->Lexer_Tokens )->Num -= Lexer_EndTokens;
+
 	TokArray result = { _ctx->Lexer_Tokens, 0 };
 	return result;
 }
-- 
2.43.0


From a5419d8d4279d85e2d74e45063d9d2d6928ac7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 025/256] fix: string literal tokens include their closing
 quote

---
 base/components/lexer.cpp  | 1 +
 base/components/parser.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index a7fa956..6374047 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -933,6 +933,7 @@ TokArray lex( Str content )
 					if ( (* ctx->scanner) == '"' )
 					{
 						move_forward();
+						c.token.Text.Len++;
 						break;
 					}
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 7ba91af..5254ed7 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4076,7 +4076,7 @@ CodeExtern parser_parse_extern_link()
 	// extern "<Name>"
 
 	name.Text.Ptr += 1;
-	name.Text.Len -= 1;
+	name.Text.Len -= 2;
 
 	CodeExtern
 	result       = (CodeExtern) make_code();
-- 
2.43.0


From 23c5ec5022879de7bf486a461ef09c9e81051aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 026/256] fix: formatting is stripped past literals that end in
 an escaped backslash

---
 base/components/parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5254ed7..880b2cc 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -283,7 +283,7 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		{
 			move_fwd();
 
-			while ( tokleft && ( scanner[0] != '"' || *( scanner - 1 ) == '\\' ) )
+			while ( tokleft && scanner[0] != '"' )
 			{
 				if ( scanner[0] == '\\' && tokleft > 1 )
 				{
@@ -310,11 +310,10 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		{
 			move_fwd();
 
-			while ( tokleft
-			&& ( scanner[0] != '\''
-				|| ( *(scanner -1 ) == '\\' )
-			) )
+			while ( tokleft && scanner[0] != '\'' )
 			{
+				if ( scanner[0] == '\\' && tokleft > 1 )
+					move_fwd();
 				move_fwd();
 			}
 
@@ -333,8 +332,9 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 			while ( tokleft > 1 && !(scanner[0] == '*' && scanner[1] == '/') )
 				move_fwd();
 
-			scanner += 2;
-			tokleft -= 2;
+			s32 closing = tokleft > 1 ? 2 : tokleft;
+			scanner += closing;
+			tokleft -= closing;
 
 			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
 			last_cut = rcast( sptr, scanner ) - rcast( sptr, raw_text.Ptr );
-- 
2.43.0


From 4242bc8c7c9131d4f452156a897257a9d37eb7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 027/256] fix: fatal messages are never used as formats

---
 base/dependencies/debug.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/debug.hpp b/base/dependencies/debug.hpp
index cb2970a..1d46e1e 100644
--- a/base/dependencies/debug.hpp
+++ b/base/dependencies/debug.hpp
@@ -52,7 +52,7 @@
 		char buf[GEN_PRINTF_MAXLEN] = { 0 };               \
 		                                                   \
 		c_str_fmt(buf, GEN_PRINTF_MAXLEN, __VA_ARGS__);    \
-		GEN_PANIC(buf);                                    \
+		GEN_PANIC("%s", buf);                              \
 	}                                                      \
 	while (0)
 #else
-- 
2.43.0


From ab06c0f826308fa01fdd3f65be357bf9e8467ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 028/256] fix: parse entry points start from a fresh scope and
 stop at an empty or null definition

---
 base/components/interface.parsing.cpp | 46 +++++++++++++--------------
 base/components/parser.cpp            | 16 +++++++---
 2 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d5f4bef..ea4ef3c 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -16,7 +16,7 @@ CodeClass parse_class( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	push_scope();
 	CodeClass result = (CodeClass) parse_class_struct( Tok_Decl_Class, parser_not_inplace_def );
 	parser_pop(& _ctx->parser);
@@ -31,6 +31,9 @@ CodeConstructor parse_constructor( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
+	parser_start( toks );
+	push_scope();
+
 	// TODO(Ed): Constructors can have prefix attributes
 
 	CodeSpecifiers specifiers = NullCode;
@@ -77,8 +80,8 @@ CodeConstructor parse_constructor( Str def )
 		// <specifiers> ...
 	}
 
-	_ctx->parser.Tokens         = toks;
 	CodeConstructor result = parser_parse_constructor( specifiers );
+	parser_pop(& _ctx->parser);
 	return result;
 }
 
@@ -90,7 +93,7 @@ CodeDefine parse_define( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	push_scope();
 	CodeDefine result = parser_parse_define();
 	parser_pop(& _ctx->parser);
@@ -108,7 +111,7 @@ CodeDestructor parse_destructor( Str def )
 	// TODO(Ed): Destructors can have prefix attributes
 	// TODO(Ed): Destructors can have virtual
 
-	_ctx->parser.Tokens        = toks;
+	parser_start( toks );
 	CodeDestructor result = parser_parse_destructor(NullCode);
 	return result;
 }
@@ -119,12 +122,9 @@ CodeEnum parse_enum( Str def )
 
 	TokArray toks = lex( def );
 	if ( toks.Arr == nullptr )
-	{
-		parser_pop(& _ctx->parser);
 		return InvalidCode;
-	}
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_enum( parser_not_inplace_def);
 }
 
@@ -136,7 +136,7 @@ CodeBody parse_export_body( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_export_body();
 }
 
@@ -148,7 +148,7 @@ CodeExtern parse_extern_link( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_extern_link();
 }
 
@@ -160,7 +160,7 @@ CodeFriend parse_friend( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_friend();
 }
 
@@ -172,7 +172,7 @@ CodeFn parse_function( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return (CodeFn) parser_parse_function();
 }
 
@@ -184,7 +184,7 @@ CodeBody parse_global_body( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	push_scope();
 	CodeBody result = parse_global_nspace( CT_Global_Body );
 	parser_pop(& _ctx->parser);
@@ -199,7 +199,7 @@ CodeNS parse_namespace( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_namespace();
 }
 
@@ -211,7 +211,7 @@ CodeOperator parse_operator( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return (CodeOperator) parser_parse_operator();
 }
 
@@ -223,7 +223,7 @@ CodeOpCast parse_operator_cast( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_operator_cast(NullCode);
 }
 
@@ -235,7 +235,7 @@ CodeStruct parse_struct( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	push_scope();
 	CodeStruct result = (CodeStruct) parse_class_struct( Tok_Decl_Struct, parser_not_inplace_def );
 	parser_pop(& _ctx->parser);
@@ -250,7 +250,7 @@ CodeTemplate parse_template( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_template();
 }
 
@@ -262,7 +262,7 @@ CodeTypename parse_type( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_type( parser_not_from_template, nullptr);
 }
 
@@ -274,7 +274,7 @@ CodeTypedef parse_typedef( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_typedef();
 }
 
@@ -286,7 +286,7 @@ CodeUnion parse_union( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_union( parser_not_inplace_def);
 }
 
@@ -298,7 +298,7 @@ CodeUsing parse_using( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_using();
 }
 
@@ -310,7 +310,7 @@ CodeVar parse_variable( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
-	_ctx->parser.Tokens = toks;
+	parser_start( toks );
 	return parser_parse_variable();
 }
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 880b2cc..3a81993 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -29,6 +29,14 @@ void parser_pop(ParseContext* ctx)
 	ctx->Scope = ctx->Scope->Prev;
 }
 
+// An earlier parse that failed may have left scopes of procedures that are gone.
+internal
+void parser_start( TokArray tokens )
+{
+	_ctx->parser.Tokens = tokens;
+	_ctx->parser.Scope  = nullptr;
+}
+
 StrBuilder parser_to_strbuilder(ParseContext ctx)
 {
 	StrBuilder result = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(4) );
@@ -138,19 +146,17 @@ void parser_deinit()
 
 #pragma region Helper Macros
 
-#define check_parse_args( def ) _check_parse_args(def, stringize(_func_) )
+#define check_parse_args( def ) if ( ! _check_parse_args(def, __func__ ) ) return InvalidCode
 bool _check_parse_args( Str def, char const* func_name )
 {
 	if ( def.Len <= 0 )
 	{
-		log_failure( c_str_fmt_buf("gen::%s: length must greater than 0", func_name) );
-		parser_pop(& _ctx->parser);
+		log_failure( "gen::%s: length must greater than 0", func_name );
 		return false;
 	}
 	if ( def.Ptr == nullptr )
 	{
-		log_failure( c_str_fmt_buf("gen::%s: def was null", func_name) );
-		parser_pop(& _ctx->parser);
+		log_failure( "gen::%s: def was null", func_name );
 		return false;
 	}
 	return true;
-- 
2.43.0


From dc5bbf996a817e55d6f925a41cc730c7e93beab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 029/256] fix: parser diagnostics only read tokens and text
 that exist

---
 base/components/parser.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3a81993..5609e18 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -41,12 +41,17 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 {
 	StrBuilder result = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(4) );
 
+	if ( ctx.Scope == nullptr || array_num(ctx.Tokens.Arr) == 0 )
+		return result;
+
 	Token scope_start = * ctx.Scope->Start;
-	Token last_valid  = ctx.Tokens.Idx >= array_num(ctx.Tokens.Arr) ? ctx.Tokens.Arr[array_num(ctx.Tokens.Arr) -1] : (* lex_current(& ctx.Tokens, true));
+	Token last_valid  = * lex_current(& ctx.Tokens, true);
+	if ( ctx.Tokens.Idx >= array_num(ctx.Tokens.Arr) )
+		last_valid = * array_back(ctx.Tokens.Arr);
 
 	sptr        length  = scope_start.Text.Len;
 	char const* current = scope_start.Text.Ptr + length;
-	while ( current <= array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) != '\n' && length < 74 )
+	while ( current < array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) != '\n' && length < 74 )
 	{
 		current++;
 		length++;
@@ -54,17 +59,14 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 
 	Str scope_str = { scope_start.Text.Ptr, length };
 	StrBuilder line = strbuilder_make_str( _ctx->Allocator_Temp, scope_str );
-	strbuilder_append_fmt( & result, "\tScope    : %s\n", line );
+	strbuilder_append_fmt( & result, "\tScope    : %.*s\n", scast(s32, min( strbuilder_length(line), 400 )), scast(char const*, line) );
 	strbuilder_free(& line);
 
 	sptr   dist            = (sptr)last_valid.Text.Ptr - (sptr)scope_start.Text.Ptr + 2;
 	sptr   length_from_err = dist;
 
-	Str err_str        = { last_valid.Text.Ptr, length_from_err };
-	StrBuilder line_from_err = strbuilder_make_str( _ctx->Allocator_Temp, err_str );
-
 	if ( length_from_err < 100 )
-		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, length_from_err, '^' );
+		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, scast(s32, length_from_err), '^' );
 	else
 		strbuilder_append_fmt(& result, "\t(%d, %d)\n", last_valid.Line, last_valid.Column );
 
@@ -73,7 +75,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	do
 	{
 		if ( curr_scope->Name.Ptr ) {
-			strbuilder_append_fmt(& result, "\t%d: %s, AST Name: %.*s\n", level, curr_scope->ProcName.Ptr, curr_scope->Name.Len, curr_scope->Name.Ptr );
+			strbuilder_append_fmt(& result, "\t%d: %s, AST Name: %.*s\n", level, curr_scope->ProcName.Ptr, scast(s32, min( curr_scope->Name.Len, 400 )), curr_scope->Name.Ptr );
 		}
 		else {
 			strbuilder_append_fmt(& result, "\t%d: %s\n", level, curr_scope->ProcName.Ptr );
-- 
2.43.0


From 2ec8f80fb3e6938d1599bf77e6fcff695a520eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 030/256] fix: assignment expressions run to the statement end
 outside of braces and parentheses

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5609e18..4846845 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1359,7 +1359,7 @@ Code parse_assignment_expression()
 	}
 
 	s32 level = 0;
-	while ( left && currtok.Type != Tok_Statement_End && (currtok.Type != Tok_Comma || level > 0) )
+	while ( left && ((currtok.Type != Tok_Statement_End && currtok.Type != Tok_Comma) || level > 0) )
 	{
 		if (currtok.Type == Tok_BraceCurly_Open )
 			level++;
-- 
2.43.0


From 615effa60294b9d1747743b376520bc35532b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 031/256] fix: function pointer variables do not take the token
 after them as a name

---
 base/components/parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4846845..4a03b35 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2605,8 +2605,12 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 	}
 	else
 	{
-		Token name = parse_identifier(nullptr);
-		_ctx->parser.Scope->Name = name.Text;
+		Token name = NullToken;
+		if ( type->ReturnType == nullptr ) {
+			// A function typename already holds the name
+			name = parse_identifier(nullptr);
+			_ctx->parser.Scope->Name = name.Text;
+		}
 
 		bool detected_capture = check( Tok_Paren_Open );
 
-- 
2.43.0


From f86c6ed163da09d4628315d633efb3aa15388464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 032/256] fix: comma separated variables keep their
 indirection, arrays and parent

---
 base/components/parser.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4a03b35..5a688b4 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3402,7 +3402,15 @@ CodeVar parse_variable_after_name(
 	result->InlineCmt    = inline_cmt;
 
 	if (array_expr)
-		type->ArrExpr = array_expr;
+	{
+		if ( ! type )
+		{
+			// Variables following a comma only have a typename of their own to hold their array expression
+			result->ValueType       = (CodeTypename) make_code();
+			result->ValueType->Type = CT_Typename;
+		}
+		result->ValueType->ArrExpr = array_expr;
+	}
 
 	if ( next_var ) {
 		result->NextVar         = next_var;
@@ -3439,13 +3447,11 @@ CodeVar parse_variable_declaration_list()
 			switch ( spec )
 			{
 				case Spec_Const:
-					if ( specifiers->NumEntries && specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
+					if ( ! specifiers || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
 					{
 						log_failure( "Error, const specifier must come after pointer specifier for variable declaration proceeding comma\n"
 						"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%SB"
 						, parser_to_strbuilder(_ctx->parser) );
-
-						specifiers_append(specifiers, spec );
 					}
 				break;
 
@@ -3488,7 +3494,7 @@ CodeVar parse_variable_declaration_list()
 		else
 		{
 			last_var->NextVar         = var;
-			last_var->NextVar->Parent = cast(Code, var);
+			last_var->NextVar->Parent = cast(Code, last_var);
 			last_var                  = var;
 		}
 	}
-- 
2.43.0


From b0b55c9bebb4c3a197b2f1c67f49099dc716558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 033/256] fix: variables of an in-place defined type serialize
 that definition instead of reading its body as an array expression

---
 base/components/code_serialization.cpp | 4 ++--
 base/components/parser.cpp             | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index a718686..fe90857 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1343,7 +1343,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->BitfieldSize )
 		strbuilder_append_fmt( result, "%SB %S : %SB", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->BitfieldSize) );
 
-	else if ( self->ValueType && self->ValueType->ArrExpr )
+	else if ( self->ValueType && self->ValueType->Type == CT_Typename && self->ValueType->ArrExpr )
 	{
 		strbuilder_append_fmt( result, "%SB %S[ %SB ]", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->ValueType->ArrExpr) );
 
@@ -1356,7 +1356,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	}
 
 	else
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
+		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(cast(Code, self->ValueType)), self->Name );
 
 	if ( self->Value )
 	{
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5a688b4..07932f1 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1255,6 +1255,12 @@ Code parse_complicated_definition( TokType which )
 			_ctx->parser.Scope->Name = name.Text;
 
 			CodeVar result = parse_variable_after_name(ModuleFlag_None, NullCode, NullCode, type, name.Text);
+			if ( cast(Code, result) == Code_Invalid ) {
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
+			// The definition needs to be aware of its parent so that it is serialized without a statement end.
+			type->Parent = cast(Code, result);
 			parser_pop(& _ctx->parser);
 			return (Code) result;
 		}
-- 
2.43.0


From 34fd51fc2b40244ba8c5125b2d58090e8af43e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 034/256] fix: multi-dimensional array typedefs end once

---
 base/components/code_serialization.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index fe90857..1f9783e 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1063,19 +1063,16 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 
 	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ArrExpr )
 	{
-		strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
+		strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
 
 		Code next_arr_expr = self->UnderlyingType->ArrExpr->Next;
 		while ( next_arr_expr )
 		{
-			strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(next_arr_expr) );
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
 			next_arr_expr = next_arr_expr->Next;
 		}
 	}
-	else
-	{
-		strbuilder_append_str( result, txt(";") );
-	}
+	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content);
-- 
2.43.0


From 81c0f5372587d5eb8c884e4cc752fdc9940e16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 035/256] fix: typedefs of definitions with an underlying type
 keep their name

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 1f9783e..331e8b7 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1056,7 +1056,7 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 	strbuilder_append_str( result, txt("typedef "));
 
 	// Determines if the typedef is a function typename
-	if ( self->UnderlyingType->ReturnType )
+	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ReturnType )
 		strbuilder_append_string( result, code_to_strbuilder(self->UnderlyingType) );
 	else
 		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(self->UnderlyingType), self->Name );
-- 
2.43.0


From 596a30dba5c69258cc4eb15a114b184ad00e725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 036/256] fix: function typenames without parameters or with
 attributes serialize completely

---
 base/components/code_serialization.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 331e8b7..6c17f29 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1100,17 +1100,20 @@ void typename_to_strbuilder_ref(CodeTypename self, StrBuilder* result )
 			break;
 		}
 	#else
-		if ( self->ReturnType && self->Params )
+		if ( self->ReturnType )
 		{
 			if ( self->Attributes )
 				strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
+			strbuilder_append_fmt( result, "%SB %S ", typename_to_strbuilder(self->ReturnType), self->Name );
+
+			if ( self->Params )
+				strbuilder_append_fmt( result, "( %SB )", params_to_strbuilder(self->Params) );
 			else
-			{
-				if ( self->Specs )
-					strbuilder_append_fmt( result, "%SB %S ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
-				else
-					strbuilder_append_fmt( result, "%SB %S ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
-			}
+				strbuilder_append_str( result, txt("()") );
+
+			if ( self->Specs )
+				strbuilder_append_fmt( result, " %SB", specifiers_to_strbuilder(self->Specs) );
 
 			return;
 		}
-- 
2.43.0


From 33fedf12ba39463a8a49e31f8527bdd287af432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 037/256] fix: friend declarations consume their own statement
 end exactly once

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 07932f1..cc2210e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4206,7 +4206,7 @@ CodeFriend parser_parse_friend()
 	}
 
 	CodeComment inline_cmt = NullCode;
-	if ( function && function->Type == CT_Function_Fwd )
+	if ( ! function && ! op )
 	{
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
-- 
2.43.0


From d37eaef4fe54c065f75542639453de18e0f9e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 038/256] fix: a comment after a definition is not moved in
 front of its body

---
 base/components/parser.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index cc2210e..2752999 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -782,9 +782,10 @@ Code parse_class_struct( TokType which, bool inplace_def )
 		eat( Tok_Statement_End );
 		// <ModuleFlags> <class/struct> <Attributes> <Name> <final> : <Access Specifier> <Name>, ... { <Body> };
 
-		if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
+		// An inline comment is serialized before the body, one found after it stays an entry of its own
+		if ( ! body && currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
 			inline_cmt = parse_comment();
-		// <ModuleFlags> <class/struct> <Attributes> <Name> <final> : <Access Specifier> <Name>, ... { <Body> }; <InlineCmt>
+		// <ModuleFlags> <class/struct> <Attributes> <Name> <final> : <Access Specifier> <Name>, ... ; <InlineCmt>
 	}
 
 	if ( which == Tok_Decl_Class )
@@ -4035,9 +4036,10 @@ CodeEnum parser_parse_enum( bool inplace_def )
 		eat( Tok_Statement_End );
 		// enum <class> <Attributes> <Name> : <UnderlyingType> { <Body> };
 
-		if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
+		// Only forwards serialize an inline comment, one found after a body stays an entry of its own
+		if ( ! body && currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
 			inline_cmt = parse_comment();
-			// enum <class> <Attributes> <Name> : <UnderlyingType> { <Body> }; <InlineCmt>
+			// enum <class> <Attributes> <Name> : <UnderlyingType>; <InlineCmt>
 	}
 
 	CodeEnum
-- 
2.43.0


From 1b9e9a0b15651c12dbf0b7cb576fec7f8d97e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 039/256] fix: vendor attributes are recognized as attributes

---
 base/components/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 6374047..09ee752 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -503,7 +503,7 @@ void lex_found_token( LexContext* ctx )
 	if (type <= Tok_Access_Public && type >= Tok_Access_Private ) {
 		ctx->token.Flags |= TF_AccessSpecifier;
 	}
-	if ( type > Tok___Attributes_Start ) {
+	if ( type > Tok___Attributes_Start || type == Tok_Decl_GNU_Attribute || type == Tok_Decl_MSVC_Attribute ) {
 		ctx->token.Flags |= TF_Attribute;
 	}
 	if ( type == Tok_Decl_Extern_Linkage )
-- 
2.43.0


From 41d7660290a697187e41c9c39c1ae05448685a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 040/256] fix: the scan for a function typename stops at the
 last token

---
 base/components/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2752999..71023e5 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4915,7 +4915,8 @@ else if ( currtok.Type == Tok_DeclType )
 		if ( is_function_typename )
 		{
 			// Go to the end of the signature
-			while ( scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
+			Token* last = array_back( _ctx->parser.Tokens.Arr );
+			while ( scanner < last && scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
 				++scanner;
 
 			// Go back to the first capture start found
-- 
2.43.0


From 7207b5b5023c4e837989b5616d9601ce3ea0483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 041/256] fix: enumerator values may hold commas within
 parentheses or braces

---
 base/components/parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 71023e5..3ef5889 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3976,7 +3976,13 @@ CodeEnum parser_parse_enum( bool inplace_def )
 						eat( Tok_Operator );
 						// <Name> =
 
-						while ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) {
+						s32 level = 0;
+						while ( left && ((currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close) || level > 0) )
+						{
+							if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
+								level++;
+							else if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
+								level--;
 							eat( currtok.Type );
 						}
 					}
-- 
2.43.0


From c5fd57eef9896d2aa5c4aa408db6309544bcbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 042/256] fix: fix: friend declarations of functions and
 operators end with one semicolon

---
 base/components/inlines.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index e0dfb9a..9e8b000 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -104,7 +104,11 @@ void friend_to_strbuilder_ref(CodeFriend self, StrBuilder* result )
 	GEN_ASSERT(result);
 	strbuilder_append_fmt( result, "friend %SB", code_to_strbuilder(self->Declaration) );
 
-	if ( self->Declaration->Type != CT_Function && self->Declaration->Type != CT_Operator && (* result)[ strbuilder_length(* result) - 1 ] != ';' )
+	// Functions and operators write the end of their declaration themselves
+	bool ends_itself = self->Declaration->Type == CT_Function || self->Declaration->Type == CT_Function_Fwd
+		|| self->Declaration->Type == CT_Operator || self->Declaration->Type == CT_Operator_Fwd;
+
+	if ( ! ends_itself && (* result)[ strbuilder_length(* result) - 1 ] != ';' )
 	{
 		strbuilder_append_str( result, txt(";") );
 	}
-- 
2.43.0


From 68eb258a927823f6f8319bfde87c8579ad216d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 043/256] fix: inline comments of forward declarations are
 written as they were given

---
 base/components/code_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 6c17f29..e413f7e 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -135,7 +135,7 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
 		strbuilder_append_str( result, txt(";\n") );
 }
@@ -221,7 +221,7 @@ void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
 		if ( self->InlineCmt )
-			strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 		else
 			strbuilder_append_str( result, txt(";\n") );
 	}
-- 
2.43.0


From 8cf1bffb00fa47aefe92f7eca4bd5d5fcaeee9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 044/256] fix: inline comments of using namespace and
 conversion operators are kept

---
 base/components/parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3ef5889..9e6f575 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4513,6 +4513,9 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	result->ValueType = cast(CodeTypename, type);
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
@@ -5630,11 +5633,11 @@ CodeUsing parser_parse_using()
 
 		if ( attributes )
 			result->Attributes = attributes;
-
-		if ( inline_cmt )
-			result->InlineCmt = inline_cmt;
 	}
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From b0015060960d616b1801753ba470db516f4fa44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 045/256] fix: conversion operator bodies are parsed like other
 function bodies

---
 base/components/parser.cpp | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9e6f575..4db457d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4461,28 +4461,8 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	if ( check( Tok_BraceCurly_Open) )
 	{
-		eat( Tok_BraceCurly_Open );
-		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> {
-
-		Token body_str = currtok;
-
-		s32 level = 0;
-		while ( left && ( currtok.Type != Tok_BraceCurly_Close || level > 0 ) )
-		{
-			if ( currtok.Type == Tok_BraceCurly_Open )
-				level++;
-
-			else if ( currtok.Type == Tok_BraceCurly_Close )
-				level--;
-
-			eat( currtok.Type );
-		}
-		body_str.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr;
-
-		eat( Tok_BraceCurly_Close );
+		body = parse_function_body();
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
-
-		body = untyped_str( body_str.Text );
 	}
 	else
 	{
-- 
2.43.0


From d2ba13914fa4795e410897e91ae92071d843df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 046/256] fix: attributes may hold nested parentheses

---
 base/components/parser.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4db457d..82ebea3 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -613,8 +613,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __attribute__((
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					++ level;
+				else if ( currtok.Type == Tok_Paren_Close )
+					-- level;
 				eat( currtok.Type );
 			}
 			// __attribute__(( <Content>
@@ -631,8 +636,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __declspec(
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					++ level;
+				else if ( currtok.Type == Tok_Paren_Close )
+					-- level;
 				eat( currtok.Type );
 			}
 			// __declspec( <Content>
@@ -653,7 +663,7 @@ CodeAttributes parse_attributes()
 				eat( Tok_Paren_Open );
 
 				s32 level = 0;
-				while (left && currtok.Type != Tok_Paren_Close && level == 0)
+				while (left && (currtok.Type != Tok_Paren_Close || level > 0))
 				{
 					if (currtok.Type == Tok_Paren_Open)
 						++ level;
-- 
2.43.0


From 1dd32c2e56e2ff04c3ec331d654fe632605e1099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 047/256] fix: array expressions may hold nested brackets

---
 base/components/parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 82ebea3..5b748e6 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -534,8 +534,14 @@ Code parse_array_decl()
 
 		Token untyped_tok = currtok;
 
-		while ( left && currtok.Type != Tok_BraceSquare_Close )
+		s32 level = 0;
+		while ( left && ( currtok.Type != Tok_BraceSquare_Close || level > 0 ) )
 		{
+			if ( currtok.Type == Tok_BraceSquare_Open )
+				++ level;
+			else if ( currtok.Type == Tok_BraceSquare_Close )
+				-- level;
+
 			eat( currtok.Type );
 		}
 
-- 
2.43.0


From d7ba9f3e0da6ab190ddca84863ab50c675ae93a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 048/256] fix: default arguments may hold comparisons, arrows
 and braces

---
 base/components/parser.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5b748e6..df83a37 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2861,18 +2861,19 @@ CodeParams parse_params( bool use_template_capture )
 			s32 template_level = 0;
 			while ( (left && ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 			{
-				if (currtok.Text.Ptr[ 0 ] == '<')
+				// Only angle brackets on their own enclose template arguments, not the ones of comparisons or arrows
+				if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '<')
 					++ template_level;
 
-				if (currtok.Text.Ptr[ 0 ] == '>')
-					-- template_level;
-				if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+				if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '>')
 					-- template_level;
+				if (currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
+					template_level -= template_level > 1 ? 2 : template_level;
 
-				if ( currtok.Type == Tok_Paren_Open)
+				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
 					++ capture_level;
 
-				if ( currtok.Type == Tok_Paren_Close)
+				if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_BraceSquare_Close )
 					-- capture_level;
 
 				value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -2973,18 +2974,19 @@ CodeParams parse_params( bool use_template_capture )
 				&& template_level >= 0
 				&& CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 				{
-					if (currtok.Text.Ptr[ 0 ] == '<')
+					// Only angle brackets on their own enclose template arguments, not the ones of comparisons or arrows
+					if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '<')
 						++ template_level;
 
-					if (currtok.Text.Ptr[ 0 ] == '>')
-						-- template_level;
-					if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+					if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '>')
 						-- template_level;
+					if (currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
+						template_level -= template_level > 1 ? 2 : template_level;
 
-					if ( currtok.Type == Tok_Paren_Open)
+					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
 						++ capture_level;
 
-					if ( currtok.Type == Tok_Paren_Close)
+					if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_BraceSquare_Close )
 						-- capture_level;
 
 					value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
-- 
2.43.0


From 792ac5ab3ea25cfaebc1d5c95ed2c304eb46f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 049/256] fix: diagnostics pass the arguments their formats
 name

---
 base/components/ast.cpp               |   6 +-
 base/components/interface.parsing.cpp |   2 +-
 base/components/interface.upfront.cpp | 133 +++++++++++++-------------
 base/components/lexer.cpp             |   2 +-
 base/components/parser.cpp            |  30 +++---
 5 files changed, 88 insertions(+), 85 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d8042b5..8448739 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -668,8 +668,8 @@ bool code_is_equal( Code self, Code other )
                                                                              \
 		log_fmt("Content cannot be trusted to be unique with this check "    \
 			"so it must be verified by eye for now\n"                        \
-			"AST   Content:\n%S\n"                                           \
-			"Other Content:\n%S\n"                                           \
+			"AST   Content:\n%SB\n"                                           \
+			"Other Content:\n%SB\n"                                           \
 			, str_visualize_whitespace(self->content, _ctx->Allocator_Temp)  \
 			, str_visualize_whitespace(other->content, _ctx->Allocator_Temp) \
 		);                                                                   \
@@ -931,6 +931,8 @@ bool code_is_equal( Code self, Code other )
 									"AST  : %S\n"
 									"Other: %S\n"
 									"For ast member: %S\n"
+								, code_debug_str(self)
+								, code_debug_str(other)
 								, code_debug_str(curr)
 							);
 
diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index ea4ef3c..6ef01d8 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -60,7 +60,7 @@ CodeConstructor parse_constructor( Str def )
 				break;
 
 			default :
-				log_failure( "Invalid specifier %s for variable\n%S", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Invalid specifier %S for variable\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 		}
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 98e4f25..0e4df50 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -178,6 +178,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						"operator %S is non-member symbol yet first paramter does not equal return type\n"
 						"param type: %S\n"
 						"return type: %S\n"
+						, operator_to_str(op)
 						, code_debug_str((Code)params_code)
 						, code_debug_str((Code)ret_type)
 					);
@@ -380,11 +381,11 @@ forceinline
 bool name__check( char const* context, Str name )
 {
 	if ( name.Len <= 0 ) {
-		log_failure( "gen::%s: Invalid name length provided - %d",  name.Len );
+		log_failure( "gen::%s: Invalid name length provided - %d", context, name.Len );
 		return false;
 	}
 	if ( name.Ptr == nullptr ) {
-		log_failure( "gen::%s: name is null" );
+		log_failure( "gen::%s: name is null", context );
 		return false;
 	}
 	return true;
@@ -476,7 +477,7 @@ CodeComment def_comment( Str content )
 CodeConstructor def_constructor( Opts_def_constructor p )
 {
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure("gen::def_constructor: params must be of Parameters type - %s", code_debug_str((Code)p.params));
+		log_failure("gen::def_constructor: params must be of Parameters type - %S", code_debug_str((Code)p.params));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -496,7 +497,7 @@ CodeConstructor def_constructor( Opts_def_constructor p )
 			break;
 
 			default:
-				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -517,12 +518,12 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && ( p.parent->Type != CT_Class && p.parent->Type != CT_Struct && p.parent->Type != CT_Typename && p.parent->Type != CT_Untyped ) ) {
-		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -544,7 +545,7 @@ CodeClass def_class( Str name, Opts_def_struct p )
 			break;
 
 			default:
-				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -588,7 +589,7 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 CodeDestructor def_destructor( Opts_def_destructor p )
 {
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -605,7 +606,7 @@ CodeDestructor def_destructor( Opts_def_destructor p )
 			break;
 
 			default:
-				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -626,12 +627,12 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 		return InvalidCode;
 	}
 	if ( p.type && p.type->Type != CT_Typename ) {
-		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %s", code_debug_str(p.type) );
+		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %S", code_debug_str(p.type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -649,7 +650,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 			break;
 
 			default:
-				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %s", code_debug_str(p.body));
+				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -701,7 +702,7 @@ CodeExtern def_extern_link( Str name, CodeBody body )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Extern_Linkage_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -732,7 +733,7 @@ CodeFriend def_friend( Code declaration )
 		break;
 
 		default:
-			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %s", code_debug_str(declaration));
+			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %S", code_debug_str(declaration));
 			return InvalidCode;
 	}
 	CodeFriend
@@ -749,22 +750,22 @@ CodeFn def_function( Str name, Opts_def_function p )
 		return InvalidCode;
 	}
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure( "gen::def_function: params was not a `Parameters` type: %s", code_debug_str(p.params) );
+		log_failure( "gen::def_function: params was not a `Parameters` type: %S", code_debug_str(p.params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.ret_type && p.ret_type->Type != CT_Typename ) {
-		log_failure( "gen::def_function: ret_type was not a Typename: %s", code_debug_str(p.ret_type) );
+		log_failure( "gen::def_function: ret_type was not a Typename: %S", code_debug_str(p.ret_type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specs && p.specs-> Type != CT_Specifiers ) {
-		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %s", code_debug_str(p.specs) );
+		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %S", code_debug_str(p.specs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attrs && p.attrs->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %s", code_debug_str(p.attrs) );
+		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %S", code_debug_str(p.attrs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -784,7 +785,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 
 			default:
 			{
-				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				return InvalidCode;
 			}
 		}
@@ -805,7 +806,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 CodeInclude def_include( Str path, Opts_def_include p )
 {
 	if ( path.Len <= 0 || path.Ptr == nullptr ) {
-		log_failure( "gen::def_include: Invalid path provided - %d" );
+		log_failure( "gen::def_include: Invalid path provided - %d", path.Len );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -846,7 +847,7 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 		return InvalidCode;
 	}
 	if ( body && body->Type != CT_Namespace_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_namespace: body is not of namespace or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_namespace: body is not of namespace or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -862,12 +863,12 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -903,7 +904,7 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 
 			default:
 			{
-				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				GEN_DEBUG_TRAP();
 				return InvalidCode;
 			}
@@ -933,7 +934,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_operator_cast: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_operator_cast: type is not a typename - %S", code_debug_str(type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -944,7 +945,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		result->Type = CT_Operator_Cast;
 
 		if ( p.body->Type != CT_Function_Body && p.body->Type != CT_Execution ) {
-			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %s", code_debug_str(p.body) );
+			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %S", code_debug_str(p.body) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -966,11 +967,11 @@ CodeParams def_param( CodeTypename type, Str name, Opts_def_param p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_param: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_param: type is not a typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped ) {
-		log_failure( "gen::def_param: value is not untyped - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_param: value is not untyped - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeParams
@@ -1037,17 +1038,17 @@ CodeSpecifiers def_specifier( Specifier spec )
 CodeStruct def_struct( Str name, Opts_def_struct p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %s", code_debug_str(cast(Code, p.attributes)) );
+		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %S", code_debug_str(cast(Code, p.attributes)) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && p.parent->Type != CT_Typename ) {
-		log_failure( "gen::def_struct: parent was not a `Struct` type - %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_struct: parent was not a `Struct` type - %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.body && p.body->Type != CT_Struct_Body ) {
-		log_failure( "gen::def_struct: body was not a Struct_Body type - %s", code_debug_str(p.body) );
+		log_failure( "gen::def_struct: body was not a Struct_Body type - %S", code_debug_str(p.body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1084,7 +1085,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		return InvalidCode;
 	}
 	if ( params && params->Type != CT_Parameters ){
-		log_failure( "gen::def_template: params is not of parameters type - %s", code_debug_str(params) );
+		log_failure( "gen::def_template: params is not of parameters type - %S", code_debug_str(params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1098,7 +1099,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		break;
 
 		default:
-			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %s", code_debug_str(declaration) );
+			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %S", code_debug_str(declaration) );
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
@@ -1119,17 +1120,17 @@ CodeTypename def_type( Str name, Opts_def_type p )
 	CodeSpecifiers specifiers = p.specifiers;
 	CodeAttributes attributes = p.attributes;
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_type: attributes is not of attributes type - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_type: attributes is not of attributes type - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_type: specifiers is not of specifiers type - %s", code_debug_str((Code)p.specifiers) );
+		log_failure( "gen::def_type: specifiers is not of specifiers type - %S", code_debug_str((Code)p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.array_expr && p.array_expr->Type != CT_Untyped ) {
-		log_failure( "gen::def_type: arrayexpr is not of untyped type - %s", code_debug_str((Code)p.array_expr) );
+		log_failure( "gen::def_type: arrayexpr is not of untyped type - %S", code_debug_str((Code)p.array_expr) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1165,12 +1166,12 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		case CT_Typename:
 			break;
 		default:
-			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %s", code_debug_str((Code)type) );
+			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %S", code_debug_str((Code)type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1192,7 +1193,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	if ( name.Len <= 0  )
 	{
 		if (type->Type != CT_Untyped) {
-			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %s", code_debug_str(type) );
+			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %S", code_debug_str(type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -1214,12 +1215,12 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Union_Body ) {
-		log_failure( "gen::def_union: body was not a Union_Body type - %s", code_debug_str(body) );
+		log_failure( "gen::def_union: body was not a Union_Body type - %S", code_debug_str(body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1248,7 +1249,7 @@ CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1283,22 +1284,22 @@ CodeVar def_variable( CodeTypename type, Str name, Opts_def_variable p )
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes )
 	{
-		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %S", code_debug_str(p.attributes) );
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers )
 	{
-		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %S", code_debug_str(p.specifiers) );
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename )
 	{
-		log_failure( "gen::def_variable: type was not a Typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_variable: type was not a Typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped )
 	{
-		log_failure( "gen::def_variable: value was not a `Untyped` type - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_variable: value was not a `Untyped` type - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeVar
@@ -1358,7 +1359,7 @@ CodeBody def_class_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1390,7 +1391,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1445,7 +1446,7 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		return InvalidCode;                                                                                                                       \
 	}                                                                                                                                             \
 	if (current->Type != CT_Parameters_Define ) {                                                                                                 \
-		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
+		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
 	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
@@ -1483,7 +1484,7 @@ CodeBody def_enum_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1509,7 +1510,7 @@ CodeBody def_enum_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1541,7 +1542,7 @@ CodeBody def_export_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1573,7 +1574,7 @@ CodeBody def_export_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1607,7 +1608,7 @@ CodeBody def_extern_link_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1640,7 +1641,7 @@ CodeBody def_extern_link_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1674,7 +1675,7 @@ CodeBody def_function_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1706,7 +1707,7 @@ CodeBody def_function_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1745,7 +1746,7 @@ CodeBody def_global_body( s32 num, ... )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1781,7 +1782,7 @@ CodeBody def_global_body_arr( s32 num, Code* codes )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1816,7 +1817,7 @@ CodeBody def_namespace_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1848,7 +1849,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default: break;
@@ -1902,7 +1903,7 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		return InvalidCode;                                                                                            \
 	}                                                                                                                  \
 	if (current->Type != CT_Parameters ) {                                                                             \
-		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
+		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
 	CodeParams current = (CodeParams)code_duplicate(* codes);
@@ -1993,7 +1994,7 @@ CodeBody def_struct_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -2025,7 +2026,7 @@ CodeBody def_struct_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default:
@@ -2057,7 +2058,7 @@ CodeBody def_union_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -2083,7 +2084,7 @@ CodeBody def_union_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 09ee752..f185e09 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -323,7 +323,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				else
 				{
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
-								" in preprocessor directive (%d, %d)\n%.100s"
+								" in preprocessor directive (%d, %d)\n%S"
 						, (* ctx->scanner), ctx->line, ctx->column
 						, ctx->token.Line, ctx->token.Column, ctx->token.Text );
 					break;
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index df83a37..accff49 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -559,7 +559,7 @@ Code parse_array_decl()
 
 		if ( currtok.Type != Tok_BraceSquare_Close )
 		{
-			log_failure( "%s: Error, expected ] in array declaration, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected ] in array declaration, not %S\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -709,7 +709,7 @@ internal
 Code parse_class_struct( TokType which, bool inplace_def )
 {
 	if ( which != Tok_Decl_Class && which != Tok_Decl_Struct ) {
-		log_failure( "Error, expected class or struct, not %s\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected class or struct, not %S\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
 		return InvalidCode;
 	}
 
@@ -1008,7 +1008,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -1248,7 +1248,7 @@ Code parse_complicated_definition( TokType which )
 			return result;
 		}
 
-		log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -1309,7 +1309,7 @@ Code parse_complicated_definition( TokType which )
 
 		if ( ! ok_to_parse )
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1328,7 +1328,7 @@ Code parse_complicated_definition( TokType which )
 			&&	( tokens.Arr[idx - 4].Type != which))
 		)
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1544,7 +1544,7 @@ CodeFn parse_function_after_name(
 
 			default:
 			{
-				log_failure("Body must be either of Function_Body or Untyped type, %s\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
+				log_failure("Body must be either of Function_Body or Untyped type, %S\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -1790,7 +1790,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Module_Import: {
 				// import ...
-				log_failure( "gen::%s: This function is not implemented" );
+				log_failure( "gen::%s: This function is not implemented", __func__ );
 				return InvalidCode;
 			}
 			break;
@@ -1799,7 +1799,7 @@ CodeBody parse_global_nspace( CodeType which )
 			{
 				if (tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -2113,7 +2113,7 @@ Token parse_identifier( bool* possible_member_function )
 				return name;
 			}
 
-			log_failure( "Error, had a ~ operator after %SB but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, had a ~ operator after %S but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2133,7 +2133,7 @@ Token parse_identifier( bool* possible_member_function )
 
 		if ( currtok.Type != Tok_Identifier )
 		{
-			log_failure( "Error, expected static symbol identifier, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected static symbol identifier, not %S\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2465,7 +2465,7 @@ CodeOperator parse_operator_after_ret_type(
 			{
 				if ( op == Op_Invalid )
 				{
-					log_failure( "Invalid operator '%s'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Invalid operator '%S'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2475,7 +2475,7 @@ CodeOperator parse_operator_after_ret_type(
 
 	if ( op == Op_Invalid )
 	{
-		log_failure( "Invalid operator '%s'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Invalid operator '%S'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3084,7 +3084,7 @@ Code parse_simple_preprocess( TokType which )
 
 	Macro* macro = lookup_macro( full_macro.Text );
 	if ( which != Tok_Preprocess_Unsupported && macro == nullptr ) {
-		log_failure("Expected the macro %S to be registered\n%S", full_macro,  parser_to_strbuilder(_ctx->parser));
+		log_failure("Expected the macro %S to be registered\n%SB", full_macro.Text,  parser_to_strbuilder(_ctx->parser));
 		return NullCode;
 	}
 
@@ -3703,7 +3703,7 @@ CodeDefine parser_parse_define()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define %s\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define %S\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
-- 
2.43.0


From d79dc667396590791db04875ca78c6b3a03304c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 050/256] fix: declarations starting with class, enum, struct
 or union are told apart by their head

---
 base/components/parser.cpp | 269 ++++++++++++++++---------------------
 1 file changed, 119 insertions(+), 150 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index accff49..6c8beb8 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1175,193 +1175,162 @@ CodeComment parse_comment()
 	return result;
 }
 
+// Moves to the next token that is not formatting.
 internal
-Code parse_complicated_definition( TokType which )
+Token complicated_definition_next( TokArray* tokens )
 {
-	push_scope();
-
-	b32 is_inplace = false;
-	b32 is_fn_def  = false;
-
-	TokArray tokens = _ctx->parser.Tokens;
+	lex_current( tokens, lex_skip_formatting );
+	tokens->Idx ++;
+	return * lex_current( tokens, lex_skip_formatting );
+}
 
-	s32 idx         = tokens.Idx;
-	s32 level       = 0;
-	b32 had_def     = false;
-	b32 had_paren   = false;
-	for ( ; idx < array_num(tokens.Arr); idx++ )
+// Moves past the group that opens at the current token.
+internal
+Token complicated_definition_skip( TokArray* tokens, TokType opening, TokType closing )
+{
+	s32   level = 0;
+	Token tok   = * lex_current( tokens, lex_skip_formatting );
+	while ( tok_is_valid( tok ) )
 	{
-		if ( tokens.Arr[ idx ].Type == Tok_BraceCurly_Open )
-			level++;
-
-		if ( tokens.Arr[ idx ].Type == Tok_BraceCurly_Close ) {
-			level--;
-			had_def = level == 0;
-		}
-
-		b32 found_fn_def = had_def && had_paren;
+		if ( tok.Type == opening )
+			level ++;
+		else if ( tok.Type == closing )
+			level --;
 
-		if ( level == 0 && (tokens.Arr[ idx ].Type == Tok_Statement_End || found_fn_def) )
+		tok = complicated_definition_next( tokens );
+		if ( level <= 0 )
 			break;
 	}
+	return tok;
+}
 
-	is_fn_def = had_def && had_paren;
-	if (is_fn_def)
-	{
-		// Function definition with <which> on return type
-		Code result = parse_operator_function_or_variable(false, NullCode, NullCode);
-		// <which> <typename>(...) ... { ... }
-		parser_pop(& _ctx->parser);
-		return result;
-	}
+internal
+Code parse_complicated_definition( TokType which )
+{
+	push_scope();
 
-	if ( ( idx - 2 ) == tokens.Idx )
-	{
-		// It's a forward declaration only
-		Code result = parse_forward_or_definition( which, is_inplace );
-		// <class, enum, struct, or union> <Name>;
-		parser_pop(& _ctx->parser);
-		return result;
-	}
+	// Look past the head of the declaration: <which> <class> <Attributes> <Name>
+	TokArray ahead = _ctx->parser.Tokens;
+	Token    tok   = complicated_definition_next( & ahead );
+	// <which>
 
-	Token tok = tokens.Arr[ idx - 1 ];
-	if ( tok_is_specifier(tok) && spec_is_trailing( str_to_specifier( tok.Text)) )
-	{
-		// <which> <type_identifier>(...) <specifier> ...;
+	if ( which == Tok_Decl_Enum && ( tok.Type == Tok_Decl_Class || tok.Type == Tok_Decl_Struct ) )
+		tok = complicated_definition_next( & ahead );
+		// <which> <class>
 
-		s32   spec_idx = idx - 1;
-		Token spec     = tokens.Arr[spec_idx];
-		while ( tok_is_specifier(spec) && spec_is_trailing( str_to_specifier( spec.Text)) )
-		{
-			-- spec_idx;
-			spec = tokens.Arr[spec_idx];
-		}
+	while ( tok_is_attribute( tok ) )
+	{
+		TokType closing = tok.Type == Tok_Attribute_Open ? Tok_Attribute_Close : Tok_Paren_Close;
+		bool    macro   = tok.Type != Tok_Attribute_Open;
 
-		if ( tokens.Arr[spec_idx].Type == Tok_Paren_Close )
-		{
-			// Forward declaration with trailing specifiers for a procedure
-			tok = tokens.Arr[spec_idx];
+		if ( macro )
+			tok = complicated_definition_next( & ahead );
 
-			Code result = parse_operator_function_or_variable( false, NullCode, NullCode );
-			// <Attributes> <Specifiers> <ReturnType/ValueType> <operator <Op>, or Name> ...
-			parser_pop(& _ctx->parser);
-			return result;
-		}
+		if ( macro && tok.Type != Tok_Paren_Open )
+			continue;
 
-		log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
-		parser_pop(& _ctx->parser);
-		return InvalidCode;
+		tok = complicated_definition_skip( & ahead, macro ? Tok_Paren_Open : Tok_Attribute_Open, closing );
 	}
-	if ( tok.Type == Tok_Identifier )
+	// <which> <class> <Attributes>
+
+	while ( tok.Type == Tok_Identifier )
 	{
-		tok = tokens.Arr[ idx - 2 ];
-		bool is_indirection = tok.Type == Tok_Ampersand || tok.Type == Tok_Star;
-		bool ok_to_parse    = false;
+		tok = complicated_definition_next( & ahead );
 
-		if ( tok.Type == Tok_BraceCurly_Close )
+		if ( tok.Type == Tok_Operator && tok.Text.Len == 1 && tok.Text.Ptr[0] == '<' )
 		{
-			// Its an inplace definition
-			// <which> <type_identifier ?> { ... } <identifier>;
-			ok_to_parse = true;
-			is_inplace  = true;
-
-			CodeTypename type = cast(CodeTypename, parse_forward_or_definition(which, is_inplace));
-
-			// Should be a name right after the type.
-			Token name = parse_identifier(nullptr);
-			_ctx->parser.Scope->Name = name.Text;
+			s32 level = 0;
+			while ( tok_is_valid( tok ) )
+			{
+				if ( tok.Type == Tok_Operator && tok.Text.Ptr[0] == '<' )
+					level += tok.Text.Len;
+				else if ( tok.Type == Tok_Operator && tok.Text.Ptr[0] == '>' )
+					level -= tok.Text.Len;
 
-			CodeVar result = parse_variable_after_name(ModuleFlag_None, NullCode, NullCode, type, name.Text);
-			if ( cast(Code, result) == Code_Invalid ) {
-				parser_pop(& _ctx->parser);
-				return InvalidCode;
+				tok = complicated_definition_next( & ahead );
+				if ( level <= 0 )
+					break;
 			}
-			// The definition needs to be aware of its parent so that it is serialized without a statement end.
-			type->Parent = cast(Code, result);
-			parser_pop(& _ctx->parser);
-			return (Code) result;
-		}
-		else if ( tok.Type == Tok_Identifier && tokens.Arr[ idx - 3 ].Type == which )
-		{
-			// Its a variable with type ID using <which> namespace.
-			// <which> <type_identifier> <identifier>;
-			ok_to_parse = true;
-		}
-		else if ( tok.Type == Tok_Assign_Classifer
-		&& (	( tokens.Arr[idx - 5].Type == which && tokens.Arr[idx - 4].Type == Tok_Decl_Class )
-			||	( tokens.Arr[idx - 4].Type == which))
-		)
-		{
-			// Its a forward declaration of an enum
-			// <enum>         <type_identifier> : <identifier>;
-			// <enum> <class> <type_identifier> : <identifier>;
-			ok_to_parse = true;
-			Code result = cast(Code, parser_parse_enum( ! parser_inplace_def));
-			parser_pop(& _ctx->parser);
-			return result;
-		}
-		else if ( is_indirection )
-		{
-			// Its a indirection type with type ID using struct namespace.
-			// <which> <type_identifier>* <identifier>;
-			ok_to_parse = true;
 		}
 
-		if ( ! ok_to_parse )
-		{
-			log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
-			parser_pop(& _ctx->parser);
-			return InvalidCode;
-		}
+		if ( tok.Type != Tok_Access_StaticSymbol )
+			break;
 
-		Code result = parse_operator_function_or_variable( false, NullCode, NullCode );
-		// <Attributes> <Specifiers> <ReturnType/ValueType> <operator <Op>, or Name> ...
-		parser_pop(& _ctx->parser);
-		return result;
+		tok = complicated_definition_next( & ahead );
 	}
-	else if ( tok.Type >= Tok_Type_Unsigned && tok.Type <= Tok_Type_MS_W64 )
+	// <which> <class> <Attributes> <Name>
+
+	bool is_type_usage = false;
+	switch ( tok.Type )
 	{
-		tok = tokens.Arr[ idx - 2 ];
+		case Tok_Identifier:
+		case Tok_Ampersand:
+		case Tok_Ampersand_DBL:
+		case Tok_Star:
+		case Tok_Decl_Operator:
+			is_type_usage = true;
+		break;
 
-		if ( tok.Type != Tok_Assign_Classifer
-		|| (	( tokens.Arr[idx - 5].Type != which && tokens.Arr[idx - 4].Type != Tok_Decl_Class )
-			&&	( tokens.Arr[idx - 4].Type != which))
-		)
-		{
-			log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
-			parser_pop(& _ctx->parser);
-			return InvalidCode;
-		}
+		default:
+			is_type_usage = tok.Type != Tok_Spec_Final && tok_is_specifier( tok );
+		break;
+	}
+
+	Code result = InvalidCode;
+	if ( is_type_usage )
+	{
+		// The <which> namespace is only used to identify the type of a variable or the return type of a function.
+		// <which> <type_identifier> ...
+		result = parse_operator_function_or_variable( false, NullCode, NullCode );
+		// <Attributes> <Specifiers> <ReturnType/ValueType> <operator <Op>, or Name> ...
 
-		// Its a forward declaration of an enum class
-		// <enum>         <type_identifier> : <identifier>;
-		// <enum> <class> <type_identifier> : <identifier>;
-		Code result = cast(Code, parser_parse_enum( ! parser_inplace_def));
 		parser_pop(& _ctx->parser);
 		return result;
 	}
-	else if ( tok.Type == Tok_BraceCurly_Close )
+
+	// Find what follows the definition, if there is one.
+	while ( tok_is_valid( tok ) && tok.Type != Tok_Statement_End && tok.Type != Tok_BraceCurly_Open )
+		tok = complicated_definition_next( & ahead );
+
+	bool is_inplace = false;
+	if ( tok.Type == Tok_BraceCurly_Open )
 	{
-		// Its a definition
-		Code result = parse_forward_or_definition( which, is_inplace );
-		// <which> { ... };
-		parser_pop(& _ctx->parser);
-		return result;
+		tok        = complicated_definition_skip( & ahead, Tok_BraceCurly_Open, Tok_BraceCurly_Close );
+		is_inplace = tok.Type == Tok_Identifier;
 	}
-	else if ( tok.Type == Tok_BraceSquare_Close )
+
+	if ( ! is_inplace )
 	{
-		// Its an array definition
-		Code result = parse_operator_function_or_variable( false, NullCode, NullCode );
-		// <which> <type_identifier> <identifier> [ ... ];
+		result = parse_forward_or_definition( which, is_inplace );
+		// <which> <class> <Attributes> <Name>;
+		// <which> <class> <Attributes> <Name> ... { ... };
+
 		parser_pop(& _ctx->parser);
 		return result;
 	}
-	else
-	{
-		log_failure( "Unsupported or bad member definition after %s declaration\n%SB", toktype_to_str(which).Ptr, parser_to_strbuilder(_ctx->parser) );
+
+	// Its an inplace definition
+	// <which> <type_identifier ?> { ... } <identifier>;
+	CodeTypename type = cast(CodeTypename, parse_forward_or_definition(which, is_inplace));
+	if ( cast(Code, type) == Code_Invalid ) {
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
+	// Should be a name right after the type.
+	Token name = parse_identifier(nullptr);
+	_ctx->parser.Scope->Name = name.Text;
+
+	CodeVar var = parse_variable_after_name(ModuleFlag_None, NullCode, NullCode, type, name.Text);
+	if ( cast(Code, var) == Code_Invalid ) {
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
+
+	// The definition needs to be aware of its parent so that it is serialized without a statement end.
+	type->Parent = cast(Code, var);
+	parser_pop(& _ctx->parser);
+	return (Code) var;
 }
 
 internal inline
@@ -5426,7 +5395,7 @@ CodeUnion parser_parse_union( bool inplace_def )
 
 	CodeBody body = { nullptr };
 
-	if ( ! inplace_def || ! check(Tok_Identifier) )
+	if ( check( Tok_BraceCurly_Open ) )
 	{
 		eat( Tok_BraceCurly_Open );
 		// <ModuleFlags> union <Attributes> <Name> {
@@ -5434,7 +5403,7 @@ CodeUnion parser_parse_union( bool inplace_def )
 		body = cast(CodeBody, make_code());
 		body->Type = CT_Union_Body;
 
-		while ( ! check_noskip( Tok_BraceCurly_Close ) )
+		while ( left && ! check_noskip( Tok_BraceCurly_Close ) )
 		{
 			if ( currtok_noskip.Type == Tok_Preprocess_Hash )
 				eat( Tok_Preprocess_Hash );
-- 
2.43.0


From 76326d868304cc0656949afcea4aa280209c2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 051/256] fix: a friend function does not swallow what follows
 it

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6c8beb8..9b78701 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4196,7 +4196,7 @@ CodeFriend parser_parse_friend()
 	}
 
 	// Operator declaration or definition
-	if ( currtok.Type == Tok_Decl_Operator ) {
+	else if ( currtok.Type == Tok_Decl_Operator ) {
 		op = parse_operator_after_ret_type( ModuleFlag_None, NullCode, specifiers, type );
 	}
 
-- 
2.43.0


From 5f3a2c2af7ddaee52d2d40c9b5503baac53b49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 052/256] fix: out of class constructors are only searched
 within their own declaration

---
 base/components/parser.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9b78701..6d5b0ad 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1931,6 +1931,13 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	Token nav = tokens.Arr[ idx ];
 	for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[ idx ] )
 	{
+		if ( nav.Type == Tok_Statement_End || nav.Type == Tok_BraceCurly_Open || nav.Type == Tok_BraceCurly_Close
+		||   bitfield_is_set( u32, nav.Flags, TF_Assign ) )
+		{
+			// The declaration has no parameters
+			return result;
+		}
+
 		if ( nav.Text.Ptr[0] == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
@@ -1963,6 +1970,12 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			break;
 	}
 
+	if ( idx - 3 < tokens.Idx )
+	{
+		// There is no room for <Name> :: <Name>
+		return result;
+	}
+
 	-- idx;
 	Token tok_right = tokens.Arr[idx];
 	Token tok_left  = NullToken;
@@ -2018,7 +2031,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		tok_left = tokens.Arr[idx];
 	}
 
-	bool is_same = c_str_compare_len( tok_right.Text.Ptr, tok_left.Text.Ptr, tok_right.Text.Len ) == 0;
+	bool is_same = str_are_equal( tok_right.Text, tok_left.Text );
 	if (tok_left.Type == Tok_Identifier && is_same)
 	{
 		// We have found the pattern we desired
-- 
2.43.0


From 35ac2711149cdc3cfe0129dfd69fb4c5cb561b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 053/256] fix: interfaces of nested classes do not share the
 memory of the enclosing one's

---
 base/components/parser.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6d5b0ad..ed875e6 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -748,12 +748,7 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	}
 	// <ModuleFlags> <class/struct> <Attributes> <Name> <final>
 
-	local_persist
-	char interface_arr_mem[ kilobytes(4) ] = {0};
-	Array(CodeTypename) interfaces; {
-		Arena arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
-		interfaces  = array_init_reserve(CodeTypename, arena_allocator_info(& arena), 4 );
-	}
+	Array(CodeTypename) interfaces = array_init_reserve(CodeTypename, _ctx->Allocator_Temp, 4 );
 
 	// TODO(Ed) : Make an AST_DerivedType, we'll store any arbitary derived type into there as a linear linked list of them.
 	if ( check( Tok_Assign_Classifer ) )
-- 
2.43.0


From 33a184771d0339657945df708383d572f8f04919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 054/256] fix: function type captures are located by their own
 parentheses, not by the last one in the declaration

---
 base/components/parser.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index ed875e6..94a4cd5 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4898,16 +4898,22 @@ else if ( currtok.Type == Tok_DeclType )
 		Token* first_capture = scanner;
 		if ( is_function_typename )
 		{
-			// Go to the end of the signature
-			Token* last = array_back( _ctx->parser.Tokens.Arr );
-			while ( scanner < last && scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
-				++scanner;
+			// Go to the end of the first capture
+			Token* last  = array_back( _ctx->parser.Tokens.Arr );
+			s32    level = 0;
+			for ( ; scanner < last; ++scanner )
+			{
+				if ( scanner->Type == Tok_Paren_Open )
+					level++;
+				else if ( scanner->Type == Tok_Paren_Close && --level == 0 )
+					break;
+			}
 
-			// Go back to the first capture start found
-			while ( scanner->Type != Tok_Paren_Open )
-				--scanner;
+			// When another capture follows, the first one holds the identifier and the following one the parameters.
+			do ++scanner;
+			while ( scanner < last && ( scanner->Type == Tok_NewLine || scanner->Type == Tok_Comment ) );
 
-			last_capture = scanner;
+			last_capture = scanner < last && scanner->Type == Tok_Paren_Open ? scanner : first_capture;
 		}
 
 		bool has_context   = _ctx->parser.Scope && _ctx->parser.Scope->Prev;
-- 
2.43.0


From 5b1eeb06d146796547739df0b8209b5eb1a399fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 055/256] fix: out-of-class constructor search ends a template
 argument list at its closing bracket

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 94a4cd5..e754c91 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1958,7 +1958,14 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 
 				if ( template_level != 0 && nav.Type == Tok_Paren_Close)
 					-- capture_level;
+
+				if ( template_level <= 0 )
+					break;
 			}
+			if ( idx >= array_num(tokens.Arr) )
+				return result;
+			if ( template_level <= 0 )
+				continue;
 		}
 
 		if ( nav.Type == Tok_Paren_Open )
-- 
2.43.0


From 30f88002f0c6cbf5d798f73cb72b0c8406e8aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 056/256] fix: subscript operators may be written with white
 space between their brackets

---
 base/components/parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e754c91..66c9522 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2389,6 +2389,11 @@ CodeOperator parse_operator_after_ret_type(
 			if ( currtok.Text.Ptr[1] == ']' )
 				op = Op_Subscript;
 
+			else if ( currtok.Type == Tok_BraceSquare_Open && nexttok.Type == Tok_BraceSquare_Close )
+			{
+				eat( Tok_BraceSquare_Open );
+				op = Op_Subscript;
+			}
 			else
 				op = Op_Invalid;
 		}
-- 
2.43.0


From 2742a113e6d8773a28ef6500d07986c96d81c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 057/256] fix: eat skips every formatting token in front of the
 expected token

---
 base/components/parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 66c9522..f6353b1 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -97,10 +97,15 @@ bool lex__eat(TokArray* self, TokType type )
 
 	Token at_idx = self->Arr[ self->Idx ];
 
-	if ( ( at_idx.Type == Tok_NewLine && type != Tok_NewLine )
-	||   ( at_idx.Type == Tok_Comment && type != Tok_Comment ) )
+	while ( ( at_idx.Type == Tok_NewLine && type != Tok_NewLine )
+	||      ( at_idx.Type == Tok_Comment && type != Tok_Comment ) )
 	{
 		self->Idx ++;
+		if ( array_num(self->Arr) - self->Idx <= 0 ) {
+			log_failure( "No tokens left.\n%SB", parser_to_strbuilder(_ctx->parser) );
+			return false;
+		}
+		at_idx = self->Arr[ self->Idx ];
 	}
 
 	b32 not_accepted  = at_idx.Type != type;
-- 
2.43.0


From 6609868ddfb719059c7b21f0133f1ccc94bc226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 058/256] fix: typedefs of classes, enums, structs and unions
 ignore formatting between their last tokens

---
 base/components/parser.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f6353b1..9a5996a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -88,6 +88,14 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	return result;
 }
 
+internal
+s32 lex__previous_significant( TokArray tokens, s32 idx )
+{
+	do --idx;
+	while ( idx > tokens.Idx && ( tokens.Arr[idx].Type == Tok_NewLine || tokens.Arr[idx].Type == Tok_Comment ) );
+	return idx < tokens.Idx ? tokens.Idx : idx;
+}
+
 bool lex__eat(TokArray* self, TokType type )
 {
 	if ( array_num(self->Arr) - self->Idx <= 0 ) {
@@ -5255,7 +5263,11 @@ CodeTypedef parser_parse_typedef()
 			}
 
 			Token pre_foward_tok = currtok;
-			if ( (idx - 3 ) == tokens.Idx )
+			s32 back_1 = lex__previous_significant( tokens, idx );
+			s32 back_2 = lex__previous_significant( tokens, back_1 );
+			s32 back_3 = lex__previous_significant( tokens, back_2 );
+
+			if ( back_3 == tokens.Idx && idx - back_3 >= 3 )
 			{
 				// Its a forward declaration only
 				type = parse_forward_or_definition( which, from_typedef );
@@ -5263,26 +5275,23 @@ CodeTypedef parser_parse_typedef()
 			}
 			else
 			{
-				Token tok = tokens.Arr[ idx - 1 ];
+				Token tok = tokens.Arr[ back_1 ];
 				if ( tok.Type == Tok_Identifier )
 				{
-					log_fmt("Found id\n");
-					tok = tokens.Arr[ idx - 2 ];
+					tok = tokens.Arr[ back_2 ];
 
 					bool is_indirection = tok.Type == Tok_Ampersand
 					||                    tok.Type == Tok_Star;
 
 					bool ok_to_parse = false;
 
-					Token temp_3 = tokens.Arr[ idx - 3 ];
-
 					if ( tok.Type == Tok_BraceCurly_Close )
 					{
 						// Its an inplace definition
 						// typedef <which> <type_identifier> { ... } <identifier>;
 						ok_to_parse = true;
 					}
-					else if ( tok.Type == Tok_Identifier && tokens.Arr[ idx - 3 ].Type == which )
+					else if ( tok.Type == Tok_Identifier && tokens.Arr[ back_3 ].Type == which )
 					{
 						// Its a variable with type ID using which namespace.
 						// typedef <which> <type_identifier> <identifier>;
-- 
2.43.0


From fdabdc1d381033807456b0781e3f1f7fb43456ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 059/256] fix: tokens record the line and column they start at,
 not those of the white space before them

---
 base/components/lexer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f185e09..a77825c 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -649,12 +649,15 @@ TokArray lex( Str content )
 			}
 		}
 
-		c.token.Text.Len = 0;
-
 		skip_whitespace();
 		if ( c.left <= 0 )
 			break;
 
+		{
+			Token found = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
+			c.token = found;
+		}
+
 		switch ( (* ctx->scanner) )
 		{
 			case '#':
-- 
2.43.0


From 765b7f948ad59d3c2a6efffca0d738468383c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 060/256] fix: preprocessor directives in a body are serialized
 on a line of their own

---
 base/components/inlines.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 9e8b000..5a52f8f 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -32,6 +32,13 @@ void body_to_strbuilder_ref( CodeBody body, StrBuilder* result )
 	s32  left = body->NumEntries;
 	while ( left -- )
 	{
+		if ( curr->Type >= CT_Preprocess_Define && curr->Type <= CT_Preprocess_Pragma )
+		{
+			// A directive must be the first thing on its line.
+			ssize length = strbuilder_length( * result );
+			if ( length > 0 && (* result)[ length - 1 ] != '\n' )
+				strbuilder_append_char( result, '\n' );
+		}
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
 		++curr;
-- 
2.43.0


From 0df3b8d60a291c8c1e40272ec9f2312630844628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 061/256] fix: directive keyword tokens record their own line
 and column

---
 base/components/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index a77825c..6723645 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -279,6 +279,8 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	skip_whitespace();
 
 	ctx->token.Text.Ptr = ctx->scanner;
+	ctx->token.Line     = ctx->line;
+	ctx->token.Column   = ctx->column;
 	while (ctx->left && ! char_is_space((* ctx->scanner)) )
 	{
 		move_forward();
@@ -349,6 +351,8 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 
 		ctx->token.Text.Len = ctx->token.Text.Len + ctx->token.Text.Ptr - hash;
 		ctx->token.Text.Ptr = hash;
+		ctx->token.Line     = hash_tok.Line;
+		ctx->token.Column   = hash_tok.Column;
 		array_append( _ctx->Lexer_Tokens, ctx->token );
 		return Lex_Continue; // Skip found token, its all handled here.
 	}
-- 
2.43.0


From c1691a3fc63e9e4c8308d4b3282ab93ab8f3f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 062/256] fix: interfaces keep the access given to the parent,
 and may be added to a type without a parent

---
 base/components/inlines.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5a52f8f..407b817 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -476,14 +476,19 @@ void class_add_interface( CodeClass self, CodeTypename type )
 	GEN_ASSERT(self);
 	GEN_ASSERT(type);
 	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
+	if ( possible_slot == nullptr )
 	{
-		// Were adding an interface to parent type, so we need to make sure the parent type is public.
+		self->ParentType   = type;
 		self->ParentAccess = AccessSpec_Public;
-		// If your planning on adding a proper parent,
-		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+		return;
 	}
 
+	// Were adding an interface to parent type, so we need to make sure the parent type is public if its access was not specified.
+	if ( self->ParentAccess == AccessSpec_Default )
+		self->ParentAccess = AccessSpec_Public;
+	// If your planning on adding a proper parent,
+	// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+
 	while ( possible_slot->Next != nullptr )
 	{
 		possible_slot = cast(CodeTypename, possible_slot->Next);
@@ -695,14 +700,19 @@ inline
 void struct_add_interface(CodeStruct self, CodeTypename type )
 {
 	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
+	if ( possible_slot == nullptr )
 	{
-		// Were adding an interface to parent type, so we need to make sure the parent type is public.
+		self->ParentType   = type;
 		self->ParentAccess = AccessSpec_Public;
-		// If your planning on adding a proper parent,
-		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+		return;
 	}
 
+	// Were adding an interface to parent type, so we need to make sure the parent type is public if its access was not specified.
+	if ( self->ParentAccess == AccessSpec_Default )
+		self->ParentAccess = AccessSpec_Public;
+	// If your planning on adding a proper parent,
+	// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+
 	while ( possible_slot->Next != nullptr )
 	{
 		possible_slot = cast(CodeTypename, possible_slot->Next);
-- 
2.43.0


From d3042235f3fcafeb1e3690f8b1609d2918171418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 063/256] fix: protected access is spelled protected

---
 base/components/types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/types.hpp b/base/components/types.hpp
index 18762ea..e736854 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -49,9 +49,9 @@ Str access_spec_to_str( AccessSpec type )
 	local_persist
 	Str lookup[ (u32)AccessSpec_Num_AccessSpec ] = {
 		{ "",        sizeof( "" )        - 1 },
-		{ "private", sizeof("prviate")   - 1 },
-		{ "private", sizeof("protected") - 1 },
-		{ "public",  sizeof("public")    - 1 },
+		{ "private",   sizeof("private")   - 1 },
+		{ "protected", sizeof("protected") - 1 },
+		{ "public",    sizeof("public")    - 1 },
 	};
 
 	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
-- 
2.43.0


From 8e908bc2b29a50f54f7c24551db59a0ccc783275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 064/256] fix: a define followed by white space only has an
 empty body

---
 base/components/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9a5996a..f5dcf7c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3720,7 +3720,8 @@ CodeDefine parser_parse_define()
 		return define;
 	}
 
-	define->Body = untyped_str( strbuilder_to_str( parser_strip_formatting( currtok.Text, parser_strip_formatting_dont_preserve_newlines )) );
+	StrBuilder content = parser_strip_formatting( currtok.Text, parser_strip_formatting_dont_preserve_newlines );
+	define->Body = untyped_str( strbuilder_length( content ) ? strbuilder_to_str( content ) : txt("\n") );
 	eat( Tok_Preprocess_Content );
 	// #define <Name> ( <params> ) <Content>
 
-- 
2.43.0


From ce2bdf075532f1beaf7d9b11de0cb0f7a6a48117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 065/256] fix: empty array bounds may hold white space

---
 base/components/parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f5dcf7c..4debf4c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -540,9 +540,12 @@ Code parse_array_decl()
 
 		if ( currtok.Type == Tok_BraceSquare_Close )
 		{
-			log_failure( "Error, empty array expression in definition\n%s", parser_to_strbuilder(_ctx->parser) );
+			Code array_expr = untyped_str( txt(" ") );
+			eat( Tok_BraceSquare_Close );
+			// [ ]
+
 			parser_pop(& _ctx->parser);
-			return InvalidCode;
+			return array_expr;
 		}
 
 		Token untyped_tok = currtok;
-- 
2.43.0


From 9e143d1ffadeab9ebf0eb6ed9a72c7e95c37f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 066/256] fix: too many specifiers overran the gathered
 specifier arrays of the parser

---
 base/components/interface.parsing.cpp |  2 ++
 base/components/parser.cpp            | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index 6ef01d8..fb5903c 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -69,6 +69,7 @@ CodeConstructor parse_constructor( Str def )
 		if (ignore_spec)
 			break;
 
+		check_specifier_capacity();
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -325,6 +326,7 @@ CodeVar parse_variable( Str def )
 #undef eat
 #undef left
 #undef check
+#undef check_specifier_capacity
 #undef push_scope
 #undef def_assign
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4debf4c..bf0d283 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -202,6 +202,15 @@ bool _check_parse_args( Str def, char const* func_name )
 #	define check_noskip( Type_ ) ( left && currtok_noskip.Type == Type_ )
 #	define check( Type_ )        ( left && currtok.Type        == Type_ )
 
+// The specifiers of a declaration are gathered in a fixed amount of entries
+#	define check_specifier_capacity()                                                                                            \
+	if ( NumSpecifiers >= scast( s32, sizeof(specs_found) / sizeof(specs_found[0]) ) )                                           \
+	{                                                                                                                            \
+		log_failure( "Too many specifiers in declaration\n%SB", parser_to_strbuilder(_ctx->parser) );                           \
+		parser_pop( & _ctx->parser );                                                                                            \
+		return InvalidCode;                                                                                                      \
+	}
+
 #	define push_scope()                                                                                                         \
 	Str null_name = {};                                                                                                         \
 	StackNode scope = { nullptr, lex_current( &  _ctx->parser.Tokens, lex_dont_skip_formatting ), null_name, txt( __func__ ) }; \
@@ -1069,6 +1078,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if (ignore_spec)
 						break;
 
+					check_specifier_capacity();
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -1830,6 +1840,7 @@ CodeBody parse_global_nspace( CodeType which )
 					if (ignore_spec)
 						break;
 
+					check_specifier_capacity();
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -4190,6 +4201,7 @@ CodeFriend parser_parse_friend()
 			if ( spec == Spec_Const )
 				break;
 
+			check_specifier_capacity();
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -4307,6 +4319,7 @@ CodeFn parser_parse_function()
 		if ( spec == Spec_Const )
 			continue;
 
+		check_specifier_capacity();
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4408,6 +4421,7 @@ CodeOperator parser_parse_operator()
 		if ( spec == Spec_Const )
 			continue;
 
+		check_specifier_capacity();
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4629,6 +4643,7 @@ CodeTemplate parser_parse_template()
 				if ( spec == Spec_Const )
 					break;
 
+				check_specifier_capacity();
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -4746,6 +4761,7 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 			return InvalidCode;
 		}
 
+		check_specifier_capacity();
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4889,6 +4905,7 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 		}
+		check_specifier_capacity();
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -5028,6 +5045,7 @@ else if ( currtok.Type == Tok_DeclType )
 					return InvalidCode;
 				}
 
+				check_specifier_capacity();
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -5098,6 +5116,7 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 
+			check_specifier_capacity();
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -5692,6 +5711,7 @@ CodeVar parser_parse_variable()
 		if ( spec == Spec_Const )
 			break;
 
+		check_specifier_capacity();
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
-- 
2.43.0


From 7aa72cb04e5bcf5cee5f68dc74e560dc7aa97d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 067/256] fix: a const among operator specifiers no longer
 loops forever

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index bf0d283..8909e14 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4317,7 +4317,7 @@ CodeFn parser_parse_function()
 		}
 
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		check_specifier_capacity();
 		specs_found[NumSpecifiers] = spec;
@@ -4419,7 +4419,7 @@ CodeOperator parser_parse_operator()
 		}
 
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		check_specifier_capacity();
 		specs_found[NumSpecifiers] = spec;
-- 
2.43.0


From 2c5c28ea24cdefb1dab0862304f244ff07d54b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 068/256] fix: parsing a define without its hash is diagnosed
 instead of dereferencing null

---
 base/components/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 8909e14..d5810bc 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3681,6 +3681,12 @@ CodeDefine parser_parse_define()
 	// #define <Name>
 
 	Macro* macro = lookup_macro(define->Name);
+	if ( macro == nullptr ) {
+		// Only the lexer registers the names of directives, it never saw this one as one.
+		log_failure( "Error, %S is not the name of a #define directive\n%SB", define->Name, parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
 	if (macro_is_functional(* macro)) {
 		eat( Tok_Paren_Open );
 		// #define <Name> (
-- 
2.43.0


From b1d41af6bf74f36a8263bcdfdae8b2c685f22439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 069/256] fix: an empty constructor initializer of a variable
 is diagnosed instead of slicing backwards

---
 base/components/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index d5810bc..f74ea8b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3355,6 +3355,12 @@ CodeVar parse_variable_after_name(
 		// <Attributes> <Specifiers> <ValueType> <Name> (
 
 		Token expr_token = currtok;
+		if ( expr_token.Type == Tok_Paren_Close )
+		{
+			log_failure( "Expected an expression in the initializer of variable %S\n%SB", name, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 
 		using_constructor_initializer = true;
 
-- 
2.43.0


From d85f2335309151309a5bae764e5ff95e42b2bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 070/256] fix: a bitfield without its width at the end of the
 source is diagnosed instead of slicing backwards

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f74ea8b..fbddf4b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3389,7 +3389,7 @@ CodeVar parse_variable_after_name(
 
 		Token expr_tok = currtok;
 
-		if ( currtok.Type == Tok_Statement_End ) {
+		if ( ! left || currtok.Type == Tok_Statement_End ) {
 			log_failure( "Expected expression after bitfield \n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
-- 
2.43.0


From 79aa8f361415de263b1a811089aaba4b44dfa380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 071/256] fix: an unterminated linkage name is diagnosed
 instead of slicing before it

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index fbddf4b..86d9592 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4154,6 +4154,13 @@ CodeExtern parser_parse_extern_link()
 	eat( Tok_String );
 	// extern "<Name>"
 
+	if ( name.Text.Len < 2 )
+	{
+		log_failure( "Expected a terminated string for the linkage name\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
 	name.Text.Ptr += 1;
 	name.Text.Len -= 2;
 
-- 
2.43.0


From 45ce42e59b2618ad548bdae92ba8a54346182d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 072/256] fix: an unnamed namespace is parsed without taking
 its brace for its name

---
 base/components/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 86d9592..0fbe2e2 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4379,7 +4379,9 @@ CodeNS parser_parse_namespace()
 	eat( Tok_Decl_Namespace );
 	// namespace
 
-	Token name = parse_identifier(nullptr);
+	Token name = NullToken;
+	if ( ! check( Tok_BraceCurly_Open ) )
+		name = parse_identifier(nullptr);
 	_ctx->parser.Scope->Name = name.Text;
 	// namespace <Name>
 
-- 
2.43.0


From 22a708f0b1c212adcd7a267dcd32d82bd8084da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 073/256] fix: a star operator without parameters is the
 indirection operator

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 0fbe2e2..0609311 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2505,7 +2505,7 @@ CodeOperator parse_operator_after_ret_type(
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
 	if ( params == nullptr && op == Op_Multiply )
-		op = Op_MemberOfPointer;
+		op = Op_Indirection;
 
 	while ( left && tok_is_specifier(currtok) )
 	{
-- 
2.43.0


From d20acb537a1c0bad36a24f032bfebf1d0c792bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 074/256] fix: the attributes of a using are serialized

---
 base/components/code_serialization.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index e413f7e..4ca3108 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1216,12 +1216,14 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->UnderlyingType )
 	{
-		strbuilder_append_fmt( result, "using %S = %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		strbuilder_append_fmt( result, "using %S", self->Name );
+
+		if ( self->Attributes )
+			strbuilder_append_fmt( result, " %SB", attributes_to_strbuilder(self->Attributes) );
+
+		strbuilder_append_fmt( result, " = %SB", typename_to_strbuilder(self->UnderlyingType) );
 
 		if ( self->UnderlyingType->ArrExpr )
 		{
-- 
2.43.0


From f00a3fb2c6247693f2d7f474edc3384931d8d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 075/256] fix: keep the attributes of a using alias written
 before the assignment

---
 base/components/parser.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 0609311..f3df4e9 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5639,9 +5639,6 @@ CodeUsing parser_parse_using()
 		
 		if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ))
 		{
-			attributes = parse_attributes();
-			// <ModuleFlags> using <Name> <Attributes>
-
 			eat( Tok_Operator );
 			// <ModuleFlags> using <Name> <Attributes> =
 
-- 
2.43.0


From 196e87aec98b4f26ac9274936daa7ce5731cee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 076/256] fix: do not search endlessly for the operator keyword
 when parsing operator*

---
 base/components/parser.cpp | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f3df4e9..c58949b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2273,20 +2273,7 @@ CodeOperator parse_operator_after_ret_type(
 				op = Op_Assign_Multiply;
 
 			else
-			{
-				Token finder = prevtok;
-				while ( finder.Type != Tok_Decl_Operator )
-				{
-					if ( finder.Type == Tok_Identifier)
-					{
-						op = Op_Indirection;
-						break;
-					}
-				}
-
-				if ( op == Op_Invalid)
-					op = Op_Multiply;
-			}
+				op = Op_Multiply;
 		}
 		break;
 		case '/':
-- 
2.43.0


From 635c265285d0557d1f465826ce7f7fcaa8551648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 077/256] fix: keep attributes on both sides of the specifiers
 of a member

---
 base/components/parser.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c58949b..0d1ec5d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1097,16 +1097,18 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 
 					if ( attributes )
 					{
-						StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, attributes->Content.Len + more_attributes->Content.Len );
-						strbuilder_append_fmt( & fused, "%SB %SB", attributes->Content, more_attributes->Content );
+						StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, attributes->Content.Len + more_attributes->Content.Len + 1 );
+						strbuilder_append_str( & fused, attributes->Content );
+						strbuilder_append_char( & fused, ' ' );
+						strbuilder_append_str( & fused, more_attributes->Content );
 
 						Str attrib_name     = strbuilder_to_str(fused);
 						attributes->Name    = cache_str( attrib_name );
 						attributes->Content = attributes->Name;
 						// <Attributes> <Specifiers> <Attributes>
 					}
-
-					attributes = more_attributes;
+					else
+						attributes = more_attributes;
 				}
 
 				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
-- 
2.43.0


From e6334d228c361f99a3d65bd66ca1ec2d57ec553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 078/256] fix: diagnose an empty constructor initializer list

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 0d1ec5d..0d34262 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3581,6 +3581,13 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 			eat( currtok.Type );
 		}
 
+		if ( currtok.Text.Ptr == initializer_list_tok.Text.Ptr )
+		{
+			log_failure( "Expected an initializer list after ':'\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		initializer_list_tok.Text.Len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )initializer_list_tok.Text.Ptr;
 		// <Name> ( <Parameters> ) : <InitializerList>
 
-- 
2.43.0


From 76b3062a8c2f421308f8eb190272752a14c478f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 079/256] fix: keep the space between words in the template
 arguments of a function name

---
 base/components/parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 0d34262..93b6c74 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1518,8 +1518,7 @@ CodeFn parse_function_after_name(
 	}
 
 	StrBuilder
-	name_stripped = strbuilder_make_str( _ctx->Allocator_Temp, name.Text );
-	strbuilder_strip_space(name_stripped);
+	name_stripped = parser_strip_formatting( name.Text, parser_strip_formatting_dont_preserve_newlines );
 
 	CodeFn
 	result              = (CodeFn) make_code();
-- 
2.43.0


From d210adb8bbf3727d4274fb02c14cff3bba596a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 080/256] fix: appending several items writes to the elements
 of the array, not past its handle

---
 base/dependencies/containers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6418ce5..8032f5a 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -189,7 +189,7 @@ bool array_append_items(Array<Type>* array, Type* items, usize item_num)
 		header = array_get_header(* array);
 	}
 
-	mem_copy((Type*)array + header->Num, items, item_num * sizeof(Type));
+	mem_copy((Type*)(*array) + header->Num, items, item_num * sizeof(Type));
 	header->Num += item_num;
 
 	return true;
-- 
2.43.0


From c3aa73f4df5e610c7e75d405cac549ffbe1b9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 081/256] fix: inserting an item into an array stores it, also
 at the end

---
 base/dependencies/containers.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 8032f5a..01dac97 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -202,12 +202,9 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	GEN_ASSERT(* array != nullptr);
 	ArrayHeader* header = array_get_header(* array);
 
-	ssize slot = idx;
-	if (slot >= (ssize)(header->Num))
-		slot = header->Num - 1;
-
-	if (slot < 0)
-		slot = 0;
+	usize slot = idx;
+	if (slot > header->Num)
+		slot = header->Num;
 
 	if (header->Capacity < header->Num + 1)
 	{
@@ -220,6 +217,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	Type* target = &(*array)[slot];
 
 	mem_move(target + 1, target, (header->Num - slot) * sizeof(Type));
+	* target = item;
 	header->Num++;
 
 	return true;
-- 
2.43.0


From ea1e2628ed80a939d96a30d1b0e864d7c6e4ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 082/256] fix: inserting several items into an array compiles
 and grows when they do not fit

---
 base/dependencies/containers.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 01dac97..670c20d 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -228,23 +228,23 @@ bool array_append_items_at(Array<Type>* array, Type* items, usize item_num, usiz
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (idx >= header->Num)
 	{
 		return array_append_items(array, items, item_num);
 	}
 
-	if (item_num > header->Capacity)
+	if (header->Num + item_num > header->Capacity)
 	{
-		if (! grow(array, header->Capacity + item_num))
+		if (! array_grow(array, header->Capacity + item_num))
 			return false;
 
-		header = get_header(array);
+		header = array_get_header(* array);
 	}
 
-	Type* target = array.Data + idx + item_num;
-	Type* src    = array.Data + idx;
+	Type* target = (Type*)(* array) + idx + item_num;
+	Type* src    = (Type*)(* array) + idx;
 
 	mem_move(target, src, (header->Num - idx) * sizeof(Type));
 	mem_copy(src, items, item_num * sizeof(Type));
-- 
2.43.0


From 3081fde3e5d289da9c75ebcd08a3d1dece1f9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 083/256] fix: array reserve compiles

---
 base/dependencies/containers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 670c20d..e53a55a 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -353,10 +353,10 @@ bool array_reserve(Array<Type>* array, usize new_capacity)
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = array_get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (header->Capacity < new_capacity)
-		return set_capacity(array, new_capacity);
+		return array_set_capacity(array, new_capacity);
 
 	return true;
 }
-- 
2.43.0


From f058bf1490f89396c451490a490b8b396d0ee7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 084/256] fix: hash table members call the hash table functions

---
 base/dependencies/containers.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index e53a55a..f03abea 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -494,18 +494,18 @@ struct HashTable
 	forceinline static HashTable init(AllocatorInfo allocator)                    { return	hashtable_init<Type>(allocator); }
 	forceinline static HashTable init_reserve(AllocatorInfo allocator, usize num) { return	hashtable_init_reserve<Type>(allocator, num); }
 
-	forceinline void  clear()                           {        clear<Type>(*this); }
-	forceinline void  destroy()                         {        destroy<Type>(*this); }
-	forceinline Type* get(u64 key)                      { return get<Type>(*this, key); }
-	forceinline void  grow()                            {        grow<Type>(*this); }
-	forceinline void  rehash(ssize new_num)             {        rehash<Type>(*this, new_num); }
-	forceinline void  rehash_fast()                     {        rehash_fast<Type>(*this); }
-	forceinline void  remove(u64 key)                   {        remove<Type>(*this, key); }
-	forceinline void  remove_entry(ssize idx)           {        remove_entry<Type>(*this, idx); }
-	forceinline void  set(u64 key, Type value)          {        set<Type>(*this, key, value); }
-	forceinline ssize slot(u64 key)                     { return slot<Type>(*this, key); }
-	forceinline void  map(void (*proc)(u64, Type))      {        map<Type>(*this, proc); }
-	forceinline void  map_mut(void (*proc)(u64, Type*)) {        map_mut<Type>(*this, proc); }
+	forceinline void  clear()                           {        hashtable_clear<Type>(*this); }
+	forceinline void  destroy()                         {        hashtable_destroy<Type>(this); }
+	forceinline Type* get(u64 key)                      { return hashtable_get<Type>(*this, key); }
+	forceinline void  grow()                            {        hashtable_grow<Type>(this); }
+	forceinline void  rehash(ssize new_num)             {        hashtable_rehash<Type>(this, new_num); }
+	forceinline void  rehash_fast()                     {        hashtable_rehash_fast<Type>(*this); }
+	forceinline void  remove(u64 key)                   {        hashtable_remove<Type>(*this, key); }
+	forceinline void  remove_entry(ssize idx)           {        hashtable_remove_entry<Type>(*this, idx); }
+	forceinline void  set(u64 key, Type value)          {        hashtable_set<Type>(this, key, value); }
+	forceinline ssize slot(u64 key)                     { return hashtable_slot<Type>(*this, key); }
+	forceinline void  map(void (*proc)(u64, Type))      {        hashtable_map<Type>(*this, proc); }
+	forceinline void  map_mut(void (*proc)(u64, Type*)) {        hashtable_map_mut<Type>(*this, proc); }
 #pragma endregion Member Mapping
 #endif
 
-- 
2.43.0


From acd7f95f5232ef69557a5112fd8e4308e26b83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 085/256] fix: hash table iteration, removal and rehash compile

---
 base/dependencies/containers.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index f03abea..6a0da69 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -575,7 +575,7 @@ void hashtable_map(HashTable<Type> table, void (*map_proc)(u64 key, Type value))
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, table.Entries[idx].Value);
 	}
 }
@@ -586,7 +586,7 @@ void hashtable_map_mut(HashTable<Type> table, void (*map_proc)(u64 key, Type* va
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, & table.Entries[idx].Value);
 	}
 }
@@ -637,19 +637,19 @@ void hashtable_rehash_fast(HashTable<Type> table)
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	ssize idx;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 		table.Entries[idx].Next = -1;
 
-	for (idx = 0; idx < ssize(num(table.Hashes)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Hashes)); idx++)
 		table.Hashes[idx] = -1;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 	{
 		HashTableEntry<Type>* entry;
 		HashTableFindResult find_result;
 
 		entry = &table.Entries[idx];
-		find_result = find(table, entry->Key);
+		find_result = hashtable__find(table, entry->Key);
 
 		if (find_result.PrevIndex < 0)
 			table.Hashes[find_result.HashIndex] = idx;
@@ -662,11 +662,11 @@ template<typename Type> forceinline
 void hashtable_remove(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	HashTableFindResult find_result = find(table, key);
+	HashTableFindResult find_result = hashtable__find(table, key);
 
 	if (find_result.EntryIndex >= 0) {
-		remove_at(table.Entries, find_result.EntryIndex);
-		rehash_fast(table);
+		array_remove_at<HashTableEntry<Type>>(table.Entries, find_result.EntryIndex);
+		hashtable_rehash_fast<Type>(table);
 	}
 }
 
@@ -674,7 +674,7 @@ template<typename Type> forceinline
 void hashtable_remove_entry(HashTable<Type> table, ssize idx) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	remove_at(table.Entries, idx);
+	array_remove_at<HashTableEntry<Type>>(table.Entries, idx);
 }
 
 template<typename Type> inline
@@ -715,7 +715,7 @@ template<typename Type> forceinline
 ssize hashtable_slot(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	for (ssize idx = 0; idx < ssize(num(table.Hashes)); ++idx)
+	for (ssize idx = 0; idx < ssize(array_num(table.Hashes)); ++idx)
 		if (table.Hashes[idx] == key)
 			return idx;
 
-- 
2.43.0


From 2a68780b41efcefefcf38469a63bebf8ae44d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 086/256] fix: an arena allocation counts the bytes skipped to
 align it

---
 base/dependencies/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index e2d6c24..87c6492 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -356,7 +356,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_ALLOC :
 		{
 			void* end        = pointer_add( arena->PhysicalStart, arena->TotalUsed );
-			ssize total_size = align_forward_s64( size, alignment );
+			ssize total_size = arena_alignment_of( arena, alignment ) + align_forward_s64( size, alignment );
 
 			// NOTE: Out of memory
 			if ( arena->TotalUsed + total_size > (ssize) arena->TotalSize )
-- 
2.43.0


From b42162ffcbd1f531c0e24049e3989e1d618a8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 087/256] fix: resizing an arena allocation stays within the
 arena

---
 base/dependencies/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 87c6492..4e64f62 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -386,7 +386,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_RESIZE :
 			{
 				// TODO : Check if ptr is on top of stack and just extend
-				AllocatorInfo a = arena->Backing;
+				AllocatorInfo a = arena_allocator_info( arena );
 				ptr             = default_resize_align( a, old_memory, old_size, size, alignment );
 			}
 			break;
-- 
2.43.0


From 0bf6d984cdd5c46a36013c42636c301ff9894c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 088/256] fix: an exhausted pool hands out null instead of
 reading through it

---
 base/dependencies/memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 4e64f62..b8f3145 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -410,6 +410,8 @@ void* pool_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 				GEN_ASSERT( size == pool->BlockSize );
 				GEN_ASSERT( alignment == pool->BlockAlign );
 				GEN_ASSERT( pool->FreeList != NULL );
+				if ( pool->FreeList == NULL )
+					return NULL;
 
 				next_free        = * rcast( uptr*, pool->FreeList);
 				ptr              = pool->FreeList;
-- 
2.43.0


From 41338d295683637b5dcb0141aa9827353a15ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 089/256] fix: every block of a pool is aligned, not only the
 first

---
 base/dependencies/memory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index b8f3145..c4af62e 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -442,7 +442,7 @@ void* pool_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 				void* curr;
 				uptr* end;
 
-				actual_block_size = pool->BlockSize + pool->BlockAlign;
+				actual_block_size = align_forward_s64( pool->BlockSize + pool->BlockAlign, pool->BlockAlign );
 				pool->TotalSize   = 0;
 
 				// NOTE: Init intrusive freelist
@@ -484,7 +484,7 @@ Pool pool_init_align( AllocatorInfo backing, ssize num_blocks, ssize block_size,
 	pool.BlockAlign  = block_align;
 	pool.NumBlocks   = num_blocks;
 
-	actual_block_size = block_size + block_align;
+	actual_block_size = align_forward_s64( block_size + block_align, block_align );
 	pool_size         = num_blocks * actual_block_size;
 
 	data = alloc_align( backing, pool_size, block_align );
@@ -513,7 +513,7 @@ void pool_clear(Pool* pool)
 	void* curr;
 	uptr* end;
 
-	actual_block_size = pool->BlockSize + pool->BlockAlign;
+	actual_block_size = align_forward_s64( pool->BlockSize + pool->BlockAlign, pool->BlockAlign );
 
 	curr = pool->PhysicalStart;
 	for ( block_index = 0; block_index < pool->NumBlocks - 1; block_index++ )
-- 
2.43.0


From 5db11d500f941315f1b7a0f4aaca9e39d5c0abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 090/256] fix: a pool without backing memory has no blocks

---
 base/dependencies/memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index c4af62e..f2c419d 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -488,6 +488,8 @@ Pool pool_init_align( AllocatorInfo backing, ssize num_blocks, ssize block_size,
 	pool_size         = num_blocks * actual_block_size;
 
 	data = alloc_align( backing, pool_size, block_align );
+	if ( data == NULL )
+		return pool;
 
 	// NOTE: Init intrusive freelist
 	curr = data;
-- 
2.43.0


From d7f6621d6773be5363c1c8ef9f8e11794ee84c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 091/256] fix: clearing a pool forgets the size in use

---
 base/dependencies/memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index f2c419d..c76b4af 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -528,7 +528,8 @@ void pool_clear(Pool* pool)
 	end  =  ( uptr* ) curr;
 	*end =  ( uptr )  NULL;
 
-	pool->FreeList = pool->PhysicalStart;
+	pool->FreeList  = pool->PhysicalStart;
+	pool->TotalSize = 0;
 }
 
 #pragma endregion Memory
-- 
2.43.0


From e820132b80941a19503dc7be6404c5d28e2fc3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 092/256] fix: tracked heap allocations are aligned as
 requested

---
 base/dependencies/memory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index c76b4af..80d8ecb 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -98,8 +98,8 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 #ifdef GEN_HEAP_ANALYSIS
 	ssize alloc_info_size      = size_of( _heap_alloc_info );
-	ssize alloc_info_remainder = ( alloc_info_size % alignment );
-	ssize track_size           = max( alloc_info_size, alignment ) + alloc_info_remainder;
+	ssize track_size           = max( alloc_info_size, alignment );
+	ssize alloc_info_remainder = track_size - alloc_info_size;
 	switch ( type )
 	{
 		case EAllocation_FREE :
-- 
2.43.0


From 1bc6dad30d88425ba84ac1d528d454285b2544d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 093/256] fix: purging virtual memory reports success as true

---
 base/dependencies/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 80d8ecb..e84721b 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -329,7 +329,7 @@ VirtualMemory vm_trim( VirtualMemory vm, ssize lead_size, ssize size )
 b32 vm_purge( VirtualMemory vm )
 {
 	int err = madvise( vm.data, vm.size, MADV_DONTNEED );
-	return err != 0;
+	return err == 0;
 }
 
 ssize virtual_memory_page_size( ssize* alignment_out )
-- 
2.43.0


From 06167e7c8da6f0efebccfb6c2e6dec10843a98fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 094/256] fix: fixed arena members compile

---
 base/dependencies/memory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/memory.hpp b/base/dependencies/memory.hpp
index eaad19d..e840590 100644
--- a/base/dependencies/memory.hpp
+++ b/base/dependencies/memory.hpp
@@ -337,8 +337,8 @@ struct FixedArena
 #pragma region Member Mapping
 	forceinline operator AllocatorInfo() { return fixed_arena_allocator_info(this); }
 
-	forceinline static FixedArena init()                          { FixedArena result; fixed_arena_init<Size>(result); return result; }
-	forceinline ssize             size_remaining(ssize alignment) { fixed_arena_size_remaining(this, alignment); }
+	forceinline static FixedArena init()                          { FixedArena result; fixed_arena_init<Size>(& result); return result; }
+	forceinline ssize             size_remaining(ssize alignment) { return fixed_arena_size_remaining(this, alignment); }
 #pragma endregion Member Mapping
 #endif
 };
-- 
2.43.0


From 34bf0acd95433af373f56803cfce87d2e94660d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 095/256] fix: the fallback allocator serves requests of any
 size and alignment, from its own context

---
 base/components/interface.cpp | 74 ++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b3eaf45..3407635 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -6,30 +6,45 @@
 internal void parser_init();
 internal void parser_deinit();
 
+// Provides the bucket to allocate from (adds one if the last one has no room).
 internal
-void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size, ssize alignment, void* old_memory, ssize old_size, u64 flags )
+Arena* fallback_allocator_bucket( Context* ctx, ssize size, ssize alignment )
 {
-	GEN_ASSERT(_ctx);
-	GEN_ASSERT(_ctx->Fallback_AllocatorBuckets);
-	Arena* last = array_back(_ctx->Fallback_AllocatorBuckets);
+	Arena* last = array_back(ctx->Fallback_AllocatorBuckets);
 
-	switch ( type )
+	// The arena aligns both the start & the size of the allocation.
+	ssize size_req = size + 2 * alignment;
+	if ( last->TotalUsed + size_req > last->TotalSize )
 	{
-		case EAllocation_ALLOC:
-		{
-			if ( ( last->TotalUsed + size ) > last->TotalSize )
-			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
+		ssize bucket_size = ctx->InitSize_Fallback_Allocator_Bucket_Size;
+		if ( bucket_size < size_req )
+			bucket_size = size_req;
+
+		Arena bucket = arena_init_from_allocator( heap(), bucket_size );
 
-				if ( bucket.PhysicalStart == nullptr )
-					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
+		if ( bucket.PhysicalStart == nullptr )
+			GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
 
-				if ( ! array_append( _ctx->Fallback_AllocatorBuckets, bucket ) )
-					GEN_FATAL( "Failed to append bucket to Fallback_AllocatorBuckets");
+		if ( ! array_append( ctx->Fallback_AllocatorBuckets, bucket ) )
+			GEN_FATAL( "Failed to append bucket to Fallback_AllocatorBuckets");
 
-				last = array_back(_ctx->Fallback_AllocatorBuckets);
-			}
+		last = array_back(ctx->Fallback_AllocatorBuckets);
+	}
+	return last;
+}
+
+internal
+void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size, ssize alignment, void* old_memory, ssize old_size, u64 flags )
+{
+	Context* ctx = rcast( Context*, allocator_data );
+	GEN_ASSERT(ctx);
+	GEN_ASSERT(ctx->Fallback_AllocatorBuckets);
 
+	switch ( type )
+	{
+		case EAllocation_ALLOC:
+		{
+			Arena* last = fallback_allocator_bucket( ctx, size, alignment );
 			return alloc_align( arena_allocator_info(last), size, alignment );
 		}
 		case EAllocation_FREE:
@@ -44,24 +59,12 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 		break;
 		case EAllocation_RESIZE:
 		{
-			if ( last->TotalUsed + size > last->TotalSize )
-			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
-
-				if ( bucket.PhysicalStart == nullptr )
-					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
-
-				if ( ! array_append( _ctx->Fallback_AllocatorBuckets, bucket ) )
-					GEN_FATAL( "Failed to append bucket to Fallback_AllocatorBuckets");
-
-				last = array_back( _ctx->Fallback_AllocatorBuckets);
-			}
-
-			void* result = alloc_align( last->Backing, size, alignment );
+			Arena* last   = fallback_allocator_bucket( ctx, size, alignment );
+			void*  result = alloc_align( arena_allocator_info(last), size, alignment );
 
 			if ( result != nullptr && old_memory != nullptr )
 			{
-				mem_copy( result, old_memory, old_size );
+				mem_copy( result, old_memory, old_size < size ? old_size : size );
 			}
 
 			return result;
@@ -219,7 +222,7 @@ void init(Context* ctx)
 	do_once() {
 		context_counter = 0;
 	}
-	AllocatorInfo fallback_allocator = { & fallback_allocator_proc, nullptr };
+	AllocatorInfo fallback_allocator = { & fallback_allocator_proc, ctx };
 	
 	b32 using_fallback_allocator = false;
 	if (ctx->Allocator_DyanmicContainers.Proc == nullptr) {
@@ -238,6 +241,9 @@ void init(Context* ctx)
 		ctx->Allocator_Temp = fallback_allocator;
 		using_fallback_allocator = true;
 	}
+	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
+		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
+	}
 	// Setup fallback allocator
 	if (using_fallback_allocator)
 	{
@@ -279,10 +285,6 @@ void init(Context* ctx)
 		ctx->SizePer_StringArena = megabytes(1);
 	}
 
-	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
-		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
-	}
-
 	// Override the current context (user has to put it back if unwanted).
 	_ctx = ctx;
 
-- 
2.43.0


From 21e5a3e255865f8c53506e3657345f9b1d2772e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 096/256] fix: a string longer than a string arena gets an
 arena it fits in

---
 base/components/interface.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 3407635..891f61f 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -422,10 +422,17 @@ void set_context(Context* new_ctx) {
 AllocatorInfo get_cached_str_allocator( s32 str_length )
 {
 	Arena* last     = array_back(_ctx->StringArenas);
-	usize  size_req = str_length + sizeof(StrBuilderHeader) + sizeof(char*);
-	if ( last->TotalUsed + scast(ssize, size_req) > last->TotalSize )
+	// The arena aligns both the start & the size of the allocation.
+	ssize  size_req = sizeof(StrBuilderHeader) + str_length + 1 + 2 * GEN_DEFAULT_MEMORY_ALIGNMENT;
+	if ( last->TotalUsed + size_req > last->TotalSize )
 	{
-		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, _ctx->SizePer_StringArena );
+		ssize arena_size = _ctx->SizePer_StringArena;
+		if ( arena_size < size_req )
+			arena_size = size_req;
+
+		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, arena_size );
+		if ( new_arena.PhysicalStart == nullptr )
+			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 		if ( ! array_append( _ctx->StringArenas, new_arena ) )
 			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 
-- 
2.43.0


From e16720fa358ba505ddafdfdf30651317fa7e2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 097/256] fix: strings with the same checksum are not taken for
 one another

---
 base/components/interface.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 891f61f..719841d 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -449,10 +449,16 @@ StrCached cache_str( Str str )
 		Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 		return result;
 	}
-	u64 key = crc32( str.Ptr, str.Len ); {
+	u64 key = crc32( str.Ptr, str.Len );
+	for (;;)
+	{
 		StrCached* result = hashtable_get( _ctx->StrCache, key );
-		if ( result )
+		if ( result == nullptr )
+			break;
+		if ( str_are_equal( * result, str ) )
 			return * result;
+		// A different string has the same checksum, look beyond it.
+		key += 0x100000000;
 	}
 	Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 	hashtable_set( _ctx->StrCache, key, result );
-- 
2.43.0


From 6a44ddf30d6f93da61d07e039c8a7d82a7c1c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 098/256] fix: macros with the same checksum are not taken for
 one another

---
 base/components/interface.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 719841d..6798233 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -486,15 +486,31 @@ Code make_code()
 	return result;
 }
 
+// Provides the key the macro is stored at, or the one to store it at if its not registered yet.
+internal
+u64 macro_key( Str name )
+{
+	u64 key = crc32( name.Ptr, name.Len );
+	for (;;)
+	{
+		Macro* macro = hashtable_get( _ctx->Macros, key );
+		if ( macro == nullptr || str_are_equal( macro->Name, name ) )
+			break;
+		// A different name has the same checksum, look beyond it.
+		key += 0x100000000;
+	}
+	return key;
+}
+
 Macro* lookup_macro( Str name ) {
-	u32 key = crc32( name.Ptr, name.Len );
+	u64 key = macro_key( name );
 	return hashtable_get( _ctx->Macros, key );
 }
 
 void register_macro( Macro macro ) {
 	GEN_ASSERT_NOT_NULL(macro.Name.Ptr);
 	GEN_ASSERT(macro.Name.Len > 0);
-	u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+	u64 key = macro_key( macro.Name );
 	macro.Name = cache_str(macro.Name);
 	hashtable_set( _ctx->Macros, key, macro );
 }
-- 
2.43.0


From e6bb8484eaf1e98af101e061fc8ded26d2ef5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 099/256] fix: macro batches find their entries the same way

---
 base/components/interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 6798233..e5998f6 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -527,7 +527,7 @@ void register_macros( s32 num, ... )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 	}
 	while (num--, num > 0);
@@ -544,7 +544,7 @@ void register_macros_arr( s32 num,  Macro* macros )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 		++ macros;
 	}
-- 
2.43.0


From 3873a3af01ae95ac961b4903ac3801bda46e7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 100/256] fix: a context with allocators of its own is released
 completely

---
 base/components/interface.cpp | 13 +++++++++----
 base/components/parser.cpp    |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index e5998f6..07b16af 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -4,7 +4,7 @@
 #endif
 
 internal void parser_init();
-internal void parser_deinit();
+internal void parser_deinit( Context* ctx );
 
 // Provides the bucket to allocate from (adds one if the last one has no room).
 internal
@@ -360,10 +360,16 @@ void deinit(Context* ctx)
 
 	hashtable_destroy(ctx->Macros);
 
-	left  = array_num( ctx->Fallback_AllocatorBuckets);
-	if (left)
+	if ( ctx->token_fmt_map.Hashes )
+		hashtable_destroy(ctx->token_fmt_map);
+
+	array_free( ctx->Lexer_Tokens);
+	parser_deinit( ctx );
+
+	if ( ctx->Fallback_AllocatorBuckets )
 	{
 		index = 0;
+		left  = array_num( ctx->Fallback_AllocatorBuckets);
 		do
 		{
 			Arena* bucket = & ctx->Fallback_AllocatorBuckets[ index ];
@@ -373,7 +379,6 @@ void deinit(Context* ctx)
 		while ( left--, left );
 		array_free( ctx->Fallback_AllocatorBuckets);
 	}
-	parser_deinit();
 
 	if (_ctx == ctx) 
 		_ctx = nullptr;
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 93b6c74..f4f9dac 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -153,10 +153,10 @@ void parser_init()
 }
 
 internal
-void parser_deinit()
+void parser_deinit( Context* ctx )
 {
 	Array(Token) null_array = { nullptr };
-	_ctx->Lexer_Tokens = null_array;
+	ctx->Lexer_Tokens = null_array;
 }
 
 #pragma region Helper Macros
-- 
2.43.0


From ed51dd983ab626c34b9f038986a1a20345d72b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 101/256] fix: every context knows the enum_underlying macro

---
 base/components/interface.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 07b16af..3135df8 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -209,6 +209,11 @@ void define_constants()
 	spec_local_persist = def_specifiers( 1, Spec_Local_Persist );
 	code_set_global(cast(Code, spec_local_persist));
 
+}
+
+internal
+void define_macros()
+{
 	if (enum_underlying_macro.Name.Len == 0) {
 		enum_underlying_macro.Name  = txt("enum_underlying");
 		enum_underlying_macro.Type  = MT_Expression;
@@ -324,6 +329,7 @@ void init(Context* ctx)
 	}
 
 	define_constants();
+	define_macros();
 	parser_init();
 
 	++ context_counter;
@@ -417,6 +423,7 @@ void reset(Context* ctx)
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
 	define_constants();
+	define_macros();
 }
 
 void set_context(Context* new_ctx) {
-- 
2.43.0


From 4173e2945bd26cb9a34489a3a24adf9b0a107775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 102/256] fix: resetting the base context defines the constants
 again

---
 base/components/interface.cpp   | 18 ++++++++++++------
 base/components/static_data.cpp |  3 +++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 3135df8..cc6137e 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -77,10 +77,6 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 internal
 void define_constants()
 {
-	// We only initalize these if there is no base context.
-	if ( context_counter > 0 )
-		return;
-
 	Code_Global          = make_code();
 	Code_Global->Name    = cache_str( txt("Global Code") );
 	Code_Global->Content = Code_Global->Name;
@@ -328,7 +324,11 @@ void init(Context* ctx)
 		}
 	}
 
-	define_constants();
+	// We only initalize the constants if there is no base context.
+	if ( context_counter == 0 ) {
+		base_context = ctx;
+		define_constants();
+	}
 	define_macros();
 	parser_init();
 
@@ -422,8 +422,14 @@ void reset(Context* ctx)
 
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
-	define_constants();
+
+	// The definitions are made in the context reset, whichever is active.
+	Context* active = _ctx;
+	_ctx = ctx;
+	if ( ctx == base_context )
+		define_constants();
 	define_macros();
+	_ctx = active;
 }
 
 void set_context(Context* new_ctx) {
diff --git a/base/components/static_data.cpp b/base/components/static_data.cpp
index 696b5e2..02035d5 100644
--- a/base/components/static_data.cpp
+++ b/base/components/static_data.cpp
@@ -7,6 +7,9 @@
 GEN_API global Context* _ctx;
 GEN_API global u32      context_counter;
 
+// The first context initialized, the constants live in its pools.
+global Context* base_context;
+
 #pragma region Constants
 GEN_API global Macro enum_underlying_macro;
 
-- 
2.43.0


From 6b724e49abb8b38911e2756267b2adf6bf144a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 103/256] fix: comparing a number of characters orders by their
 value

---
 base/dependencies/string_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/string_ops.hpp b/base/dependencies/string_ops.hpp
index 78fa555..dfb6fb4 100644
--- a/base/dependencies/string_ops.hpp
+++ b/base/dependencies/string_ops.hpp
@@ -137,7 +137,7 @@ s32 c_str_compare_len( const char* s1, const char* s2, ssize len )
 	for ( ; len > 0; s1++, s2++, len-- )
 	{
 		if ( *s1 != *s2 )
-			return ( ( s1 < s2 ) ? -1 : +1 );
+			return ( ( *( u8* )s1 < *( u8* )s2 ) ? -1 : +1 );
 		else if ( *s1 == '\0' )
 			return 0;
 	}
-- 
2.43.0


From 0ccdd7e496641817c77c023cffa52c99f15c3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 104/256] fix: the whole prefix of a string builder is compared

---
 base/dependencies/strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 866e944..3840776 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -513,7 +513,7 @@ b32 strbuilder_starts_with_string(StrBuilder const str, StrBuilder substring) {
 	if (strbuilder_length(substring) > strbuilder_length(str))
 		return false;
 
-	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring) - 1) == 0;
+	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring)) == 0;
 	return result;
 }
 
-- 
2.43.0


From 763d15090bf08fbdd0ebbe1a0f0162f23c777571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 105/256] fix: string builder equality and search are defined
 under their declared names

---
 base/dependencies/strings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 3840776..887bc5a 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -385,7 +385,7 @@ bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 }
 
 inline
-bool strbuilder_are_equal_string(StrBuilder const lhs, StrBuilder const rhs)
+bool strbuilder_are_equal(StrBuilder const lhs, StrBuilder const rhs)
 {
 	if (strbuilder_length(lhs) != strbuilder_length(rhs))
 		return false;
@@ -422,7 +422,7 @@ char* strbuilder_back(StrBuilder str) {
 }
 
 inline
-bool strbuilder_contains_StrC(StrBuilder const str, Str substring)
+bool strbuilder_contains_str(StrBuilder const str, Str substring)
 {
 	StrBuilderHeader const* header = rcast(StrBuilderHeader const*, scast(char const*, str) - sizeof(StrBuilderHeader));
 
-- 
2.43.0


From 0b1cdfc8a44ada7ce2f0a53599b3aa3c3ed441f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 106/256] fix: a cleared string builder is terminated

---
 base/dependencies/strings.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 887bc5a..e6c05a9 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -470,6 +470,7 @@ ssize strbuilder_capacity(StrBuilder const str) {
 forceinline
 void strbuilder_clear(StrBuilder str) {
 	strbuilder_get_header(str)->Length = 0;
+	* strbuilder_begin(str) = '\0';
 }
 
 forceinline
-- 
2.43.0


From b5acc5210b52c4f74679bc216e822e40a97f3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 107/256] fix: skipping a line keeps the text after it

---
 base/dependencies/strings.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index e6c05a9..0533487 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -523,17 +523,22 @@ void strbuilder_skip_line(StrBuilder str)
 {
 #define current (*scanner)
 	char* scanner = str;
-	while (current != '\r' && current != '\n') {
+	char* end     = strbuilder_end(str);
+	while (scanner < end && current != '\r' && current != '\n') {
 		++scanner;
 	}
 
-	s32 new_length = scanner - str;
-
-	if (current == '\r') {
-		new_length += 1;
+	if (scanner < end && current == '\r') {
+		++scanner;
 	}
+	if (scanner < end && current == '\n') {
+		++scanner;
+	}
+
+	ssize new_length = end - scanner;
 
 	mem_move((char*)str, scanner, new_length);
+	str[new_length] = '\0';
 
 	StrBuilderHeader* header = strbuilder_get_header(str);
 	header->Length = new_length;
-- 
2.43.0


From b34f1daddee20659f5ad43861a29e4bc8700a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 108/256] fix: a string builder may be appended to itself

---
 base/dependencies/strings.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/dependencies/strings.cpp b/base/dependencies/strings.cpp
index 5bd3a47..1832cc4 100644
--- a/base/dependencies/strings.cpp
+++ b/base/dependencies/strings.cpp
@@ -102,12 +102,19 @@ bool strbuilder_append_c_str_len(StrBuilder* str, char const* c_str_to_append, s
 	{
 		ssize curr_len = strbuilder_length(* str);
 
+		// The text may be part of the string itself, which moves when it grows.
+		sptr offset   = rcast(sptr, c_str_to_append) - rcast(sptr, strbuilder_begin(* str));
+		b32  is_alias = offset >= 0 && offset <= curr_len;
+
 		if ( ! strbuilder_make_space_for(str, c_str_to_append, append_length))
 			return false;
 
 		StrBuilderHeader* header = strbuilder_get_header(* str);
 
 		char* Data = * str;
+		if (is_alias)
+			c_str_to_append = Data + offset;
+
 		mem_copy( Data + curr_len, c_str_to_append, append_length);
 
 		Data[curr_len + append_length] = '\0';
-- 
2.43.0


From b057d7f6611363cb30583b8269f4f39544a5f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 109/256] fix: formatting never writes past the buffer and says
 when the text does not fit

---
 base/dependencies/printing.cpp | 56 +++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 684f0ea..db97c1d 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -46,15 +46,12 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 	ssize remaining = max_len;
 	char* begin     = text;
 
-	if ( str == NULL && max_len >= 6 )
-	{
-		res += c_str_copy_nulpad( text, "(null)", 6 );
-		return res;
-	}
+	if ( str == NULL )
+		str = "(null)";
 
 	if ( info && info->precision >= 0 )
 		// Made the design decision for this library that precision is the length of the string.
-		len = info->precision;
+		len = c_str_len_capped( str, info->precision );
 	else
 		len = c_str_len( str );
 
@@ -63,12 +60,12 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		return res;
 	}
 
+	// Does not fit
+	if ( len >= max_len || ( info && info->width >= max_len ) )
+		return max_len;
+
 	if ( info && ( info->width == 0 || info->flags & GEN_FMT_MINUS ) )
 	{
-		if ( info->precision > 0 )
-			len = info->precision < len ? info->precision : len;
-		if ( res + len > max_len )
-			return res;
 		res  += c_str_copy_nulpad( text, str, len );
 		text += res;
 
@@ -91,17 +88,18 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 				*text++ = pad, res++;
 		}
 
-		if ( res + len > max_len )
-			return res;
 		res += c_str_copy_nulpad( text, str, len );
 	}
 
 	if ( info )
 	{
+		ssize idx;
 		if ( info->flags & GEN_FMT_UPPER )
-			c_str_to_upper( begin );
+			for ( idx = 0; idx < res; idx++ )
+				begin[ idx ] = char_to_upper( begin[ idx ] );
 		else if ( info->flags & GEN_FMT_LOWER )
-			c_str_to_lower( begin );
+			for ( idx = 0; idx < res; idx++ )
+				begin[ idx ] = char_to_lower( begin[ idx ] );
 	}
 
 	return res;
@@ -119,6 +117,9 @@ internal ssize _print_repeated_char( char* text, ssize max_len, _format_info* in
 	ssize  res = 0;
 	s32 rem = ( info ) ? ( info->width > 0 ) ? info->width : 1 : 1;
 	res     = rem;
+	// Does not fit
+	if ( res >= max_len )
+		return max_len;
 	while ( rem-- > 0 )
 		*text++ = arg;
 
@@ -243,14 +244,24 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 	char const* text_begin = text;
 	ssize          remaining  = max_len, res;
 
+	if ( max_len <= 0 )
+		return -1;
+
 	while ( *fmt )
 	{
 		_format_info info = { 0 };
 		ssize        len  = 0;
 		info.precision    = -1;
 
-		while ( *fmt && *fmt != '%' && remaining )
-			*text++ = *fmt++;
+		while ( *fmt && *fmt != '%' && remaining > 1 )
+			*text++ = *fmt++, remaining--;
+
+		// Does not fit
+		if ( *fmt && *fmt != '%' )
+		{
+			*text = '\0';
+			return -1;
+		}
 
 		if ( *fmt == '%' )
 		{
@@ -520,16 +531,19 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 			}
 		}
 
-		text += len;
+		// Does not fit
 		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		{
+			*text = '\0';
+			return -1;
+		}
+		text      += len;
+		remaining -= len;
 	}
 
 	*text++ = '\0';
 	res     = ( text - text_begin );
-	return ( res >= max_len || res < 0 ) ? -1 : res;
+	return res;
 }
 
 char* c_str_fmt_buf_va( char const* fmt, va_list va )
-- 
2.43.0


From 3b074a58e1afc24198ec271249e18f7ecc2925b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 110/256] fix: formatted text of any length is appended whole

---
 base/auxiliary/builder.cpp     |  9 +++------
 base/dependencies/printing.cpp |  7 ++++---
 base/dependencies/strings.cpp  | 33 +++++++++++++++++++++++++++++++
 base/dependencies/strings.hpp  | 36 ++++++++++++++++------------------
 4 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 391f520..2fc09f7 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -38,12 +38,9 @@ void builder_print( Builder* builder, Code code )
 
 void builder_print_fmt_va( Builder* builder, char const* fmt, va_list va )
 {
-	ssize   res;
-	char buf[ GEN_PRINTF_MAXLEN ] = { 0 };
-
-	res = c_str_fmt_va( buf, count_of( buf ) - 1, fmt, va ) - 1;
-
-	strbuilder_append_c_str_len( (StrBuilder*) & (builder->Buffer), (char const*)buf, res);
+	StrBuilder text = strbuilder_fmt_va( heap(), fmt, va );
+	strbuilder_append_string( & builder->Buffer, text );
+	strbuilder_free( & text );
 }
 
 void builder_write(Builder* builder)
diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index db97c1d..b55e3e3 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -565,9 +565,10 @@ char* c_str_fmt_buf( char const* fmt, ... )
 
 ssize c_str_fmt_file_va( FileInfo* f, char const* fmt, va_list va )
 {
-	local_persist thread_local char buf[ GEN_PRINTF_MAXLEN ];
-	ssize                              len = c_str_fmt_va( buf, size_of( buf ), fmt, va );
-	b32                             res = file_write( f, buf, len - 1 );    // NOTE: prevent extra whitespace
+	StrBuilder text = strbuilder_fmt_va( heap(), fmt, va );
+	ssize      len  = strbuilder_length( text ) + 1;
+	b32        res  = file_write( f, text, len - 1 );    // NOTE: prevent extra whitespace
+	strbuilder_free( & text );
 	return res ? len : -1;
 }
 
diff --git a/base/dependencies/strings.cpp b/base/dependencies/strings.cpp
index 1832cc4..febcb0e 100644
--- a/base/dependencies/strings.cpp
+++ b/base/dependencies/strings.cpp
@@ -124,6 +124,39 @@ bool strbuilder_append_c_str_len(StrBuilder* str, char const* c_str_to_append, s
 	return c_str_to_append != nullptr;
 }
 
+StrBuilder strbuilder_fmt_va(AllocatorInfo allocator, char const* fmt, va_list va)
+{
+	local_persist thread_local
+	PrintF_Buffer buf = struct_init(PrintF_Buffer, {0});
+
+	va_list args;
+	va_copy(args, va);
+	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, args);
+	va_end(args);
+	if (res > 0)
+		return strbuilder_make_length(allocator, buf, res - 1);
+
+	// Does not fit the buffer, allocates until it does.
+	ssize size = GEN_PRINTF_MAXLEN;
+	for (;;)
+	{
+		size *= 4;
+		StrBuilder result = strbuilder_make_reserve(allocator, size);
+		if (result == nullptr)
+			return result;
+
+		va_copy(args, va);
+		res = c_str_fmt_va(result, size, fmt, args);
+		va_end(args);
+		if (res > 0)
+		{
+			strbuilder_get_header(result)->Length = res - 1;
+			return result;
+		}
+		strbuilder_free(& result);
+	}
+}
+
 void strbuilder_trim(StrBuilder str, char const* cut_set)
 {
 	ssize len = 0;
diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 0533487..cd5b035 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -128,6 +128,7 @@ GEN_API bool              strbuilder_make_space_for      (StrBuilder* str, char
 GEN_API bool              strbuilder_append_c_str_len    (StrBuilder* str, char const* c_str_to_append, ssize length);
 GEN_API void              strbuilder_trim                (StrBuilder  str, char const* cut_set);
 GEN_API StrBuilder        strbuilder_visualize_whitespace(StrBuilder const str);
+GEN_API StrBuilder        strbuilder_fmt_va              (AllocatorInfo allocator, char const* fmt, va_list va);
 
 StrBuilder        strbuilder_make_c_str          (AllocatorInfo allocator, char const*  str);
 StrBuilder        strbuilder_make_str            (AllocatorInfo allocator, Str         str);
@@ -209,18 +210,18 @@ struct StrBuilder
 		va_start(va, fmt);
 		ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
 		va_end(va);
+		if (res < 0)
+			res = c_str_len(buf);
 		return strbuilder_make_length(allocator, buf, res);
 	}
 
 	static
 	StrBuilder fmt_buf(AllocatorInfo allocator, char const* fmt, ...) {
-		local_persist thread_local
-		char buf[GEN_PRINTF_MAXLEN] = { 0 };
 		va_list va;
 		va_start(va, fmt);
-		ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
+		StrBuilder result = strbuilder_fmt_va(allocator, fmt, va);
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		return result;
 	}
 
 	forceinline bool              make_space_for(char const* str, ssize add_len) { return strbuilder_make_space_for(this, str, add_len); }
@@ -251,15 +252,14 @@ struct StrBuilder
 	forceinline StrBuilderHeader& get_header()                                   { return * strbuilder_get_header(* this); }
 
 	bool append_fmt(char const* fmt, ...) {
-		ssize res;
-		char buf[GEN_PRINTF_MAXLEN] = { 0 };
-
 		va_list va;
 		va_start(va, fmt);
-		res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
+		StrBuilder text = strbuilder_fmt_va(heap(), fmt, va);
 		va_end(va);
 
-		return strbuilder_append_c_str_len(this, buf, res);
+		bool result = strbuilder_append_string(this, text);
+		strbuilder_free(& text);
+		return result;
 	}
 #pragma endregion Member Mapping
 #endif
@@ -313,21 +313,20 @@ StrBuilder strbuilder_fmt(AllocatorInfo allocator, char* buf, ssize buf_size, ch
 	ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
 	va_end(va);
 
+	if (res < 0)
+		res = c_str_len(buf);
 	return strbuilder_make_length(allocator, buf, res);
 }
 
 inline
 StrBuilder strbuilder_fmt_buf(AllocatorInfo allocator, char const* fmt, ...)
 {
-	local_persist thread_local
-	PrintF_Buffer buf = struct_init(PrintF_Buffer, {0});
-
 	va_list va;
 	va_start(va, fmt);
-	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) -1;
+	StrBuilder result = strbuilder_fmt_va(allocator, fmt, va);
 	va_end(va);
 
-	return strbuilder_make_length(allocator, buf, res);
+	return result;
 }
 
 inline
@@ -373,15 +372,14 @@ bool strbuilder_append_string(StrBuilder* str, StrBuilder const other) {
 inline
 bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 	GEN_ASSERT(str != nullptr);
-	ssize res;
-	char buf[GEN_PRINTF_MAXLEN] = { 0 };
-
 	va_list va;
 	va_start(va, fmt);
-	res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
+	StrBuilder text = strbuilder_fmt_va(heap(), fmt, va);
 	va_end(va);
 
-	return strbuilder_append_c_str_len(str, (char const*)buf, res);
+	bool result = strbuilder_append_string(str, text);
+	strbuilder_free(& text);
+	return result;
 }
 
 inline
-- 
2.43.0


From 300db054d566cd6be52e392dfd4e96180ac494f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 111/256] fix: every digit of a fraction is printed once

---
 base/dependencies/printing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index b55e3e3..92cdcf3 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -156,7 +156,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 			text++;
 			arg = -arg;
 		}
-		else if ( info->flags & GEN_FMT_MINUS )
+		else if ( info->flags & GEN_FMT_PLUS )
 		{
 			if ( remaining > 1 )
 				*text = '+', remaining--;
@@ -191,7 +191,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 					remaining = min( remaining, 1 );
 				else
 					remaining -= len;
-				arg  -= scast( f64, value / mult);
+				arg  -= scast( f64, value ) / mult;
 				mult *= 10;
 			}
 		}
-- 
2.43.0


From e8c504d47422a2cbf2bbb70fb00304eaecf0c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 112/256] fix: a zero is printed with its decimals

---
 base/dependencies/printing.cpp | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 92cdcf3..a1b8d45 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -146,7 +146,6 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	ssize    width, len, remaining = max_len;
 	char* text_begin = text;
 
-	if ( arg )
 	{
 		u64 value;
 		if ( arg < 0 )
@@ -196,19 +195,6 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 			}
 		}
 	}
-	else
-	{
-		if ( remaining > 1 )
-			*text = '0', remaining--;
-		text++;
-		if ( info->flags & GEN_FMT_ALT )
-		{
-			if ( remaining > 1 )
-				*text = '.', remaining--;
-			text++;
-		}
-	}
-
 	width = info->width - ( text - text_begin );
 	if ( width > 0 )
 	{
-- 
2.43.0


From 4444f305c8d2271a9019dbe573fb45eb86523c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 113/256] fix: the sign comes before the zeros padding a number

---
 base/dependencies/printing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index a1b8d45..d4a47a5 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -84,6 +84,11 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		{
 			ssize   padding = info->width - len;
 			char pad     = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
+			if ( pad == '0' && info->base && *str == '-' )
+			{
+				*text++ = *str++, res++;
+				len--;
+			}
 			while ( padding-- > 0 && remaining-- > 0 )
 				*text++ = pad, res++;
 		}
-- 
2.43.0


From dc410b5a6058640b3c2e2100d2fcf454f5e72a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 114/256] fix: sizes are signed and octals unsigned when
 printed as such

---
 base/dependencies/printing.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index d4a47a5..6e15a5a 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -364,8 +364,6 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 				break;
 
 			case 'z' :    // NOTE: zpl_usize
-				info.flags |= GEN_FMT_UNSIGNED;
-				// fallthrough
 			case 't' :    // NOTE: zpl_isize
 				info.flags |= GEN_FMT_SIZE;
 				break;
@@ -386,7 +384,8 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 				break;
 
 			case 'o' :
-				info.base = 8;
+				info.base   = 8;
+				info.flags |= GEN_FMT_UNSIGNED;
 				break;
 
 			case 'x' :
-- 
2.43.0


From 7daaa7d4e7e1659f83030fb7ee340b9e72865870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 115/256] fix: the smallest integer is converted and read back

---
 base/dependencies/string_ops.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/base/dependencies/string_ops.cpp b/base/dependencies/string_ops.cpp
index 47f11f1..710f390 100644
--- a/base/dependencies/string_ops.cpp
+++ b/base/dependencies/string_ops.cpp
@@ -9,7 +9,7 @@ internal
 ssize _scan_zpl_i64( const char* text, s32 base, s64* value )
 {
 	const char* text_begin = text;
-	s64         result     = 0;
+	u64         result     = 0;
 	b32         negative   = false;
 
 	if ( *text == '-' )
@@ -39,8 +39,8 @@ ssize _scan_zpl_i64( const char* text, s32 base, s64* value )
 	if ( value )
 	{
 		if ( negative )
-			result = -result;
-		*value = result;
+			result = 0 - result;
+		*value = scast( s64, result );
 	}
 
 	return ( text - text_begin );
@@ -81,10 +81,9 @@ void i64_to_str( s64 value, char* string, s32 base )
 	if ( value < 0 )
 	{
 		negative = true;
-		value    = -value;
 	}
 
-	v = scast( u64, value);
+	v = negative ? 0 - scast( u64, value) : scast( u64, value);
 	if ( v != 0 )
 	{
 		while ( v > 0 )
-- 
2.43.0


From 7b56deaaffa2963e9733fb86865c6df3ba6c9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 116/256] fix: reading a number stops at a digit its base does
 not have

---
 base/dependencies/string_ops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/dependencies/string_ops.cpp b/base/dependencies/string_ops.cpp
index 710f390..43e82a7 100644
--- a/base/dependencies/string_ops.cpp
+++ b/base/dependencies/string_ops.cpp
@@ -31,6 +31,9 @@ ssize _scan_zpl_i64( const char* text, s32 base, s64* value )
 		else
 			break;
 
+		if ( v >= base )
+			break;
+
 		result *= base;
 		result += v;
 		text++;
-- 
2.43.0


From 4ae8df1f94a73f43637f6d6f68ed67a3e9bbb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 117/256] fix: an exponent of any length is read

---
 base/dependencies/string_ops.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/string_ops.cpp b/base/dependencies/string_ops.cpp
index 43e82a7..8446d7a 100644
--- a/base/dependencies/string_ops.cpp
+++ b/base/dependencies/string_ops.cpp
@@ -183,7 +183,8 @@ f64 c_str_to_f64( const char* str, char** end_ptr )
 
 		for ( exp = 0; char_is_digit( *str ); str++ )
 		{
-			exp = exp * 10 + ( *str - '0' );
+			if ( exp <= 308 )
+				exp = exp * 10 + ( *str - '0' );
 		}
 		if ( exp > 308 )
 			exp = 308;
-- 
2.43.0


From 4ddea3ce5c553e3114a2c2d5b2172a752ac3e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 118/256] fix: a precision longer than the string does not read
 past it

---
 base/dependencies/printing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 6e15a5a..47be92c 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -51,7 +51,8 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 
 	if ( info && info->precision >= 0 )
 		// Made the design decision for this library that precision is the length of the string.
-		len = c_str_len_capped( str, info->precision );
+		while ( len < info->precision && str[ len ] )
+			len++;
 	else
 		len = c_str_len( str );
 
-- 
2.43.0


From a5b6371956ca8ef77feedc25bdaff2b763f4cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 119/256] fix: padding a number that does not fit stays in the
 buffer

---
 base/dependencies/printing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 47be92c..79212b9 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -205,7 +205,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	if ( width > 0 )
 	{
 		char  fill = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-		char* end  = text + remaining - 1;
+		char* end  = text_begin + max_len - 1;
 		len        = ( text - text_begin );
 
 		for ( len = ( text - text_begin ); len--; )
-- 
2.43.0


From aae7b79c0f868e1e8daabcedf54a3a08b659ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 120/256] fix: the capped length of a string does not read past
 its end

---
 base/dependencies/string_ops.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/dependencies/string_ops.hpp b/base/dependencies/string_ops.hpp
index dfb6fb4..e8bc20a 100644
--- a/base/dependencies/string_ops.hpp
+++ b/base/dependencies/string_ops.hpp
@@ -206,10 +206,10 @@ ssize c_str_len( const char* str )
 inline
 ssize c_str_len_capped( const char* str, ssize max_len )
 {
-	const char* end = rcast(const char*, mem_find( str, 0, max_len ));
-	if ( end )
-		return end - str;
-	return max_len;
+	ssize len = 0;
+	while ( len < max_len && str[len] )
+		len++;
+	return len;
 }
 
 inline
-- 
2.43.0


From c709a57e37f544623833228ce3b65b59df0ef862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 121/256] fix: token formatting stays within its buffer and
 ends at an open bracket

---
 base/components/interface.untyped.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 69d74bb..0550a69 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -28,7 +28,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 	char const* fmt     = va_arg( va, char const* );
 	char        current = *fmt;
 
-	while ( current )
+	while ( current && remaining )
 	{
 		ssize len = 0;
 
@@ -42,13 +42,13 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			current = * fmt;
 		}
 
-		if ( current == '<' )
+		if ( current == '<' && remaining )
 		{
 			char const* scanner = fmt + 1;
 
 			s32 tok_len = 0;
 
-			while ( *scanner != '>' )
+			while ( *scanner && *scanner != '>' )
 			{
 				tok_len++;
 				scanner++;
@@ -59,12 +59,12 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			u32      key   = crc32( token, tok_len );
 			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
 
-			if ( value )
+			if ( value && *scanner == '>' )
 			{
 				ssize          left = value->Len;
 				char const* str  = value->Ptr;
 
-				while ( left-- )
+				while ( left-- && remaining )
 				{
 					* buf = * str;
 					buf++;
-- 
2.43.0


From 9ae17f1b446a2d673617d092936c73755bf266b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 122/256] fix: token formatting takes a key for another only if
 it is the same

---
 base/components/interface.untyped.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 0550a69..b5661e9 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -20,7 +20,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			char const* token = va_arg( va, char const* );
 			Str         value = va_arg( va, Str );
 
-			u32 key = crc32( token, c_str_len(token) );
+			u64 key = crc64( token, c_str_len(token) );
 			hashtable_set( _ctx->token_fmt_map, key, value );
 		}
 	}
@@ -56,7 +56,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 			char const* token = fmt + 1;
 
-			u32      key   = crc32( token, tok_len );
+			u64      key   = crc64( token, tok_len );
 			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
 
 			if ( value && *scanner == '>' )
-- 
2.43.0


From 35ef7598ae68502c75d916fbd05baf64baf0d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 123/256] fix: token formatted text that does not fit its
 buffer is diagnosed

---
 base/components/inlines.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 407b817..f1da913 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -762,6 +762,10 @@ Str token_fmt_impl( ssize num, ... )
 	ssize result = token_fmt_va(buf, GEN_PRINTF_MAXLEN, num, va);
 	va_end(va);
 
+	// The text is terminated within the buffer.
+	if ( result == GEN_PRINTF_MAXLEN )
+		GEN_FATAL( "token_fmt: the text does not fit the buffer" );
+
 	Str str = { buf, result };
 	return str;
 }
-- 
2.43.0


From 70e8c76b34afcb23f0decdf783c4f5d10af8fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 124/256] fix: untyped_fmt keeps its text, of any length

---
 base/components/interface.untyped.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index b5661e9..f73c71d 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -122,19 +122,18 @@ Code untyped_fmt( char const* fmt, ...)
 		return InvalidCode;
 	}
 
-	local_persist thread_local
-	char buf[GEN_PRINTF_MAXLEN] = { 0 };
-
 	va_list va;
 	va_start(va, fmt);
-	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va);
+	StrBuilder buf = strbuilder_fmt_va(_ctx->Allocator_Temp, fmt, va);
 	va_end(va);
-    Str content = { buf, length };
 
 	Code
 	result          = make_code();
+	result->Name    = cache_str( strbuilder_to_str(buf) );
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( content );
+	result->Content = result->Name;
+
+	strbuilder_free(& buf);
 
 	if ( result->Name.Len == 0 )
 	{
-- 
2.43.0


From 7023a595a0872ae1ea483e1b43f148b947620e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 125/256] fix: untyped_token_fmt uses the format its given and
 keeps the text

---
 base/components/interface.untyped.cpp | 33 ++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index f73c71d..ce7cb10 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -3,7 +3,9 @@
 #include "interface.parsing.cpp"
 #endif
 
-ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
+// If no format is provided its taken from the arguments, after the tokens.
+internal
+ssize token_fmt_va_w_fmt( char* buf, usize buf_size, s32 num_tokens, char const* fmt, va_list va )
 {
 	char const* buf_begin = buf;
 	ssize       remaining = buf_size;
@@ -13,7 +15,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 	}
 	// Populate token pairs
 	{
-		s32 left = num_tokens - 1;
+		s32 left = num_tokens;
 
 		while ( left-- )
 		{
@@ -25,8 +27,10 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 		}
 	}
 
-	char const* fmt     = va_arg( va, char const* );
-	char        current = *fmt;
+	if ( fmt == nullptr )
+		fmt = va_arg( va, char const* );
+
+	char current = *fmt;
 
 	while ( current && remaining )
 	{
@@ -91,6 +95,11 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 	return result;
 }
 
+ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
+{
+	return token_fmt_va_w_fmt( buf, buf_size, num_tokens - 1, nullptr, va );
+}
+
 Code untyped_str( Str content )
 {
 	if ( content.Len == 0 )
@@ -151,21 +160,33 @@ Code untyped_token_fmt( s32 num_tokens, char const* fmt, ... )
 		log_failure( "untyped_token_fmt: zero tokens" );
 		return InvalidCode;
 	}
+	if ( fmt == nullptr )
+	{
+		log_failure( "untyped_token_fmt: null format string" );
+		return InvalidCode;
+	}
 
 	local_persist thread_local
 	char buf[GEN_PRINTF_MAXLEN] = { 0 };
 
 	va_list va;
 	va_start(va, fmt);
-	ssize length = token_fmt_va(buf, GEN_PRINTF_MAXLEN, num_tokens, va);
+	ssize length = token_fmt_va_w_fmt(buf, GEN_PRINTF_MAXLEN, num_tokens, fmt, va);
 	va_end(va);
 
+	if ( length == GEN_PRINTF_MAXLEN )
+	{
+		log_failure( "untyped_token_fmt: the text does not fit the buffer" );
+		return InvalidCode;
+	}
+
 	Str buf_str = { buf, length };
 
 	Code
 	result          = make_code();
+	result->Name    = cache_str( buf_str );
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( buf_str );
+	result->Content = result->Name;
 
 	if ( result->Name.Len == 0 )
 	{
-- 
2.43.0


From 4aeec023590647f1d8c49c64001a1115eaa5606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 126/256] fix: code and strings made after a reset reuse the
 memory it cleared

---
 base/components/interface.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index cc6137e..bec37e1 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -442,6 +442,16 @@ AllocatorInfo get_cached_str_allocator( s32 str_length )
 	Arena* last     = array_back(_ctx->StringArenas);
 	// The arena aligns both the start & the size of the allocation.
 	ssize  size_req = sizeof(StrBuilderHeader) + str_length + 1 + 2 * GEN_DEFAULT_MEMORY_ALIGNMENT;
+	// A reset leaves arenas with room before the last one.
+	for ( usize index = 0; last->TotalUsed + size_req > last->TotalSize && index < array_num(_ctx->StringArenas); ++ index )
+	{
+		Arena arena = _ctx->StringArenas[index];
+		if ( arena.TotalUsed + size_req > arena.TotalSize )
+			continue;
+
+		_ctx->StringArenas[index] = * last;
+		* last                    = arena;
+	}
 	if ( last->TotalUsed + size_req > last->TotalSize )
 	{
 		ssize arena_size = _ctx->SizePer_StringArena;
@@ -487,6 +497,16 @@ StrCached cache_str( Str str )
 Code make_code()
 {
 	Pool* allocator = array_back( _ctx->CodePools);
+	// A reset leaves pools with free blocks before the last one.
+	for ( usize index = 0; allocator->FreeList == nullptr && index < array_num(_ctx->CodePools); ++ index )
+	{
+		Pool pool = _ctx->CodePools[index];
+		if ( pool.FreeList == nullptr )
+			continue;
+
+		_ctx->CodePools[index] = * allocator;
+		* allocator            = pool;
+	}
 	if ( allocator->FreeList == nullptr )
 	{
 		Pool code_pool = pool_init( _ctx->Allocator_Pool, _ctx->CodePool_NumBlocks, sizeof(AST) );
-- 
2.43.0


From c7dd4f42851016fcd5789e6c9ef3eb4067476b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 127/256] fix: only the forward declaration of an unscoped enum
 needs an underlying type

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 0e4df50..b9d1908 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -672,7 +672,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 	else if ( p.type_macro ) {
 		result->UnderlyingTypeMacro = p.type_macro;
 	}
-	else if ( result->Type != CT_Enum_Class_Fwd && result->Type != CT_Enum_Fwd )
+	else if ( result->Type == CT_Enum_Fwd )
 	{
 		log_failure( "gen::def_enum: enum forward declaration must have an underlying type" );
 		GEN_DEBUG_TRAP();
-- 
2.43.0


From 84823b8569a1152265395be218f5756af7550807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 128/256] fix: a using definition is made from a type, not
 refused for it

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index b9d1908..623c898 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1237,7 +1237,7 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 
 CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 {
-	if ( ! name_check( def_using, name ) || null_check( def_using, type ) ) {
+	if ( ! name_check( def_using, name ) || ! null_check( def_using, type ) ) {
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-- 
2.43.0


From eaa396033914513891944d9a79d99c14d79f944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 129/256] fix: def_comment does not read past the end of its
 text

---
 base/components/interface.upfront.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 623c898..50cf942 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -441,26 +441,19 @@ CodeComment def_comment( Str content )
 	StrBuilder  cmt_formatted = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(1) );
 	char const* end           = content.Ptr + content.Len;
 	char const* scanner       = content.Ptr;
-	s32         curr          = 0;
 	do
 	{
-		char const* next   = scanner;
-		s32         length = 0;
-		while ( next != end && scanner[ length ] != '\n' )
-		{
-			next = scanner + length;
+		ssize length = 0;
+		while ( scanner + length != end && scanner[ length ] != '\n' )
 			length++;
-		}
-		length++;
 
-		strbuilder_append_fmt(& cmt_formatted, "//%.*s", length, scanner );
-		scanner += length;
+		strbuilder_append_str( & cmt_formatted, txt("//") );
+		strbuilder_append_c_str_len( & cmt_formatted, scanner, length );
+		strbuilder_append_str( & cmt_formatted, txt("\n") );
+		scanner += length + 1;
 	}
 	while ( scanner <= end );
 
-	if ( * strbuilder_back(cmt_formatted) != '\n' )
-		strbuilder_append_str( & cmt_formatted, txt("\n") );
-
 	Str name = strbuilder_to_str(cmt_formatted);
 
 	Code
-- 
2.43.0


From d442e957905ab08a92c645f452cf39c3dc49965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 130/256] fix: lists of parameters made from an array keep the
 value and stay within the array

---
 base/components/interface.upfront.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 50cf942..d1915c4 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1442,14 +1442,13 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
-	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
+	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams
-	result            = (CodeDefineParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	while( num--, num > 0 ) {
+		codes++;
+		current = * codes;
 		check_current(current);
 		define_params_append(result, current );
 	}
@@ -1899,15 +1898,13 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
-	CodeParams current = (CodeParams)code_duplicate(* codes);
+	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams
-	result            = (CodeParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	result->ValueType = current->ValueType;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeParams result = (CodeParams) code_duplicate(current);
+	while( num--, num > 0 ) {
+		codes++;
+		current = * codes;
 		check_current(current);
 		params_append(result, current );
 	}
-- 
2.43.0


From 8379c72d792491b595be4283d74429e861a5f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 131/256] fix: a duplicate does not stay linked to the list of
 its original

---
 base/components/ast.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 8448739..3ce8d03 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -373,6 +373,23 @@ Code code_duplicate(Code self)
 	mem_copy( mem_result, mem_self, sizeof( AST ) );
 
 	result->Parent = NullCode;
+	result->Prev   = NullCode;
+	result->Next   = NullCode;
+
+	// The rest of a list of parameters is part of it
+	if ( self->Type == CT_Parameters || self->Type == CT_Parameters_Define )
+	{
+		Code next = self->Next;
+		s32  left = self->NumEntries - 1;
+
+		result->Last       = NullCode;
+		result->NumEntries = self->NumEntries > 1 ? 1 : self->NumEntries;
+		while ( left-- > 0 && next )
+		{
+			params_append( cast(CodeParams, result), cast(CodeParams, code_duplicate(next)) );
+			next = next->Next;
+		}
+	}
 	return result;
 }
 
-- 
2.43.0


From 64edbe713b873d181628ba97b0115f448977ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 132/256] fix: appending a list of parameters to another
 appends each of them once

---
 base/components/inlines.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index f1da913..b96e5dc 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -508,22 +508,39 @@ void params_append( CodeParams appendee, CodeParams other )
 	Code self  = cast(Code, appendee);
 	Code entry = cast(Code, other);
 
-	if ( entry->Parent != nullptr )
+	if ( entry->Parent != nullptr || entry->NumEntries > 1 )
 		entry = code_duplicate( entry );
 
+	// The entries of a list are appended one by one
+	Code rest = entry->NumEntries > 1 ? entry->Next : NullCode;
+	if ( rest != nullptr )
+	{
+		entry->Next       = NullCode;
+		entry->Last       = NullCode;
+		entry->NumEntries = 1;
+	}
 	entry->Parent = self;
 
 	if ( self->Last == nullptr )
 	{
 		self->Last = entry;
 		self->Next = entry;
-		self->NumEntries++;
-		return;
 	}
-
-	self->Last->Next = entry;
-	self->Last       = entry;
+	else
+	{
+		self->Last->Next = entry;
+		self->Last       = entry;
+	}
 	self->NumEntries++;
+
+	while ( rest != nullptr )
+	{
+		Code next    = rest->Next;
+		rest->Next   = NullCode;
+		rest->Parent = NullCode;
+		params_append( appendee, cast(CodeParams, rest) );
+		rest = next;
+	}
 }
 inline
 CodeParams params_get(CodeParams self, s32 idx )
-- 
2.43.0


From e6c6b86c100f6bf928e182fb64f9c1f030a1c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 133/256] fix: adding an interface does not change the types of
 other classes

---
 base/components/inlines.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index b96e5dc..e3226ac 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -475,6 +475,9 @@ void class_add_interface( CodeClass self, CodeTypename type )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(type);
+	// The list of interfaces links the types, they may be used elsewhere.
+	type = cast(CodeTypename, code_duplicate( cast(Code, type) ));
+
 	CodeTypename possible_slot = self->ParentType;
 	if ( possible_slot == nullptr )
 	{
@@ -482,6 +485,11 @@ void class_add_interface( CodeClass self, CodeTypename type )
 		self->ParentAccess = AccessSpec_Public;
 		return;
 	}
+	if ( possible_slot->Next == nullptr )
+	{
+		possible_slot    = cast(CodeTypename, code_duplicate( cast(Code, possible_slot) ));
+		self->ParentType = possible_slot;
+	}
 
 	// Were adding an interface to parent type, so we need to make sure the parent type is public if its access was not specified.
 	if ( self->ParentAccess == AccessSpec_Default )
@@ -716,6 +724,9 @@ Specifier* next_CodeSpecifiers(CodeSpecifiers self, Specifier* spec_iter)
 inline
 void struct_add_interface(CodeStruct self, CodeTypename type )
 {
+	// The list of interfaces links the types, they may be used elsewhere.
+	type = cast(CodeTypename, code_duplicate( cast(Code, type) ));
+
 	CodeTypename possible_slot = self->ParentType;
 	if ( possible_slot == nullptr )
 	{
@@ -723,6 +734,11 @@ void struct_add_interface(CodeStruct self, CodeTypename type )
 		self->ParentAccess = AccessSpec_Public;
 		return;
 	}
+	if ( possible_slot->Next == nullptr )
+	{
+		possible_slot    = cast(CodeTypename, code_duplicate( cast(Code, possible_slot) ));
+		self->ParentType = possible_slot;
+	}
 
 	// Were adding an interface to parent type, so we need to make sure the parent type is public if its access was not specified.
 	if ( self->ParentAccess == AccessSpec_Default )
-- 
2.43.0


From ee1785e027f62ba646f247e63ec920518e221055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 134/256] fix: a type defined in a typedef ends with the
 typedef's name

---
 base/components/interface.upfront.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index d1915c4..a56ee0f 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1181,6 +1181,26 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	result                 = (CodeTypedef) make_code();
 	result->Type           = CT_Typedef;
 	result->ModuleFlags    = p.mflags;
+	switch ( type->Type )
+	{
+		// Definitions are ended by the typedef they are a part of.
+		case CT_Class:
+		case CT_Class_Fwd:
+		case CT_Enum:
+		case CT_Enum_Fwd:
+		case CT_Enum_Class:
+		case CT_Enum_Class_Fwd:
+		case CT_Struct:
+		case CT_Struct_Fwd:
+		case CT_Union:
+			if ( type->Parent != nullptr )
+				type = code_duplicate( type );
+			type->Parent = cast(Code, result);
+		break;
+
+		default:
+		break;
+	}
 	result->UnderlyingType = type;
 
 	if ( name.Len <= 0  )
-- 
2.43.0


From d8e832ed560b9fff1819f81fa58bd86b8c3da7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 135/256] fix: bodies made from an array are of the kind asked
 for

---
 base/components/interface.upfront.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index a56ee0f..df0d9c3 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1392,7 +1392,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Function_Body;
+	result->Type = CT_Class_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1849,7 +1849,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Global_Body;
+	result->Type = CT_Namespace_Body;
 	do
 	{
 		Code entry = *codes;
-- 
2.43.0


From 7dd206ae2917a49e8ccdf0f9b37859379fb81cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 136/256] fix: a unary sign operator takes its return type as
 parameter

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index df0d9c3..be5c0a9 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -172,7 +172,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					return OpValResult_Fail;
 				}
 
-				if ( code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
+				if ( ! code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
 				{
 					log_failure("gen::def_operator: "
 						"operator %S is non-member symbol yet first paramter does not equal return type\n"
-- 
2.43.0


From dcbe08b6ef5e5b8c8397de5bfe9cf87e3994685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 137/256] fix: postfix operators of two parameters are accepted

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index be5c0a9..6168cc4 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -139,7 +139,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					case 2:
 						check_param_eq_ret();
 
-						if ( ! code_is_equal((Code)params_get(params_code, 1), (Code)t_int ) )
+						if ( ! code_is_equal((Code)params_code->Next->ValueType, (Code)t_int ) )
 						{
 							log_failure("gen::def_operator: "
 								"operator %S requires second parameter of non-member definition to be int for post-decrement",
-- 
2.43.0


From 7540b32c66ac7a4659730369383662c631b836c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 138/256] fix: #if and #ifndef end their line

---
 base/components/inlines.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index e3226ac..f22ae58 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -201,7 +201,7 @@ void preprocess_to_strbuilder_if(CodePreprocessCond cond, StrBuilder* result )
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#if %S", cond->Content );
+	strbuilder_append_fmt( result, "#if %S\n", cond->Content );
 }
 
 inline
@@ -217,7 +217,7 @@ void preprocess_to_strbuilder_ifndef(CodePreprocessCond cond, StrBuilder* result
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#ifndef %S", cond->Content );
+	strbuilder_append_fmt( result, "#ifndef %S\n", cond->Content );
 }
 
 inline
-- 
2.43.0


From 98df9c68ad4669e871a5b7ec1d9e81324190c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 139/256] fix: a friend declaration of a class ends once

---
 base/components/inlines.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index f22ae58..66e9bab 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -111,9 +111,11 @@ void friend_to_strbuilder_ref(CodeFriend self, StrBuilder* result )
 	GEN_ASSERT(result);
 	strbuilder_append_fmt( result, "friend %SB", code_to_strbuilder(self->Declaration) );
 
-	// Functions and operators write the end of their declaration themselves
+	// These write the end of their declaration themselves
 	bool ends_itself = self->Declaration->Type == CT_Function || self->Declaration->Type == CT_Function_Fwd
-		|| self->Declaration->Type == CT_Operator || self->Declaration->Type == CT_Operator_Fwd;
+		|| self->Declaration->Type == CT_Operator || self->Declaration->Type == CT_Operator_Fwd
+		|| self->Declaration->Type == CT_Class    || self->Declaration->Type == CT_Class_Fwd
+		|| self->Declaration->Type == CT_Struct   || self->Declaration->Type == CT_Struct_Fwd;
 
 	if ( ! ends_itself && (* result)[ strbuilder_length(* result) - 1 ] != ';' )
 	{
-- 
2.43.0


From b41cd23c0e8c1d41a100d5e13556015a5a3cc96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 140/256] fix: member operators are made as members

---
 base/components/interface.upfront.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 6168cc4..b6ad236 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -157,6 +157,8 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						return OpValResult_Fail;
 				}
 			}
+			else
+				is_member_symbol = true;
 			break;
 
 		case Op_Unary_Plus:
@@ -360,8 +362,13 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 
 		case Op_Subscript:
 		case Op_FunctionCall:
+			check_params();
+			is_member_symbol = true;
+			break;
+
 		case Op_Comma:
 			check_params();
+			is_member_symbol = params_code->NumEntries == 1;
 			break;
 
 		case Op_New:
-- 
2.43.0


From 2a38690ab17253718c076e6c371415021338b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 141/256] fix: member functions can be declared in the bodies
 of classes

---
 base/components/ast_case_macros.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/base/components/ast_case_macros.cpp b/base/components/ast_case_macros.cpp
index f7f66c2..7016cd5 100644
--- a/base/components/ast_case_macros.cpp
+++ b/base/components/ast_case_macros.cpp
@@ -6,7 +6,6 @@
 	case CT_Enum_Body:                           \
 	case CT_Extern_Linkage:                      \
 	case CT_Function_Body:                       \
-	case CT_Function_Fwd:                        \
 	case CT_Global_Body:                         \
 	case CT_Namespace:                           \
 	case CT_Namespace_Body:                      \
-- 
2.43.0


From 8a74fc0bc69e5e1bac4887cc7f2889a278bcd48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 142/256] fix: describing an entry names the entry after it

---
 base/components/ast.cpp | 46 ++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 3ce8d03..09dc9d9 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -29,7 +29,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Untyped:
@@ -46,7 +46,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tContent: %S", self->Content );
 		break;
@@ -61,7 +61,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -75,7 +75,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -87,7 +87,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -100,7 +100,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -112,7 +112,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
@@ -127,7 +127,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -140,7 +140,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -152,7 +152,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tBody: %S", self->Body ? code_debug_str(self->Body) : txt("Null") );
 		break;
@@ -161,7 +161,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt  : %S", self->InlineCmt   ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -171,7 +171,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -185,7 +185,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -198,7 +198,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Operator:
@@ -206,7 +206,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -222,7 +222,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -236,7 +236,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -248,7 +248,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -289,7 +289,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tParams     : %S", self->Params      ? strbuilder_to_str( code_to_strbuilder(self->Params))      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -299,7 +299,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tUnderlyingType: %S", self->UnderlyingType ? strbuilder_to_str( code_to_strbuilder(self->UnderlyingType)) : txt("Null") );
@@ -317,7 +317,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                                : txt("Null") );
@@ -327,7 +327,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes    : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )     : txt("Null") );
@@ -349,7 +349,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt    ? self->InlineCmt->Content                                    : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes   ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )   : txt("Null") );
-- 
2.43.0


From 255bf6b3c135f1fc728f630119fb10a57c5646e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 143/256] fix: nodes of every kind can be described

---
 base/components/ast.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 09dc9d9..9260ae0 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -52,8 +52,13 @@ Str code_debug_str(Code self)
 		break;
 
 		case CT_Preprocess_Define:
-			// TODO(ED): Needs implementaton
-			log_failure("code_debug_str: NOT IMPLEMENTED for CT_Preprocess_Define");
+			if ( self->Prev )
+				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+			if ( self->Next )
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
+
+			strbuilder_append_fmt( result, "\n\tParams: %S", self->Params ? strbuilder_to_str( code_to_strbuilder(self->Params) ) : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tBody  : %S", self->Body   ? strbuilder_to_str( code_to_strbuilder(self->Body) )   : txt("Null") );
 		break;
 
 		case CT_Class:
@@ -257,15 +262,16 @@ Str code_debug_str(Code self)
 
 		case CT_Parameters:
 			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
-			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last->Name );
-			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next->Name );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValue     : %S", self->Value     ? strbuilder_to_str( code_to_strbuilder(self->Value))     : txt("Null") );
 		break;
 
 		case CT_Parameters_Define:
-			// TODO(ED): Needs implementaton
-			log_failure("code_debug_str: NOT IMPLEMENTED for CT_Parameters_Define");
+			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Specifiers:
-- 
2.43.0


From 40f9fc8652071ec65232801f4904d55257ee2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 144/256] fix: an operator without return type is refused
 instead of dereferencing null

---
 base/components/interface.upfront.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index b6ad236..1c5eb04 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -51,6 +51,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	if ( ! ret_type )
 	{
 		log_failure("gen::def_operator: ret_type is null but is required by operator %S", operator_to_str(op));
+		return OpValResult_Fail;
 	}
 
 	if ( ret_type->Type != CT_Typename )
-- 
2.43.0


From 8a24542e16d1b163913c6b87d64596512fa6f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 145/256] fix: operators whose parameters are not parameters
 are refused

---
 base/components/interface.upfront.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 1c5eb04..5f85f6c 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -63,6 +63,15 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		return OpValResult_Fail;
 	}
 
+	if ( params_code && params_code->Type != CT_Parameters )
+	{
+		log_failure("gen::def_operator: operator %S - params is not of Parameters type - %S",
+			operator_to_str(op),
+			code_debug_str(cast(Code, params_code))
+		);
+		return OpValResult_Fail;
+	}
+
 	bool is_member_symbol = false;
 
 	switch ( op )
-- 
2.43.0


From 99229175fba893251161d19e353cf0fc9e335e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 146/256] fix: arguments of the wrong kind are refused by every
 construct that takes them

---
 base/components/interface.upfront.cpp | 68 +++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 5f85f6c..d988682 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -419,6 +419,24 @@ bool null__check( char const* context, char const* code_id, Code code ) {
 }
 #define null_check( context, code ) null__check( #context, #code, cast(Code, code) )
 
+internal neverinline
+bool interfaces__check( char const* context, CodeTypename* interfaces, s32 num_interfaces )
+{
+	for ( s32 idx = 0; idx < num_interfaces; idx++ )
+	{
+		if ( interfaces == nullptr || ! interfaces[idx] ) {
+			log_failure( "gen::%s: interface %d provided is null", context, idx );
+			return false;
+		}
+		if ( interfaces[idx]->Type != CT_Typename ) {
+			log_failure( "gen::%s: interface %d is not a Typename: %S", context, idx, code_debug_str(cast(Code, interfaces[idx])) );
+			return false;
+		}
+	}
+	return true;
+}
+#define interfaces_check( context, opts ) interfaces__check( #context, opts.interfaces, opts.num_interfaces )
+
 /*
 The implementation of the upfront constructors involves doing three things:
 * Validate the arguments given to construct the intended type of AST is valid.
@@ -492,6 +510,12 @@ CodeConstructor def_constructor( Opts_def_constructor p )
 		return InvalidCode;
 	}
 
+	if ( p.initializer_list && p.initializer_list->Type != CT_Untyped ) {
+		log_failure("gen::def_constructor: initializer_list must be of Untyped type - %S", code_debug_str(p.initializer_list));
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeConstructor result = (CodeConstructor) make_code();
 	if ( p.params ) {
 		result->Params = p.params;
@@ -538,6 +562,16 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_class: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+	if ( ! interfaces_check( def_class, p ) ) {
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeClass
 	result               = (CodeClass) make_code();
 	result->Name         = cache_str( name );
@@ -578,6 +612,11 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.params && p.params->Type != CT_Parameters_Define ) {
+		log_failure( "gen::def_define: params was not a 'Parameters_Define' type: %S", code_debug_str(p.params) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	CodeDefine
 	result          = (CodeDefine) make_code();
 	result->Type    = CT_Preprocess_Define;
@@ -647,6 +686,12 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 		return InvalidCode;
 	}
 
+	if ( p.type_macro && p.type_macro->Type != CT_Untyped ) {
+		log_failure( "gen::def_enum: type_macro was not a 'Untyped' type: %S", code_debug_str(p.type_macro) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeEnum
 	result              = (CodeEnum) make_code();
 	result->Name        = cache_str( name );
@@ -949,6 +994,12 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		return InvalidCode;
 	}
 
+	if ( p.specs && p.specs->Type != CT_Specifiers ) {
+		log_failure( "gen::def_operator_cast: specs is not of specifiers type - %S", code_debug_str(p.specs) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeOpCast result = (CodeOpCast) make_code();
 	if (p.body)
 	{
@@ -1063,6 +1114,16 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_struct: specifiers was not a `Specifiers` type - %S", code_debug_str(p.specifiers) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+	if ( ! interfaces_check( def_struct, p ) ) {
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeStruct
 	result              = (CodeStruct) make_code();
 	result->ModuleFlags = p.mflags;
@@ -1272,6 +1333,12 @@ CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 		return InvalidCode;
 	}
 
+	if ( type->Type != CT_Typename ) {
+		log_failure( "gen::def_using: type is not a typename - %S", code_debug_str(type) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeTypename register_type = def_type( name );
 	if ( ! register_type ) {
 		log_failure( "gen::def_using: failed to register type" );
@@ -2123,6 +2190,7 @@ CodeBody def_union_body_arr( s32 num, Code* codes )
 
 #	undef name_check
 #	undef null_check
+#	undef interfaces_check
 #	undef def_body_start
 #	undef def_body_code_array_start
 
-- 
2.43.0


From 3bf8d16a231ce1633070943a1b1a2e678a30e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 147/256] fix: templates of declarations that can not be
 templates are refused

---
 base/components/interface.upfront.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index d988682..aba3819 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1171,6 +1171,8 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 
 		default:
 			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %S", code_debug_str(declaration) );
+			GEN_DEBUG_TRAP();
+			return InvalidCode;
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
-- 
2.43.0


From 1b3e227b5d9ad8bf5a1cd435f3a2b87bed6c1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 148/256] fix: preprocessor conditionals of an unknown kind are
 refused

---
 base/components/interface.upfront.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index aba3819..cdfffb7 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1062,7 +1062,12 @@ CodePragma def_pragma( Str directive )
 CodePreprocessCond def_preprocess_cond( EPreprocessCond type, Str expr )
 {
 	if ( expr.Len <= 0 || expr.Ptr == nullptr ) {
-		log_failure( "gen::def_comment: Invalid comment provided:" );
+		log_failure( "gen::def_preprocess_cond: Invalid expression provided" );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+	if ( type > PreprocessCond_ElIf ) {
+		log_failure( "gen::def_preprocess_cond: Invalid conditional type provided - %d", type );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-- 
2.43.0


From ccf78c255933489d2dd72959dcbeabd1b63a6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 149/256] fix: a typedef without a name is refused

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index cdfffb7..00990ec 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1256,7 +1256,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 
 	// Registering the type.
 	CodeTypename registered_type = def_type( name );
-	if ( ! registered_type ) {
+	if ( cast(Code, registered_type) == Code_Invalid ) {
 		log_failure( "gen::def_typedef: failed to register type" );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
-- 
2.43.0


From 501d32060bf8d4e57f7efcb6ab52a398cbffb5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 150/256] fix: parameters that are null are refused instead of
 dereferencing null

---
 base/components/interface.upfront.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 00990ec..f15ad0b 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1518,7 +1518,9 @@ CodeDefineParams def_define_params( s32 num, ... )
 	Code_POD         pod   = va_arg(va, Code_POD);
 	CodeDefineParams param = pcast( CodeDefineParams, pod );
 
-	null_check( def_define_params, param );
+	if ( ! null_check( def_define_params, param ) )
+		return InvalidCode;
+
 	if ( param->Type != CT_Parameters_Define ) {
 		log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 		return InvalidCode;
@@ -1529,6 +1531,9 @@ CodeDefineParams def_define_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeDefineParams, pod );
+		if ( ! null_check( def_define_params, param ) )
+			return InvalidCode;
+
 		if ( param->Type != CT_Parameters_Define ) {
 			log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 			return InvalidCode;
@@ -1974,7 +1979,9 @@ CodeParams def_params( s32 num, ... )
 	Code_POD  pod   = va_arg(va, Code_POD);
 	CodeParams param = pcast( CodeParams, pod );
 
-	null_check( def_params, param );
+	if ( ! null_check( def_params, param ) )
+		return InvalidCode;
+
 	if ( param->Type != CT_Parameters ) {
 		log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 		return InvalidCode;
@@ -1985,6 +1992,9 @@ CodeParams def_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeParams, pod );
+		if ( ! null_check( def_params, param ) )
+			return InvalidCode;
+
 		if ( param->Type != CT_Parameters ) {
 			log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 			return InvalidCode;
-- 
2.43.0


From d8e884590b27aaa701028823a312c20368aef223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 151/256] fix: invalid specifiers are refused

---
 base/components/inlines.hpp           |  5 +++++
 base/components/interface.upfront.cpp | 13 ++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 66e9bab..164159c 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -637,6 +637,11 @@ bool specifiers_append(CodeSpecifiers self, Specifier spec )
 		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
 		return false;
 	}
+	if ( spec <= Spec_Invalid || spec >= Spec_NumSpecifiers )
+	{
+		log_failure("CodeSpecifiers: Attempted to append an invalid specifier (%d) to a specifiers AST!", (s32)spec );
+		return false;
+	}
 
 	self->ArrSpecs[ self->NumEntries ] = spec;
 	self->NumEntries++;
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index f15ad0b..8348fb8 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1097,7 +1097,9 @@ CodeSpecifiers def_specifier( Specifier spec )
 	CodeSpecifiers
 	result       = (CodeSpecifiers) make_code();
 	result->Type = CT_Specifiers;
-	specifiers_append(result, spec );
+	if ( ! specifiers_append(result, spec ) )
+		return InvalidCode;
+
 	return result;
 }
 
@@ -2052,7 +2054,10 @@ CodeSpecifiers def_specifiers( s32 num, ... )
 	va_start(va, num);
 	do {
 		Specifier type = (Specifier)va_arg(va, int);
-		specifiers_append(result, type );
+		if ( ! specifiers_append(result, type ) ) {
+			va_end(va);
+			return InvalidCode;
+		}
 	}
 	while ( --num, num );
 	va_end(va);
@@ -2076,7 +2081,9 @@ CodeSpecifiers def_specifiers_arr( s32 num, Specifier* specs )
 
 	s32 idx = 0;
 	do {
-		specifiers_append(result, specs[idx] );
+		if ( ! specifiers_append(result, specs[idx] ) )
+			return InvalidCode;
+
 		idx++;
 	}
 	while ( --num, num );
-- 
2.43.0


From bc5f9f246fba98acb3e4fe7e71d913ad43775bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 152/256] fix: a body for external linkage can be made empty

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 164159c..82cc4f3 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -771,7 +771,7 @@ CodeBody def_body( CodeType type )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
-- 
2.43.0


From 69871e84d648cf0400b9ef3e928d66cd0e598e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 153/256] fix: a refused body leaves the entries as they were

---
 base/components/interface.upfront.cpp | 599 ++++++++++++--------------
 1 file changed, 279 insertions(+), 320 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 8348fb8..275e742 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1443,37 +1443,109 @@ if ( codes == nullptr )                                                        \
 
 #pragma endregion Helper Macros for def_**_body functions
 
+internal neverinline
+bool body_entry__check( char const* context, CodeType body_type, Code entry )
+{
+	if ( ! entry ) {
+		log_failure( "gen::%s: Provided a null entry", context );
+		return false;
+	}
+
+	b32 allowed = true;
+	switch ( body_type )
+	{
+		case CT_Class_Body:
+		case CT_Struct_Body:
+			switch ( entry->Type )
+			{
+				GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
+					allowed = false;
+				break;
+
+				default:
+				break;
+			}
+		break;
+
+		case CT_Function_Body:
+			switch ( entry->Type )
+			{
+				GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
+					allowed = false;
+				break;
+
+				default:
+				break;
+			}
+		break;
+
+		case CT_Enum_Body:
+		case CT_Union_Body:
+			allowed = entry->Type == CT_Untyped || entry->Type == CT_Comment;
+		break;
+
+		case CT_Namespace_Body:
+			switch ( entry->Type )
+			{
+				GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
+					allowed = false;
+				break;
+
+				default:
+				break;
+			}
+		break;
+
+		// Export, extern linkage and global bodies
+		default:
+			switch ( entry->Type )
+			{
+				GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
+					allowed = false;
+				break;
+
+				default:
+				break;
+			}
+		break;
+	}
+	if ( ! allowed ) {
+		log_failure( "gen::%s: Entry type is not allowed: %S", context, code_debug_str(entry) );
+		return false;
+	}
+	return true;
+}
+#define body_entry_check( context, body_type, entry ) body_entry__check( #context, body_type, entry )
+
 CodeBody def_class_body( s32 num, ... )
 {
 	def_body_start( def_class_body );
 
-	CodeBody result = ( CodeBody )make_code();
-	result->Type    = CT_Class_Body;
-
+	// All entries are checked before the first one is taken.
 	va_list va;
-	va_start( va, num );
-	do
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
 		Code_POD pod   = va_arg(va, Code_POD);
 		Code     entry = pcast(Code, pod);
-		if ( ! entry) {
-			log_failure("gen::"
-						"def_class_body"
-						": Provided an null entry");
+		if ( ! body_entry_check( def_class_body, CT_Class_Body, entry ) ) {
+			va_end(va);
 			return InvalidCode;
 		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
+	}
+	va_end(va);
 
-			default:
-			break;
-		}
+	CodeBody
+	result       = (CodeBody) make_code();
+	result->Type = CT_Class_Body;
+
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
 		body_append(result, entry);
 	}
-	while (num--, num > 0);
 	va_end(va);
 
 	return result;
@@ -1483,29 +1555,16 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_class_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_class_body, CT_Class_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Class_Body;
-	do
-	{
-		Code entry = *codes;
-		codes++;
-		if ( ! entry) {
-			log_failure("gen::" "def_class_body" ": Provided an null entry");
-			return InvalidCode;
-		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
-
-			default:
-			break;
-		}
-		body_append(result, entry);
-	}
-	while (num--, num > 0);
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
 	return result;
 }
@@ -1579,53 +1638,50 @@ CodeBody def_enum_body( s32 num, ... )
 {
 	def_body_start( def_enum_body );
 
+	// All entries are checked before the first one is taken.
+	va_list va;
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
+		if ( ! body_entry_check( def_enum_body, CT_Enum_Body, entry ) ) {
+			va_end(va);
+			return InvalidCode;
+		}
+	}
+	va_end(va);
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Enum_Body;
 
-	va_list va;
 	va_start(va, num);
-	do
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
 		Code_POD pod   = va_arg(va, Code_POD);
 		Code     entry = pcast(Code, pod);
-		if ( ! entry ) {
-			log_failure("gen::def_enum_body: Provided a null entry");
-			return InvalidCode;
-		}
-		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
-			return InvalidCode;
-		}
-		body_append(result, entry );
+		body_append(result, entry);
 	}
-	while ( num--, num > 0 );
 	va_end(va);
 
-	return (CodeBody) result;
+	return result;
 }
 
 CodeBody def_enum_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_enum_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_enum_body, CT_Enum_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Enum_Body;
-	do
-	{
-		Code entry = *codes;
-		if ( ! entry ) {
-			log_failure("gen::def_enum_body: Provided a null entry");
-			return InvalidCode;
-		}
-		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed: %S", code_debug_str(entry) );
-			return InvalidCode;
-		}
-		body_append(result, entry );
-	}
-	while ( codes++, num--, num > 0 );
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
 	return result;
 }
@@ -1634,33 +1690,31 @@ CodeBody def_export_body( s32 num, ... )
 {
 	def_body_start( def_export_body );
 
-	CodeBody
-	result       = (CodeBody) make_code();
-	result->Type = CT_Export_Body;
-
+	// All entries are checked before the first one is taken.
 	va_list va;
 	va_start(va, num);
-	do
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
-		Code_POD pod = va_arg(va, Code_POD);
+		Code_POD pod   = va_arg(va, Code_POD);
 		Code     entry = pcast(Code, pod);
-		if ( ! entry)
-		{
-			log_failure("gen::" "def_export_body" ": Provided an null entry");
+		if ( ! body_entry_check( def_export_body, CT_Export_Body, entry ) ) {
+			va_end(va);
 			return InvalidCode;
 		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
+	}
+	va_end(va);
 
-			default:
-			break;
-		}
+	CodeBody
+	result       = (CodeBody) make_code();
+	result->Type = CT_Export_Body;
+
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
 		body_append(result, entry);
 	}
-	while (num--, num > 0);
 	va_end(va);
 
 	return result;
@@ -1670,29 +1724,16 @@ CodeBody def_export_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_export_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_export_body, CT_Export_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Export_Body;
-	do
-	{
-		Code entry = *codes;
-		codes++;
-		if ( ! entry) {
-			log_failure("gen::" "def_export_body" ": Provided an null entry");
-			return InvalidCode;
-		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
-
-			default:
-			break;
-		}
-		body_append(result, entry);
-	}
-	while (num--, num > 0);
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
 	return result;
 }
@@ -1701,32 +1742,31 @@ CodeBody def_extern_link_body( s32 num, ... )
 {
 	def_body_start( def_extern_linkage_body );
 
-	CodeBody
-	result       = (CodeBody) make_code();
-	result->Type = CT_Extern_Linkage_Body;
-
+	// All entries are checked before the first one is taken.
 	va_list va;
 	va_start(va, num);
-	do
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
 		Code_POD pod   = va_arg(va, Code_POD);
 		Code     entry = pcast(Code, pod);
-		if ( ! entry) {
-			log_failure("gen::" "def_extern_linkage_body" ": Provided an null entry");
+		if ( ! body_entry_check( def_extern_linkage_body, CT_Extern_Linkage_Body, entry ) ) {
+			va_end(va);
 			return InvalidCode;
 		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
+	}
+	va_end(va);
 
-			default:
-			break;
-		}
+	CodeBody
+	result       = (CodeBody) make_code();
+	result->Type = CT_Extern_Linkage_Body;
+
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
 		body_append(result, entry);
 	}
-	while (num--, num > 0);
 	va_end(va);
 
 	return result;
@@ -1736,30 +1776,16 @@ CodeBody def_extern_link_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_extern_linkage_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_extern_linkage_body, CT_Extern_Linkage_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Extern_Linkage_Body;
-	do
-	{
-		Code entry = *codes;
-		codes++;
-		if (!entry)
-		{
-			log_failure("gen::" "def_extern_linkage_body" ": Provided an null entry");
-			return InvalidCode;
-		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
-
-			default:
-			break;
-		}
-		body_append(result, entry);
-	}
-	while (num--, num > 0);
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
 	return result;
 }
@@ -1768,32 +1794,31 @@ CodeBody def_function_body( s32 num, ... )
 {
 	def_body_start( def_function_body );
 
-	CodeBody
-	result       = (CodeBody) make_code();
-	result->Type = CT_Function_Body;
-
+	// All entries are checked before the first one is taken.
 	va_list va;
 	va_start(va, num);
-	do
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
 		Code_POD pod   = va_arg(va, Code_POD);
 		Code     entry = pcast(Code, pod);
-		if ( ! entry) {
-			log_failure("gen::" stringize(def_function_body) ": Provided an null entry");
+		if ( ! body_entry_check( def_function_body, CT_Function_Body, entry ) ) {
+			va_end(va);
 			return InvalidCode;
 		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
+	}
+	va_end(va);
 
-			default:
-			break;
-		}
+	CodeBody
+	result       = (CodeBody) make_code();
+	result->Type = CT_Function_Body;
+
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
 		body_append(result, entry);
 	}
-	while (num--, num > 0);
 	va_end(va);
 
 	return result;
@@ -1803,29 +1828,16 @@ CodeBody def_function_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_function_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_function_body, CT_Function_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Function_Body;
-	do
-	{
-		Code entry = *codes;
-		codes++;
-		if (!entry) {
-			log_failure("gen::" "def_function_body" ": Provided an null entry");
-			return InvalidCode;
-		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
-
-			default:
-			break;
-		}
-		body_append(result, entry);
-	}
-	while (num--, num > 0);
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
 	return result;
 }
@@ -1834,37 +1846,31 @@ CodeBody def_global_body( s32 num, ... )
 {
 	def_body_start( def_global_body );
 
-	CodeBody
-	result       = (CodeBody) make_code();
-	result->Type = CT_Global_Body;
-
+	// All entries are checked before the first one is taken.
 	va_list va;
 	va_start(va, num);
-	do
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
 		Code_POD pod   = va_arg(va, Code_POD);
 		Code     entry = pcast(Code, pod);
-		if ( ! entry) {
-			log_failure("gen::" "def_global_body" ": Provided an null entry");
+		if ( ! body_entry_check( def_global_body, CT_Global_Body, entry ) ) {
+			va_end(va);
 			return InvalidCode;
 		}
-		switch (entry->Type)
-		{
-			case CT_Global_Body:
-				// result.body_append( entry.code_cast<CodeBody>() ) ;
-				body_append_body( result, cast(CodeBody, entry) );
-				continue;
+	}
+	va_end(va);
 
-			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
+	CodeBody
+	result       = (CodeBody) make_code();
+	result->Type = CT_Global_Body;
 
-			default:
-			break;
-		}
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
 		body_append(result, entry);
 	}
-	while (num--, num > 0);
 	va_end(va);
 
 	return result;
@@ -1874,34 +1880,16 @@ CodeBody def_global_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_global_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_global_body, CT_Global_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Global_Body;
-	do
-	{
-		Code entry = *codes;
-		codes++;
-		if ( ! entry) {
-			log_failure("gen::" "def_global_body" ": Provided an null entry");
-			return InvalidCode;
-		}
-		switch (entry->Type)
-		{
-			case CT_Global_Body:
-				body_append_body(result, cast(CodeBody, entry) );
-				continue;
-
-			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
-
-			default:
-			break;
-		}
-
-		body_append(result, entry);
-	}
-	while (num--, num > 0);
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
 	return result;
 }
@@ -1910,32 +1898,31 @@ CodeBody def_namespace_body( s32 num, ... )
 {
 	def_body_start( def_namespace_body );
 
-	CodeBody
-	result       = (CodeBody) make_code();
-	result->Type = CT_Namespace_Body;
-
+	// All entries are checked before the first one is taken.
 	va_list va;
 	va_start(va, num);
-	do
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
 		Code_POD pod   = va_arg(va, Code_POD);
 		Code     entry = pcast(Code, pod);
-		if ( ! entry) {
-			log_failure("gen::" "def_namespace_body" ": Provided an null entry");
+		if ( ! body_entry_check( def_namespace_body, CT_Namespace_Body, entry ) ) {
+			va_end(va);
 			return InvalidCode;
 		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
+	}
+	va_end(va);
 
-			default:
-			break;
-		}
+	CodeBody
+	result       = (CodeBody) make_code();
+	result->Type = CT_Namespace_Body;
+
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
 		body_append(result, entry);
 	}
-	while (num--, num > 0);
 	va_end(va);
 
 	return result;
@@ -1945,28 +1932,16 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_namespace_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_namespace_body, CT_Namespace_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Namespace_Body;
-	do
-	{
-		Code entry = *codes;
-		codes++;
-		if ( ! entry) {
-			log_failure("gen::" "def_namespace_body" ": Provided an null entry");
-			return InvalidCode;
-		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
-				return InvalidCode;
-
-			default: break;
-		}
-		body_append(result, entry);
-	}
-	while (num--, num > 0);
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
 	return result;
 }
@@ -2095,32 +2070,31 @@ CodeBody def_struct_body( s32 num, ... )
 {
 	def_body_start( def_struct_body );
 
-	CodeBody
-	result       = (CodeBody) make_code();
-	result->Type = CT_Struct_Body;
-
+	// All entries are checked before the first one is taken.
 	va_list va;
 	va_start(va, num);
-	do
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
 		Code_POD pod   = va_arg(va, Code_POD);
 		Code     entry = pcast(Code, pod);
-		if ( ! entry) {
-			log_failure("gen::" "def_struct_body" ": Provided an null entry");
+		if ( ! body_entry_check( def_struct_body, CT_Struct_Body, entry ) ) {
+			va_end(va);
 			return InvalidCode;
 		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry));
-				return InvalidCode;
+	}
+	va_end(va);
 
-			default:
-			break;
-		}
+	CodeBody
+	result       = (CodeBody) make_code();
+	result->Type = CT_Struct_Body;
+
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
 		body_append(result, entry);
 	}
-	while (num--, num > 0);
 	va_end(va);
 
 	return result;
@@ -2130,29 +2104,16 @@ CodeBody def_struct_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_struct_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_struct_body, CT_Struct_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Struct_Body;
-	do
-	{
-		Code entry = *codes;
-		codes++;
-		if ( ! entry) {
-			log_failure("gen::" "def_struct_body" ": Provided an null entry");
-			return InvalidCode;
-		}
-		switch (entry->Type)
-		{
-			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
-				return InvalidCode;
-
-			default:
-			break;
-		}
-		body_append(result, entry);
-	}
-	while (num--, num > 0);
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
 	return result;
 }
@@ -2161,27 +2122,31 @@ CodeBody def_union_body( s32 num, ... )
 {
 	def_body_start( def_union_body );
 
+	// All entries are checked before the first one is taken.
+	va_list va;
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD pod   = va_arg(va, Code_POD);
+		Code     entry = pcast(Code, pod);
+		if ( ! body_entry_check( def_union_body, CT_Union_Body, entry ) ) {
+			va_end(va);
+			return InvalidCode;
+		}
+	}
+	va_end(va);
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Union_Body;
 
-	va_list va;
 	va_start(va, num);
-	do
+	for ( s32 idx = 0; idx < num; idx++ )
 	{
 		Code_POD pod   = va_arg(va, Code_POD);
-		Code     entry = pcast( Code, pod );
-		if ( ! entry ) {
-			log_failure("gen::def_union_body: Provided a null entry");
-			return InvalidCode;
-		}
-		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
-			return InvalidCode;
-		}
-		body_append(result, entry );
+		Code     entry = pcast(Code, pod);
+		body_append(result, entry);
 	}
-	while ( num--, num > 0 );
 	va_end(va);
 
 	return result;
@@ -2191,25 +2156,18 @@ CodeBody def_union_body_arr( s32 num, Code* codes )
 {
 	def_body_code_array_start( def_union_body );
 
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		if ( ! body_entry_check( def_union_body, CT_Union_Body, codes[idx] ) )
+			return InvalidCode;
+	}
+
 	CodeBody
 	result       = (CodeBody) make_code();
 	result->Type = CT_Union_Body;
-	do
-	{
-		Code entry = *codes;
-		if ( ! entry ) {
-			log_failure("gen::def_union_body: Provided a null entry");
-			return InvalidCode;
-		}
-		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed: %S", code_debug_str(entry) );
-			return InvalidCode;
-		}
-		body_append(result, entry );
-	}
-	while ( codes++, num--, num > 0 );
+	for ( s32 idx = 0; idx < num; idx++ )
+		body_append( result, codes[idx] );
 
-	return (CodeBody) result;
+	return result;
 }
 
 #	undef name_check
@@ -2217,5 +2175,6 @@ CodeBody def_union_body_arr( s32 num, Code* codes )
 #	undef interfaces_check
 #	undef def_body_start
 #	undef def_body_code_array_start
+#	undef body_entry_check
 
 #pragma endregion Upfront
-- 
2.43.0


From ac0c3b5fbb8a599b3e814dc3e893fc1f8b0631e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 154/256] fix: the invalid code and parameters of defines are
 not taken as entries of a body

---
 base/components/ast_case_macros.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/base/components/ast_case_macros.cpp b/base/components/ast_case_macros.cpp
index 7016cd5..aac91c8 100644
--- a/base/components/ast_case_macros.cpp
+++ b/base/components/ast_case_macros.cpp
@@ -1,6 +1,7 @@
 // These macros are used in the swtich cases within ast.cpp, inteface.upfront.cpp, parser.cpp
 
 #	define GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES    \
+	case CT_Invalid:                             \
 	case CT_PlatformAttributes:                  \
 	case CT_Class_Body:                          \
 	case CT_Enum_Body:                           \
@@ -12,6 +13,7 @@
 	case CT_Operator:                            \
 	case CT_Operator_Fwd:                        \
 	case CT_Parameters:                          \
+	case CT_Parameters_Define:                   \
 	case CT_Specifiers:                          \
 	case CT_Struct_Body:                         \
 	case CT_Typename
@@ -21,6 +23,7 @@
 	case CT_Access_Public:                          \
 	case CT_Access_Protected:                       \
 	case CT_Access_Private:                         \
+	case CT_Invalid:                                \
 	case CT_PlatformAttributes:                     \
 	case CT_Class_Body:                             \
 	case CT_Enum_Body:                              \
@@ -36,6 +39,7 @@
 	case CT_Operator_Member:                        \
 	case CT_Operator_Member_Fwd:                    \
 	case CT_Parameters:                             \
+	case CT_Parameters_Define:                      \
 	case CT_Specifiers:                             \
 	case CT_Struct_Body:                            \
 	case CT_Typename
@@ -44,6 +48,7 @@
 	case CT_Access_Public:                         \
 	case CT_Access_Protected:                      \
 	case CT_Access_Private:                        \
+	case CT_Invalid:                               \
 	case CT_PlatformAttributes:                    \
 	case CT_Class_Body:                            \
 	case CT_Enum_Body:                             \
@@ -54,6 +59,7 @@
 	case CT_Operator_Member:                       \
 	case CT_Operator_Member_Fwd:                   \
 	case CT_Parameters:                            \
+	case CT_Parameters_Define:                     \
 	case CT_Specifiers:                            \
 	case CT_Struct_Body:                           \
 	case CT_Typename
@@ -64,6 +70,7 @@
 	case CT_Access_Public:                        \
 	case CT_Access_Protected:                     \
 	case CT_Access_Private:                       \
+	case CT_Invalid:                              \
 	case CT_PlatformAttributes:                   \
 	case CT_Class_Body:                           \
 	case CT_Enum_Body:                            \
@@ -74,6 +81,7 @@
 	case CT_Operator_Member:                      \
 	case CT_Operator_Member_Fwd:                  \
 	case CT_Parameters:                           \
+	case CT_Parameters_Define:                    \
 	case CT_Specifiers:                           \
 	case CT_Struct_Body:                          \
 	case CT_Typename
-- 
2.43.0


From 6c4088eab025517dfce26e894943b036bbfcd302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 155/256] fix: refused lists of parameters leave the parameters
 as they were

---
 base/components/interface.upfront.cpp | 78 +++++++++++++++------------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 275e742..27d535b 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1573,32 +1573,35 @@ CodeDefineParams def_define_params( s32 num, ... )
 {
 	def_body_start( def_define_params );
 
+	// All parameters are checked before the first one is taken.
 	va_list va;
 	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD  pod   = va_arg(va, Code_POD);
+		CodeDefineParams param = pcast( CodeDefineParams, pod );
+		if ( ! null_check( def_define_params, param ) ) {
+			va_end(va);
+			return InvalidCode;
+		}
+		if ( param->Type != CT_Parameters_Define ) {
+			log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", idx + 1 );
+			va_end(va);
+			return InvalidCode;
+		}
+	}
+	va_end(va);
 
-	Code_POD         pod   = va_arg(va, Code_POD);
-	CodeDefineParams param = pcast( CodeDefineParams, pod );
-
-	if ( ! null_check( def_define_params, param ) )
-		return InvalidCode;
+	va_start(va, num);
 
-	if ( param->Type != CT_Parameters_Define ) {
-		log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
-		return InvalidCode;
-	}
+	Code_POD  pod   = va_arg(va, Code_POD);
+	CodeDefineParams param = pcast( CodeDefineParams, pod );
 
 	CodeDefineParams result = (CodeDefineParams) code_duplicate(param);
 	while ( -- num )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeDefineParams, pod );
-		if ( ! null_check( def_define_params, param ) )
-			return InvalidCode;
-
-		if ( param->Type != CT_Parameters_Define ) {
-			log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
-			return InvalidCode;
-		}
 		define_params_append(result, param );
 	}
 	va_end(va);
@@ -1619,14 +1622,15 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		check_current(codes[idx]);
+	}
 	CodeDefineParams current = * codes;
-	check_current(current);
 
 	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
 	while( num--, num > 0 ) {
 		codes++;
 		current = * codes;
-		check_current(current);
 		define_params_append(result, current );
 	}
 #	undef check_current
@@ -1950,32 +1954,35 @@ CodeParams def_params( s32 num, ... )
 {
 	def_body_start( def_params );
 
+	// All parameters are checked before the first one is taken.
 	va_list va;
+	va_start(va, num);
+	for ( s32 idx = 0; idx < num; idx++ )
+	{
+		Code_POD  pod   = va_arg(va, Code_POD);
+		CodeParams param = pcast( CodeParams, pod );
+		if ( ! null_check( def_params, param ) ) {
+			va_end(va);
+			return InvalidCode;
+		}
+		if ( param->Type != CT_Parameters ) {
+			log_failure( "gen::def_params: param %d is not a Parameters", idx + 1 );
+			va_end(va);
+			return InvalidCode;
+		}
+	}
+	va_end(va);
+
 	va_start(va, num);
 
 	Code_POD  pod   = va_arg(va, Code_POD);
 	CodeParams param = pcast( CodeParams, pod );
 
-	if ( ! null_check( def_params, param ) )
-		return InvalidCode;
-
-	if ( param->Type != CT_Parameters ) {
-		log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
-		return InvalidCode;
-	}
-
 	CodeParams result = (CodeParams) code_duplicate(param);
 	while ( -- num )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeParams, pod );
-		if ( ! null_check( def_params, param ) )
-			return InvalidCode;
-
-		if ( param->Type != CT_Parameters ) {
-			log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
-			return InvalidCode;
-		}
 		params_append(result, param );
 	}
 	va_end(va);
@@ -1996,14 +2003,15 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
+	for ( s32 idx = 0; idx < num; idx++ ) {
+		check_current(codes[idx]);
+	}
 	CodeParams current = * codes;
-	check_current(current);
 
 	CodeParams result = (CodeParams) code_duplicate(current);
 	while( num--, num > 0 ) {
 		codes++;
 		current = * codes;
-		check_current(current);
 		params_append(result, current );
 	}
 #	undef check_current
-- 
2.43.0


From 1356542da985aa67faa70fc4a4bad90da2d3733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 156/256] fix: code whose content differs is not equal

---
 base/components/ast.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 9260ae0..ae7f4e1 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -689,13 +689,7 @@ bool code_is_equal( Code self, Code other )
 			, code_debug_str(other)                                          \
 		);                                                                   \
                                                                              \
-		log_fmt("Content cannot be trusted to be unique with this check "    \
-			"so it must be verified by eye for now\n"                        \
-			"AST   Content:\n%SB\n"                                           \
-			"Other Content:\n%SB\n"                                           \
-			, str_visualize_whitespace(self->content, _ctx->Allocator_Temp)  \
-			, str_visualize_whitespace(other->content, _ctx->Allocator_Temp) \
-		);                                                                   \
+		return false;                                                        \
 	}
 
 	#define check_member_ast( ast )                                                                \
-- 
2.43.0


From 77fdb83df72075c0b58385f6dda1debf27ed704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 157/256] fix: code is not equal to code that has more members

---
 base/components/ast.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index ae7f4e1..f3c8613 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -724,6 +724,17 @@ bool code_is_equal( Code self, Code other )
 		                                                                                           \
 			return false;                                                                          \
 		}                                                                                          \
+	}                                                                                              \
+	else if ( other->ast )                                                                         \
+	{                                                                                              \
+		log_fmt("\nAST::is_equal: Failed for member " #ast " only the other has it\n"              \
+				"AST  : %S\n"                                                                      \
+				"Other: %S\n"                                                                      \
+			, code_debug_str(self)                                                                 \
+			, code_debug_str(other)                                                                \
+		);                                                                                         \
+                                                                                                   \
+		return false;                                                                              \
 	}
 
 		case CT_NewLine:
-- 
2.43.0


From b4591862cbaea16db6aa441b0f8fafeee6f5074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 158/256] fix: lists of parameters are compared entry by entry,
 those of defines as well

---
 base/components/ast.cpp | 117 +++++++++++-----------------------------
 1 file changed, 30 insertions(+), 87 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index f3c8613..fa7b66b 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -944,103 +944,46 @@ bool code_is_equal( Code self, Code other )
 		}
 
 		case CT_Parameters:
+		case CT_Parameters_Define:
 		{
-			if ( self->NumEntries > 1 )
+			s32 left       = max( self->NumEntries,  1 );
+			s32 left_other = max( other->NumEntries, 1 );
+			if ( left != left_other )
 			{
-				Code curr       = self;
-				Code curr_other = other;
-				while ( curr != nullptr  )
-				{
-					if ( curr )
-					{
-						if ( curr_other == nullptr )
-						{
-							log_fmt("\nAST::is_equal: Failed for parameter, other equivalent param is null\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-							);
-
-							return false;
-						}
-
-						if ( str_are_equal(curr->Name, curr_other->Name) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter name check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->ValueType && ! code_is_equal(curr->ValueType, curr_other->ValueType) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value type check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->Value && ! code_is_equal(curr->Value, curr_other->Value) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-					}
-
-					curr       = curr->Next;
-					curr_other = curr_other->Next;
-				}
+				log_fmt("\nAST::is_equal: Failed for parameters, their count differs\n"
+						"AST  : %S\n"
+						"Other: %S\n"
+					, code_debug_str(self)
+					, code_debug_str(other)
+				);
 
-				check_member_val( NumEntries );
-
-				return true;
+				return false;
 			}
 
-			check_member_str( Name );
-			check_member_ast( ValueType );
-			check_member_ast( Value );
-			check_member_ast( ArrExpr );
-
-			return true;
-		}
-
-		case CT_Parameters_Define:
-		{
-			// TODO(ED): Needs implementaton
-			log_failure("code_is_equal: NOT IMPLEMENTED for CT_Parameters_Define");
-			return false;
+			// Compares the entry, then the next ones in the place of it.
+			for (;;)
+			{
+				check_member_str( Name );
+				check_member_ast( ValueType );
+				check_member_ast( Macro );
+				check_member_ast( Value );
+				check_member_ast( PostNameMacro );
+
+				if ( -- left <= 0 )
+					return true;
+
+				self  = self->Next;
+				other = other->Next;
+				if ( self == nullptr || other == nullptr )
+					return self == other;
+			}
 		}
 
 		case CT_Preprocess_Define:
 		{
 			check_member_str( Name );
-			check_member_content( Body->Content );
+			check_member_ast( Params );
+			check_member_ast( Body );
 			return true;
 		}
 
-- 
2.43.0


From 8cceb9f1b5c99f95e3c65a993373002514b4c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 159/256] fix: every member of a declaration is compared

---
 base/components/ast.cpp | 47 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index fa7b66b..c93f3c9 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -737,6 +737,22 @@ bool code_is_equal( Code self, Code other )
 		return false;                                                                              \
 	}
 
+	// The entries of a list that links them
+	#define check_list_ast( ast )                      \
+	{                                                  \
+		Code curr       = self->ast;                   \
+		Code curr_other = other->ast;                  \
+		while ( curr && curr_other )                   \
+		{                                              \
+			if ( ! code_is_equal( curr, curr_other ) ) \
+				return false;                          \
+			curr       = curr->Next;                   \
+			curr_other = curr_other->Next;             \
+		}                                              \
+		if ( curr || curr_other )                      \
+			return false;                              \
+	}
+
 		case CT_NewLine:
 		case CT_Access_Public:
 		case CT_Access_Protected:
@@ -761,10 +777,14 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Fwd:
 		case CT_Struct_Fwd:
 		{
+			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( ParentType );
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
+			check_member_ast( Specs );
+			if ( self->ParentType )
+				check_list_ast( ParentType->Next );
 
 			return true;
 		}
@@ -777,6 +797,9 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( ParentType );
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
+			check_member_ast( Specs );
+			if ( self->ParentType )
+				check_list_ast( ParentType->Next );
 			check_member_ast( Body );
 
 			return true;
@@ -784,6 +807,8 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor:
 		{
+			check_member_str( Name );
+			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
 			check_member_ast( Body );
@@ -793,14 +818,18 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor_Fwd:
 		{
+			check_member_str( Name );
+			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
+			check_member_ast( Body );
 
 			return true;
 		}
 
 		case CT_Destructor:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
 			check_member_ast( Body );
 
@@ -809,7 +838,9 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Destructor_Fwd:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
+			check_member_ast( Body );
 
 			return true;
 		}
@@ -863,6 +894,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
 			check_member_ast( Body );
 
 			return true;
@@ -876,6 +908,8 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( Body );
+			check_member_ast( SuffixSpecs );
 
 			return true;
 		}
@@ -901,6 +935,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Member:
 		{
 			check_member_val( ModuleFlags );
+			check_member_val( Op );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
 			check_member_ast( Attributes );
@@ -915,6 +950,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Member_Fwd:
 		{
 			check_member_val( ModuleFlags );
+			check_member_val( Op );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
 			check_member_ast( Attributes );
@@ -1039,8 +1075,13 @@ bool code_is_equal( Code self, Code other )
 		case CT_Typename:
 		{
 			check_member_val( IsParamPack );
+			check_member_val( TypeTag );
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
+			check_member_ast( ReturnType );
+			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
 			check_member_ast( ArrExpr );
 
 			return true;
@@ -1061,6 +1102,8 @@ bool code_is_equal( Code self, Code other )
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( Attributes );
+
+			return true;
 		}
 
 		case CT_Using:
@@ -1077,6 +1120,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Variable:
 		{
 			check_member_val( ModuleFlags );
+			check_member_val( VarParenthesizedInit );
 			check_member_str( Name );
 			check_member_ast( ValueType );
 			check_member_ast( BitfieldSize );
@@ -1091,6 +1135,8 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
+		case CT_Extern_Linkage_Body:
+		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
 		case CT_Struct_Body:
@@ -1143,6 +1189,7 @@ bool code_is_equal( Code self, Code other )
 	#undef check_member_val
 	#undef check_member_str
 	#undef check_member_ast
+	#undef check_list_ast
 	}
 
 	return true;
-- 
2.43.0


From ceb8aafa786229ca3bf86edffe4027a16950e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 160/256] fix: validating a body goes through its entries and
 accepts one that is valid

---
 base/components/ast.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index c93f3c9..8ba1d59 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -1202,7 +1202,7 @@ bool code_validate_body(Code self)
 		case CT_Class_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1216,9 +1216,9 @@ bool code_validate_body(Code self)
 		case CT_Enum_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in enum body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1229,7 +1229,7 @@ bool code_validate_body(Code self)
 		case CT_Export_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1240,10 +1240,10 @@ bool code_validate_body(Code self)
 			}
 		}
 		break;
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1257,7 +1257,7 @@ bool code_validate_body(Code self)
 		case CT_Function_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1271,7 +1271,7 @@ bool code_validate_body(Code self)
 		case CT_Global_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )switch (entry->Type)
 			{
 				GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1282,7 +1282,7 @@ bool code_validate_body(Code self)
 		case CT_Namespace_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1293,7 +1293,7 @@ bool code_validate_body(Code self)
 		case CT_Struct_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1304,9 +1304,9 @@ bool code_validate_body(Code self)
 		case CT_Union_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in union body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1319,5 +1319,5 @@ bool code_validate_body(Code self)
 			log_failure( "AST::validate_body: Invalid this AST does not have a body %S", code_debug_str(self) );
 			return false;
 	}
-	return false;
+	return true;
 }
-- 
2.43.0


From c654ec4316c1db4e012d2bc3a6e5435cddbac1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 161/256] fix: an empty body can be iterated and appended

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 82cc4f3..04787ba 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -461,7 +461,7 @@ Code begin_CodeBody( CodeBody body) {
 forceinline
 Code end_CodeBody(CodeBody body ){
 	GEN_ASSERT(body);
-	return body->Back->Next;
+	return body->Back != nullptr ? body->Back->Next : NullCode;
 }
 inline
 Code next_CodeBody(CodeBody body, Code entry) {
-- 
2.43.0


From 64fe6781642bd90ece1d9af7f4a3441abc8e6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 162/256] fix: the entries of a list of parameters can be
 gotten by their index

---
 base/components/inlines.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 04787ba..7da4f60 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -556,17 +556,15 @@ inline
 CodeParams params_get(CodeParams self, s32 idx )
 {
 	GEN_ASSERT(self);
-	CodeParams param = self;
-	do
-	{
-		if ( ++ param != nullptr )
-			return NullCode;
+	Code param = cast(Code, self);
+	s32  left  = max( self->NumEntries, 1 );
+	if ( idx < 0 || idx >= left )
+		return NullCode;
 
-		param = cast(CodeParams, cast(Code, param)->Next);
-	}
-	while ( --idx );
+	while ( param != nullptr && idx -- > 0 )
+		param = param->Next;
 
-	return param;
+	return cast(CodeParams, param);
 }
 forceinline
 bool params_has_entries(CodeParams self)
-- 
2.43.0


From f9decbc20a4111261924da7a77884bf4659e6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 163/256] fix: getting an entry past the end does not
 dereference null

---
 base/components/inlines.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 7da4f60..c8ea8a0 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -373,7 +373,7 @@ Code* code_entry( Code self, u32 idx )
 {
 	GEN_ASSERT(self != nullptr);
 	Code* current = & self->Front;
-	while ( idx >= 0 && current != nullptr )
+	while ( * current != nullptr )
 	{
 		if ( idx == 0 )
 			return rcast( Code*, current);
@@ -382,7 +382,7 @@ Code* code_entry( Code self, u32 idx )
 		idx--;
 	}
 
-	return rcast( Code*, current);
+	return nullptr;
 }
 forceinline
 bool code_is_valid(Code self)
-- 
2.43.0


From 044b7ca070dc623bfa31ce6c285c9a1feeb4ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 164/256] fix: removing a specifier works on full lists and on
 specifiers that repeat

---
 base/components/inlines.hpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index c8ea8a0..afb69b8 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -670,39 +670,27 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 {
 	if ( self == nullptr )
 	{
-		log_failure("CodeSpecifiers: Attempted to append to a null specifiers AST!");
-		return -1;
-	}
-	if ( self->NumEntries == AST_ArrSpecs_Cap )
-	{
-		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
+		log_failure("CodeSpecifiers: Attempted to remove from a null specifiers AST!");
 		return -1;
 	}
 
 	s32 result = -1;
 
-	s32 curr = 0;
-	s32 next = 0;
-	for(; next < self->NumEntries; ++ curr, ++ next)
+	s32 kept = 0;
+	for ( s32 idx = 0; idx < self->NumEntries; ++ idx )
 	{
-		Specifier spec = self->ArrSpecs[next];
-		if (spec == to_remove)
+		Specifier spec = self->ArrSpecs[idx];
+		if ( spec == to_remove )
 		{
-			result = next;
-
-			next ++;
-			if (next >= self->NumEntries)
-				break;
-
-			spec = self->ArrSpecs[next];
+			result = idx;
+			continue;
 		}
 
-		self->ArrSpecs[ curr ] = spec;
+		self->ArrSpecs[ kept ] = spec;
+		kept ++;
 	}
 
-	if (result > -1) {
-		self->NumEntries --;
-	}
+	self->NumEntries = kept;
 	return result;
 }
 forceinline
-- 
2.43.0


From 0064ea5f9413541d1c3def745bf6c24416dcb3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 165/256] fix: a duplicate of a body does not link the entries
 of the original

---
 base/components/ast.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 8ba1d59..516a165 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -382,6 +382,22 @@ Code code_duplicate(Code self)
 	result->Prev   = NullCode;
 	result->Next   = NullCode;
 
+	// The entries of a body are part of it
+	if ( code_is_body(self) )
+	{
+		Code entry = self->Front;
+		s32  left  = self->NumEntries;
+
+		result->Front      = NullCode;
+		result->Back       = NullCode;
+		result->NumEntries = 0;
+		while ( left-- > 0 && entry )
+		{
+			code_append( result, code_duplicate(entry) );
+			entry = entry->Next;
+		}
+	}
+
 	// The rest of a list of parameters is part of it
 	if ( self->Type == CT_Parameters || self->Type == CT_Parameters_Define )
 	{
-- 
2.43.0


From b49a93398296b7d6743af423a91c70fcf5796e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 166/256] fix: serializing an enum does not write to the log

---
 base/components/code_serialization.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 4ca3108..47b3cfe 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -400,10 +400,7 @@ void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
 	if ( self->UnderlyingType )
 		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
 	else if (self->UnderlyingTypeMacro)
-	{
-		log_fmt("IDENTIFIED A UNDERLYING ENUM MACRO");
 		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
-	}
 	else
 		strbuilder_append_str( result, self->Name );
 
-- 
2.43.0


From 2eb733c140ed3c56273d0a24ce41c63351be66dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 167/256] fix: module flags of any value can be described

---
 base/components/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/types.hpp b/base/components/types.hpp
index e736854..9065838 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -107,8 +107,8 @@ Str module_flag_to_str( ModuleFlag flag )
 	};
 
 	local_persist
-	Str invalid_flag = { "invalid", sizeof("invalid") };
-	if ( flag > ModuleFlag_Import )
+	Str invalid_flag = { "invalid", sizeof("invalid") - 1 };
+	if ( (u32)flag >= (u32)Num_ModuleFlags )
 		return invalid_flag;
 
 	return lookup[ (u32)flag ];
-- 
2.43.0


From 0f28c4b78bf3d1a2810aad3f178dd228bf359e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 168/256] fix: a macro before or after the name of a parameter
 stays with that parameter

---
 base/components/parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f4f9dac..b3fb38d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2897,7 +2897,8 @@ CodeParams parse_params( bool use_template_capture )
 	if ( name.Text.Len > 0 )
 		result->Name = cache_str( name.Text );
 
-	result->ValueType = type;
+	result->PostNameMacro = post_name_macro;
+	result->ValueType     = type;
 
 	if ( value )
 		result->Value = value;
@@ -2912,6 +2913,10 @@ CodeParams parse_params( bool use_template_capture )
 		Code type  = { nullptr };
 		Code value = { nullptr };
 
+		macro           = NullCode;
+		name            = NullToken;
+		post_name_macro = NullCode;
+
 		if ( check( Tok_Varadic_Argument ) )
 		{
 			eat( Tok_Varadic_Argument );
-- 
2.43.0


From a921b80087dccdf4462de3a69c459dc0391b542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 169/256] fix: macros registered as attributes are accepted in
 global bodies as in class bodies

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b3fb38d..14bb4c1 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1788,9 +1788,9 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Preprocess_Macro_Expr: 
 			{
-				if (tok_is_attribute(currtok))
+				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in global/namespace body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
-- 
2.43.0


From 42ab7d95ff7a03c68a1ebcb00df957d1d437b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 170/256] fix: an enum class keeps the macro that wraps its
 underlying type

---
 base/components/code_serialization.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 47b3cfe..d2acb1d 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -420,7 +420,7 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes || self->UnderlyingType )
+	if ( self->Attributes || self->UnderlyingType || self->UnderlyingTypeMacro )
 	{
 		strbuilder_append_str( result, txt("enum class ") );
 
@@ -433,6 +433,10 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 		{
 			strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
 		}
+		else if ( self->UnderlyingTypeMacro )
+		{
+			strbuilder_append_fmt( result, "%S %SB\n{\n%SB\n}", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro), body_to_strbuilder(self->Body) );
+		}
 		else
 		{
 			strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
@@ -461,6 +465,8 @@ void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
 
 	if ( self->UnderlyingType )
 		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
 	else
 		strbuilder_append_str( result, self->Name );
 
-- 
2.43.0


From b5b75e7cebe535a73669ae3b02e8f238a3c7005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 171/256] fix: a statement macro keeps its end of statement
 wherever it stands and apart from what follows it

---
 base/components/parser.cpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 14bb4c1..420bccb 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2721,11 +2721,20 @@ Code parse_macro_as_definiton( CodeAttributes attributes, CodeSpecifiers specifi
 	// TODO(Ed): When AST_Macro is made, have it support attributs and specifiers for when its behaving as a declaration/definition.
 	Code code = parse_simple_preprocess( Tok_Preprocess_Macro_Stmt );
 
+	b32 ends_statement = left && currtok.Type == Tok_Statement_End;
+	if ( ends_statement )
+		eat( Tok_Statement_End );
+		// <Attributes> <Specifiers> <Macro>;
+
+	b32 shares_line = left && currtok_noskip.Type != Tok_NewLine && currtok_noskip.Type != Tok_BraceCurly_Close;
+
 	// Attributes and sepcifiers will be collapsed into the macro's serialization.
-	StrBuilder resolved_definition = strbuilder_fmt_buf(_ctx->Allocator_Temp, "%S %S %S"
+	StrBuilder resolved_definition = strbuilder_fmt_buf(_ctx->Allocator_Temp, "%S %S %S%S%S"
 		, attributes ? strbuilder_to_str( attributes_to_strbuilder(attributes)) : txt("")
 		, specifiers ? strbuilder_to_str( specifiers_to_strbuilder(specifiers)) : txt("")
 		, code->Content
+		, ends_statement ? txt(";") : txt("")
+		, shares_line    ? txt(" ") : txt("")
 	);
 	Code result = untyped_str( strbuilder_to_str(resolved_definition) );
 	parser_pop(& _ctx->parser);
@@ -3119,6 +3128,11 @@ Code parse_simple_preprocess( TokType which )
 		full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 	}
 
+	Str calling_proc = _ctx->parser.Scope->Prev->ProcName;
+	b32 in_body      = str_contains(calling_proc, txt("parse_global_nspace"))
+		||	str_contains(calling_proc, txt("parse_class_struct_body"))
+		||	str_contains(calling_proc, txt("parser_parse_union"));
+
 	if ( macro && macro_expects_body(* macro) && peektok.Type == Tok_BraceCurly_Open )
 	{
 		// Eat the block scope right after the macro. Were assuming the macro defines a function definition's signature
@@ -3162,8 +3176,6 @@ Code parse_simple_preprocess( TokType which )
 	{
 		// If the macro is just a macro in the body of an AST it may have a semi-colon for the user to close on purpsoe
 		// (especially for functional macros)
-		Str calling_proc = _ctx->parser.Scope->Prev->ProcName;
-
 		if (str_contains(_ctx->parser.Scope->Prev->ProcName, txt("parser_parse_enum")))
 		{
 			// Do nothing
@@ -3177,7 +3189,7 @@ Code parse_simple_preprocess( TokType which )
 				eat( Tok_Statement_End );
 				// <Macro>;
 
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 
 				// TODO(Ed): Reveiw the context for this? (ESPECIALLY THIS)
 				if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
@@ -3185,27 +3197,30 @@ Code parse_simple_preprocess( TokType which )
 					eat( Tok_Comment );
 					// <Macro>; <InlineCmt>
 
-					full_macro.Text.Len += prevtok.Text.Len;
+					full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 				}
 			}
 		}
-		else if (
-				str_contains(calling_proc, txt("parse_global_nspace"))
-			||	str_contains(calling_proc, txt("parse_class_struct_body"))
-		)
+		else if ( in_body )
 		{
 			if (left && peektok.Type == Tok_Statement_End)
 			{
 				Token stmt_end = currtok;
 				eat( Tok_Statement_End );
 				// <Macro>;
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 			}
 		}
 	}
 
 Leave_Scope_Early:
-	Code result = untyped_str( full_macro.Text );
+	Str content = full_macro.Text;
+
+	b32 shares_line = left && currtok_noskip.Type != Tok_NewLine && currtok_noskip.Type != Tok_BraceCurly_Close;
+	if ( which == Tok_Preprocess_Macro_Stmt && shares_line && ( in_body || str_contains(calling_proc, txt("parser_parse_enum")) ) )
+		content = strbuilder_to_str( strbuilder_fmt_buf(_ctx->Allocator_Temp, "%S ", content) );
+
+	Code result = untyped_str( content );
 	_ctx->parser.Scope->Name = full_macro.Text;
 
 	parser_pop(& _ctx->parser);
-- 
2.43.0


From 308bd13f55c6736c16d9f53d6bd89aac27f1bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 172/256] fix: a define directive is read by its own
 parenthesis, whatever is registered for its name

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 420bccb..c18875d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3708,7 +3708,7 @@ CodeDefine parser_parse_define()
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
-	if (macro_is_functional(* macro)) {
+	if ( check( Tok_Paren_Open ) ) {
 		eat( Tok_Paren_Open );
 		// #define <Name> (
 
-- 
2.43.0


From f288367eadf4698b225aca703f14525cd0976432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 173/256] fix: the text for a macro type is the one of its
 enumerator

---
 base/components/parser_types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 2393945..6c93d65 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -151,15 +151,15 @@ Str macrotype_to_str( MacroType type )
 {
 	local_persist
 	Str lookup[] = {
-		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Expression",       sizeof("Expression")       - 1 },
+		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Typename",         sizeof("Typename")         - 1 },
 		{ "Block_Start",      sizeof("Block_Start")      - 1 },
 		{ "Block_End",        sizeof("Block_End")        - 1 },
 		{ "Case_Statement",   sizeof("Case_Statement")   - 1 },
 	};
 	local_persist
-	Str invalid = { "Invalid", sizeof("Invalid") };
+	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
 	if ( type > MT_Case_Statement )
 		return invalid;
 
-- 
2.43.0


From 230c218109915dc877f002f233475b2fb4943b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 174/256] fix: what follows the type of an unnamed declaration
 is not taken for its name

---
 base/components/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c18875d..fc1fb8b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2097,6 +2097,8 @@ Token parse_identifier( bool* possible_member_function )
 	// If that is the case first  option will be Tok_Access_StaticSymbol below
 	if (check(Tok_Identifier) || accept_as_identifier)
 		eat( Tok_Identifier );
+	else if ( ! check( Tok_Access_StaticSymbol ) )
+		name.Text.Len = 0;
 	// <Name>
 
 	parse_template_args( & name );
-- 
2.43.0


From 08768a45630fa34b3f4d4b8b57e7747f09faba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 175/256] fix: a stray end of statement in a union body is
 skipped as in other bodies

---
 base/components/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index fc1fb8b..9ff24d0 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5521,6 +5521,12 @@ CodeUnion parser_parse_union( bool inplace_def )
 					member = cast(Code, parse_comment());
 				break;
 
+				case Tok_Statement_End:
+					// TODO(Ed): Convert this to a general warning procedure
+					log_fmt("Dangling end statement found %SB\n", tok_to_strbuilder(currtok_noskip));
+					eat( Tok_Statement_End );
+				continue;
+
 				// TODO(Ed) : Unions can have constructors and destructors
 
 				case Tok_Decl_Class:
-- 
2.43.0


From 56fd2267b9d99b322a58ed189683db38e91e9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 176/256] fix: attributes in front of a type definition are
 diagnosed instead of taken for a variable

---
 base/components/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9ff24d0..1d57280 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2640,6 +2640,12 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 			name = parse_identifier(nullptr);
 			_ctx->parser.Scope->Name = name.Text;
 		}
+		if ( name.Text.Len == 0 && check( Tok_BraceCurly_Open ) )
+		{
+			log_failure( "Attributes and specifiers in front of a type definition are not supported\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 
 		bool detected_capture = check( Tok_Paren_Open );
 
-- 
2.43.0


From 43398c971556fc58f676ecbcee88940e42258e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 177/256] fix: constructors, destructors and operator casts
 keep the attributes before them

---
 base/components/ast.cpp                | 11 +++++++++
 base/components/ast_types.hpp          |  6 ++---
 base/components/code_serialization.cpp | 15 ++++++++++++
 base/components/parser.cpp             | 34 ++++++++++++++++++++++++++
 4 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 516a165..962ba0b 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -95,6 +95,7 @@ Str code_debug_str(Code self)
 				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tAttributes     : %S", self->Attributes      ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tInitializerList: %S", self->InitializerList ? strbuilder_to_str( code_to_strbuilder(self->InitializerList) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tParams         : %S", self->Params          ? strbuilder_to_str( code_to_strbuilder(self->Params) )          : txt("Null") );
@@ -108,6 +109,7 @@ Str code_debug_str(Code self)
 				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tAttributes     : %S", self->Attributes      ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tInitializerList: %S", self->InitializerList ? strbuilder_to_str( code_to_strbuilder(self->InitializerList) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tParams         : %S", self->Params          ? strbuilder_to_str( code_to_strbuilder(self->Params) )          : txt("Null") );
@@ -120,6 +122,7 @@ Str code_debug_str(Code self)
 				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tAttributes     : %S", self->Attributes      ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody           : %S", self->Body            ? code_debug_str(self->Body)                           : txt("Null") );
 		break;
@@ -244,6 +247,7 @@ Str code_debug_str(Code self)
 				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType  ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                              : txt("Null") );
@@ -256,6 +260,7 @@ Str code_debug_str(Code self)
 				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType  ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 		break;
@@ -824,6 +829,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Constructor:
 		{
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
@@ -835,6 +841,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Constructor_Fwd:
 		{
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
@@ -846,6 +853,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Destructor:
 		{
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Body );
 
@@ -855,6 +863,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Destructor_Fwd:
 		{
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Body );
 
@@ -979,6 +988,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Cast:
 		{
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( ValueType );
 			check_member_ast( Body );
@@ -989,6 +999,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Cast_Fwd:
 		{
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( ValueType );
 
diff --git a/base/components/ast_types.hpp b/base/components/ast_types.hpp
index 27bfae1..76ab88f 100644
--- a/base/components/ast_types.hpp
+++ b/base/components/ast_types.hpp
@@ -125,7 +125,7 @@ struct AST_Constructor
 		struct
 		{
 			CodeComment    InlineCmt; // Only supported by forward declarations
-			char           _PAD_PROPERTIES_ [ sizeof(AST*) * 1 ];
+			CodeAttributes Attributes;
 			CodeSpecifiers Specs;
 			Code           InitializerList;
 			CodeParams     Params;
@@ -188,7 +188,7 @@ struct AST_Destructor
 		struct
 		{
 			CodeComment    InlineCmt;
-			char           _PAD_PROPERTIES_ [ sizeof(AST*) * 1 ];
+			CodeAttributes Attributes;
 			CodeSpecifiers Specs;
 			char           _PAD_PROPERTIES_2_ [ sizeof(AST*) * 2 ];
 			Code           Body;
@@ -659,7 +659,7 @@ struct AST_OpCast
 		struct
 		{
 			CodeComment    InlineCmt;
-			char           _PAD_PROPERTIES_[ sizeof(AST*)  ];
+			CodeAttributes Attributes;
 			CodeSpecifiers Specs;
 			CodeTypename   ValueType;
 			char           _PAD_PROPERTIES_2_[ sizeof(AST*) ];
diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index d2acb1d..88115fd 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -70,6 +70,9 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
 	Code ClassStructParent = { nullptr };
 	if (self->Parent && ( self->Parent->Type == CT_Class_Body || self->Parent->Type == CT_Struct_Body )) {
 		ClassStructParent = self->Parent->Parent;
@@ -107,6 +110,9 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
 	Code ClassStructParent = { nullptr };
 	if (self->Parent && ( self->Parent->Type == CT_Class_Body || self->Parent->Type == CT_Struct_Body )) {
 		ClassStructParent = self->Parent->Parent;
@@ -277,6 +283,9 @@ StrBuilder destructor_to_strbuilder(CodeDestructor self)
 internal
 void destructor_to_strbuilder_signature(CodeDestructor self, StrBuilder* result )
 {
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
@@ -783,6 +792,9 @@ void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
@@ -822,6 +834,9 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 1d57280..6ba6da4 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -245,6 +245,7 @@ internal Code               parse_static_assert                ();
 internal void               parse_template_args                ( Token* token );
 internal CodeVar            parse_variable_after_name          ( ModuleFlag mflags, CodeAttributes attributes, CodeSpecifiers specifiers, CodeTypename type, Str name );
 internal CodeVar            parse_variable_declaration_list    ();
+internal void               parser_keep_attributes             ( Code member, CodeAttributes attributes );
 
 internal CodeClass       parser_parse_class           ( bool inplace_def );
 internal CodeConstructor parser_parse_constructor     ( CodeSpecifiers specifiers );
@@ -837,6 +838,35 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	return result;
 }
 
+// The definitions whose own parse does not take the attributes found before them.
+internal
+void parser_keep_attributes( Code member, CodeAttributes attributes )
+{
+	if ( ! attributes )
+		return;
+
+	switch ( member->Type )
+	{
+		case CT_Constructor:
+		case CT_Constructor_Fwd:
+			cast(CodeConstructor, member)->Attributes = attributes;
+		break;
+
+		case CT_Destructor:
+		case CT_Destructor_Fwd:
+			cast(CodeDestructor, member)->Attributes = attributes;
+		break;
+
+		case CT_Operator_Cast:
+		case CT_Operator_Cast_Fwd:
+			cast(CodeOpCast, member)->Attributes = attributes;
+		break;
+
+		default:
+		break;
+	}
+}
+
 internal neverinline
 CodeBody parse_class_struct_body( TokType which, Token name )
 {
@@ -1173,6 +1203,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
+		parser_keep_attributes( member, attributes );
 		body_append(result, member );
 	}
 
@@ -1920,6 +1951,7 @@ CodeBody parse_global_nspace( CodeType which )
 		}
 
 		// log_fmt("Global Body Member: %s", member->debug_str());
+		parser_keep_attributes( member, attributes );
 		body_append(result, member );
 	}
 
@@ -4708,6 +4740,7 @@ CodeTemplate parser_parse_template()
 			Code constructor_destructor = parse_global_nspace_constructor_destructor( specifiers );
 			if ( constructor_destructor ) 
 			{
+				parser_keep_attributes( constructor_destructor, attributes );
 				definition = constructor_destructor;
 				// <Attributes> <Specifiers> <Name> :: <Name> <Type> () { ... }
 				break;
@@ -4742,6 +4775,7 @@ CodeTemplate parser_parse_template()
 
 			if ( found_operator_cast_outside_class_implmentation ) {
 				definition = cast(Code, parser_parse_operator_cast( specifiers ));
+				parser_keep_attributes( definition, attributes );
 				// <Attributes> <Specifiers> <Name> :: operator <Type> () { ... }
 				break;
 			}
-- 
2.43.0


From de432d075dbd29d6744568280219df233e3bf555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 178/256] fix: the typename keyword in front of a dependent
 type is kept

---
 base/components/parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6ba6da4..f9973bd 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4935,7 +4935,14 @@ else if ( currtok.Type == Tok_DeclType )
 
 		if ( ! from_template )
 		{
-			name                = parse_identifier(nullptr);
+			Token keyword  = name;
+			name           = parse_identifier(nullptr);
+			if ( tok_is_valid(name) )
+			{
+				// The keyword is a part of the name of the type
+				name.Text.Len += scast(s32, name.Text.Ptr - keyword.Text.Ptr);
+				name.Text.Ptr  = keyword.Text.Ptr;
+			}
 			_ctx->parser.Scope->Name = name.Text;
 			if ( ! tok_is_valid(name) )
 			{
-- 
2.43.0


From 67e95f2c4072d951c1645726c11a00cac45534e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 179/256] fix: reference qualifiers are written after the
 function they qualify

---
 base/components/gen/especifier.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/components/gen/especifier.hpp b/base/components/gen/especifier.hpp
index e03e9d4..3ea18f1 100644
--- a/base/components/gen/especifier.hpp
+++ b/base/components/gen/especifier.hpp
@@ -84,6 +84,8 @@ inline bool spec_is_trailing(Specifier specifier)
 		case Spec_Override:
 		case Spec_Pure:
 		case Spec_Delete:
+		case Spec_Ref:
+		case Spec_RValue:
 		case Spec_Volatile:
 			return true;
 		default:
-- 
2.43.0


From 93c34dbd60c0c3da3f8801f38763c10e84043329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 180/256] fix: a member is a constructor when it is named as
 its type, not when its name only starts so

---
 base/components/parser.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f9973bd..6cb7e71 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -246,6 +246,7 @@ internal void               parse_template_args                ( Token* token );
 internal CodeVar            parse_variable_after_name          ( ModuleFlag mflags, CodeAttributes attributes, CodeSpecifiers specifiers, CodeTypename type, Str name );
 internal CodeVar            parse_variable_declaration_list    ();
 internal void               parser_keep_attributes             ( Code member, CodeAttributes attributes );
+internal Str                parser_unqualified_name            ( Str name );
 
 internal CodeClass       parser_parse_class           ( bool inplace_def );
 internal CodeConstructor parser_parse_constructor     ( CodeSpecifiers specifiers );
@@ -867,6 +868,31 @@ void parser_keep_attributes( Code member, CodeAttributes attributes )
 	}
 }
 
+// <Qualifier> :: <Name> < <Template Args> >   ->   <Name>
+internal
+Str parser_unqualified_name( Str name )
+{
+	Str result = { name.Ptr, 0 };
+	s32 level  = 0;
+	for ( s32 idx = 0; idx < name.Len; ++ idx )
+	{
+		char ch = name.Ptr[idx];
+		if ( ch == '<' )
+			++ level;
+		else if ( ch == '>' )
+			-- level;
+		else if ( level > 0 )
+			continue;
+		else if ( ch == ':' || ( result.Len == 0 && char_is_space(ch) ) ) {
+			result.Ptr = name.Ptr + idx + 1;
+			result.Len = 0;
+		}
+		else if ( ! char_is_space(ch) )
+			result.Len = scast(s32, name.Ptr + idx + 1 - result.Ptr);
+	}
+	return result;
+}
+
 internal neverinline
 CodeBody parse_class_struct_body( TokType which, Token name )
 {
@@ -1170,7 +1196,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( nexttok.Type == Tok_Paren_Open && name.Text.Len && currtok.Type == Tok_Identifier )
 				{
-					if ( c_str_compare_len( name.Text.Ptr, currtok.Text.Ptr, name.Text.Len ) == 0 )
+					if ( str_are_equal( parser_unqualified_name(name.Text), currtok.Text ) )
 					{
 						member = cast(Code, parser_parse_constructor( specifiers ));
 						// <Attributes> <Specifiers> <Name>()
-- 
2.43.0


From e843a784585bc7fb5c9999c77b6472d089f68716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 181/256] fix: the generator of the specifiers writes reference
 qualifiers as trailing

---
 base/helpers/base_codegen.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 533acfc..54b560b 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -221,6 +221,8 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 				case Spec_Override:
 				case Spec_Pure:
 				case Spec_Delete:
+				case Spec_Ref:
+				case Spec_RValue:
 				case Spec_Volatile:
 					return true;
 		
-- 
2.43.0


From 73d935883aeff57d5c7c70b171c28db91c9a0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 182/256] fix: a declaration of an operator cast keeps its
 qualifier, as its definition

---
 base/components/code_serialization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 88115fd..2685b7a 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -848,6 +848,8 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			}
 		}
 
+		if ( self->Name.Ptr && self->Name.Len )
+			strbuilder_append_fmt( result, "%S ", self->Name );
 		strbuilder_append_fmt( result, "operator %SB()", typename_to_strbuilder(self->ValueType) );
 
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
@@ -866,6 +868,8 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 		return;
 	}
 
+	if ( self->Name.Ptr && self->Name.Len )
+		strbuilder_append_fmt( result, "%S ", self->Name );
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "operator %SB();  %S", typename_to_strbuilder(self->ValueType), self->InlineCmt->Content );
 	else
-- 
2.43.0


From 2670c1098a57952808b3caa07a16f1be1d90a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 183/256] fix: constructors and destructors of a specialized or
 nested type are written with its unqualified name

---
 base/components/code_serialization.cpp | 31 +++++++++++++++++++++++---
 base/components/parser.cpp             | 28 +----------------------
 2 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 2685b7a..97e570a 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -50,6 +50,31 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	strbuilder_append_fmt( result, "};\n" );
 }
 
+// <Qualifier> :: <Name> < <Template Args> >   ->   <Name>
+internal
+Str type_unqualified_name( Str name )
+{
+	Str result = { name.Ptr, 0 };
+	s32 level  = 0;
+	for ( s32 idx = 0; idx < name.Len; ++ idx )
+	{
+		char ch = name.Ptr[idx];
+		if ( ch == '<' )
+			++ level;
+		else if ( ch == '>' )
+			-- level;
+		else if ( level > 0 )
+			continue;
+		else if ( ch == ':' || ( result.Len == 0 && char_is_space(ch) ) ) {
+			result.Ptr = name.Ptr + idx + 1;
+			result.Len = 0;
+		}
+		else if ( ! char_is_space(ch) )
+			result.Len = scast(s32, name.Ptr + idx + 1 - result.Ptr);
+	}
+	return result;
+}
+
 StrBuilder constructor_to_strbuilder(CodeConstructor self)
 {
 	GEN_ASSERT(self);
@@ -86,7 +111,7 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 		}
 	}
 	if (ClassStructParent) {
-		strbuilder_append_str( result, ClassStructParent->Name );
+		strbuilder_append_str( result, type_unqualified_name(ClassStructParent->Name) );
 	}
 	else {
 		strbuilder_append_str( result, self->Name );
@@ -126,7 +151,7 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 		}
 	}
 	if (ClassStructParent) {
-		strbuilder_append_str( result, ClassStructParent->Name );
+		strbuilder_append_str( result, type_unqualified_name(ClassStructParent->Name) );
 	}
 	else {
 		strbuilder_append_str( result, self->Name );
@@ -296,7 +321,7 @@ void destructor_to_strbuilder_signature(CodeDestructor self, StrBuilder* result
 	}
 
 	if ( self->Parent && ( self->Parent->Type == CT_Class_Body || self->Parent->Type == CT_Struct_Body ) && self->Parent->Parent )
-		strbuilder_append_fmt( result, "~%S()", self->Parent->Parent->Name );
+		strbuilder_append_fmt( result, "~%S()", type_unqualified_name(self->Parent->Parent->Name) );
 	else
 		strbuilder_append_fmt( result, "%S()", self->Name );
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6cb7e71..5ece851 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -246,7 +246,6 @@ internal void               parse_template_args                ( Token* token );
 internal CodeVar            parse_variable_after_name          ( ModuleFlag mflags, CodeAttributes attributes, CodeSpecifiers specifiers, CodeTypename type, Str name );
 internal CodeVar            parse_variable_declaration_list    ();
 internal void               parser_keep_attributes             ( Code member, CodeAttributes attributes );
-internal Str                parser_unqualified_name            ( Str name );
 
 internal CodeClass       parser_parse_class           ( bool inplace_def );
 internal CodeConstructor parser_parse_constructor     ( CodeSpecifiers specifiers );
@@ -868,31 +867,6 @@ void parser_keep_attributes( Code member, CodeAttributes attributes )
 	}
 }
 
-// <Qualifier> :: <Name> < <Template Args> >   ->   <Name>
-internal
-Str parser_unqualified_name( Str name )
-{
-	Str result = { name.Ptr, 0 };
-	s32 level  = 0;
-	for ( s32 idx = 0; idx < name.Len; ++ idx )
-	{
-		char ch = name.Ptr[idx];
-		if ( ch == '<' )
-			++ level;
-		else if ( ch == '>' )
-			-- level;
-		else if ( level > 0 )
-			continue;
-		else if ( ch == ':' || ( result.Len == 0 && char_is_space(ch) ) ) {
-			result.Ptr = name.Ptr + idx + 1;
-			result.Len = 0;
-		}
-		else if ( ! char_is_space(ch) )
-			result.Len = scast(s32, name.Ptr + idx + 1 - result.Ptr);
-	}
-	return result;
-}
-
 internal neverinline
 CodeBody parse_class_struct_body( TokType which, Token name )
 {
@@ -1196,7 +1170,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( nexttok.Type == Tok_Paren_Open && name.Text.Len && currtok.Type == Tok_Identifier )
 				{
-					if ( str_are_equal( parser_unqualified_name(name.Text), currtok.Text ) )
+					if ( str_are_equal( type_unqualified_name(name.Text), currtok.Text ) )
 					{
 						member = cast(Code, parser_parse_constructor( specifiers ));
 						// <Attributes> <Specifiers> <Name>()
-- 
2.43.0


From 066743fde48b4426bd79c221ae96df5ad59bed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 184/256] fix: a comment after a macro that stands for a
 definition is not dropped

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5ece851..e304070 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2761,7 +2761,7 @@ Code parse_macro_as_definiton( CodeAttributes attributes, CodeSpecifiers specifi
 	// TODO(Ed): When AST_Macro is made, have it support attributs and specifiers for when its behaving as a declaration/definition.
 	Code code = parse_simple_preprocess( Tok_Preprocess_Macro_Stmt );
 
-	b32 ends_statement = left && currtok.Type == Tok_Statement_End;
+	b32 ends_statement = left && peektok.Type == Tok_Statement_End;
 	if ( ends_statement )
 		eat( Tok_Statement_End );
 		// <Attributes> <Specifiers> <Macro>;
-- 
2.43.0


From 275f39ec979e9070f1b2ccbc056b0b46b7075311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 185/256] fix: a macro is kept on a line of its own when a
 directive follows it

---
 base/components/parser.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e304070..32a0b8e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -246,6 +246,7 @@ internal void               parse_template_args                ( Token* token );
 internal CodeVar            parse_variable_after_name          ( ModuleFlag mflags, CodeAttributes attributes, CodeSpecifiers specifiers, CodeTypename type, Str name );
 internal CodeVar            parse_variable_declaration_list    ();
 internal void               parser_keep_attributes             ( Code member, CodeAttributes attributes );
+internal Str                parser_separation                  ();
 
 internal CodeClass       parser_parse_class           ( bool inplace_def );
 internal CodeConstructor parser_parse_constructor     ( CodeSpecifiers specifiers );
@@ -2742,6 +2743,15 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 	return result;
 }
 
+// What keeps text that is written as it stands apart from what follows it.
+internal
+Str parser_separation()
+{
+	if ( left <= 0 || currtok_noskip.Type == Tok_NewLine || currtok_noskip.Type == Tok_BraceCurly_Close )
+		return txt("");
+	return currtok_noskip.Line != prevtok.Line ? txt("\n") : txt(" ");
+}
+
 internal
 Code parse_macro_as_definiton( CodeAttributes attributes, CodeSpecifiers specifiers )
 {
@@ -2766,7 +2776,7 @@ Code parse_macro_as_definiton( CodeAttributes attributes, CodeSpecifiers specifi
 		eat( Tok_Statement_End );
 		// <Attributes> <Specifiers> <Macro>;
 
-	b32 shares_line = left && currtok_noskip.Type != Tok_NewLine && currtok_noskip.Type != Tok_BraceCurly_Close;
+	Str separation = parser_separation();
 
 	// Attributes and sepcifiers will be collapsed into the macro's serialization.
 	StrBuilder resolved_definition = strbuilder_fmt_buf(_ctx->Allocator_Temp, "%S %S %S%S%S"
@@ -2774,7 +2784,7 @@ Code parse_macro_as_definiton( CodeAttributes attributes, CodeSpecifiers specifi
 		, specifiers ? strbuilder_to_str( specifiers_to_strbuilder(specifiers)) : txt("")
 		, code->Content
 		, ends_statement ? txt(";") : txt("")
-		, shares_line    ? txt(" ") : txt("")
+		, separation
 	);
 	Code result = untyped_str( strbuilder_to_str(resolved_definition) );
 	parser_pop(& _ctx->parser);
@@ -3256,9 +3266,9 @@ Code parse_simple_preprocess( TokType which )
 Leave_Scope_Early:
 	Str content = full_macro.Text;
 
-	b32 shares_line = left && currtok_noskip.Type != Tok_NewLine && currtok_noskip.Type != Tok_BraceCurly_Close;
-	if ( which == Tok_Preprocess_Macro_Stmt && shares_line && ( in_body || str_contains(calling_proc, txt("parser_parse_enum")) ) )
-		content = strbuilder_to_str( strbuilder_fmt_buf(_ctx->Allocator_Temp, "%S ", content) );
+	Str separation = parser_separation();
+	if ( which == Tok_Preprocess_Macro_Stmt && separation.Len && ( in_body || str_contains(calling_proc, txt("parser_parse_enum")) ) )
+		content = strbuilder_to_str( strbuilder_fmt_buf(_ctx->Allocator_Temp, "%S%S", content, separation) );
 
 	Code result = untyped_str( content );
 	_ctx->parser.Scope->Name = full_macro.Text;
-- 
2.43.0


From 6053488e1958c83b85c20f0b4c243b9d0b8110c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 186/256] fix: a closed file can not be used to reach another
 file, nor be released twice

---
 base/dependencies/filesystem.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 3c6ced7..2983be4 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -341,6 +341,7 @@ FileError file_close( FileInfo* f )
 
 	if ( f->filename )
 		allocator_free( heap(), ccast( char*, f->filename ));
+	f->filename = nullptr;
 
 #if defined( GEN_SYSTEM_WINDOWS )
 	if ( f->fd.p == INVALID_HANDLE_VALUE )
@@ -350,16 +351,15 @@ FileError file_close( FileInfo* f )
 		return EFileError_INVALID;
 #endif
 
-	if ( f->is_temp )
-	{
-		f->ops.close( f->fd );
-		return EFileError_NONE;
-	}
-
 	if ( ! f->ops.read_at )
 		f->ops = default_file_operations;
 	f->ops.close( f->fd );
 
+	// What is left must not refer to whatever is opened under this descriptor next.
+	f->fd.i    = -1;
+	f->ops     = default_file_operations;
+	f->is_temp = false;
+
 #if 0
 	if ( f->Dir )
 	{
-- 
2.43.0


From 0b54fa3d8ebfee077a71f15b338e758c929635a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 187/256] fix: reading and writing a file on POSIX goes on
 after it was interrupted or came back short

---
 base/dependencies/filesystem.cpp | 58 ++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 2983be4..75ff79f 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -201,34 +201,56 @@ internal
 GEN_FILE_READ_AT_PROC( _posix_file_read )
 {
 	// unused( stop_at_newline );
-	ssize res = pread( fd.i, buffer, size, offset );
-	if ( res < 0 )
-		return false;
+	ssize total = 0;
+	b32   ok    = true;
+	while ( total < size )
+	{
+		ssize res = pread( scast( int, fd.i), scast( u8*, buffer) + total, size - total, offset + total );
+		if ( res < 0 && errno == EINTR )
+			continue;
+		if ( res < 0 )
+			ok = false;
+		if ( res <= 0 )
+			break;
+		total += res;
+	}
 	if ( bytes_read )
-		*bytes_read = res;
-	return true;
+		*bytes_read = total;
+	return ok;
 }
 
 internal
 GEN_FILE_WRITE_AT_PROC( _posix_file_write )
 {
-	ssize  res;
-	s64 curr_offset = 0;
+	ssize total       = 0;
+	b32   ok          = true;
+	s64   curr_offset = 0;
 	_posix_file_seek( fd, 0, ESeekWhence_CURRENT, &curr_offset );
-	if ( curr_offset == offset )
+	while ( total < size )
 	{
-		// NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
-		res = write( scast( int, fd.i), buffer, size );
-	}
-	else
-	{
-		res = pwrite( scast( int, fd.i), buffer, size, offset );
+		void const* rest = scast( u8 const*, buffer) + total;
+		ssize       res;
+		if ( curr_offset == offset )
+		{
+			// NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
+			res = write( scast( int, fd.i), rest, size - total );
+		}
+		else
+		{
+			res = pwrite( scast( int, fd.i), rest, size - total, offset + total );
+		}
+		if ( res < 0 && errno == EINTR )
+			continue;
+		if ( res <= 0 )
+		{
+			ok = false;
+			break;
+		}
+		total += res;
 	}
-	if ( res < 0 )
-		return false;
 	if ( bytes_written )
-		*bytes_written = res;
-	return true;
+		*bytes_written = total;
+	return ok;
 }
 
 internal
-- 
2.43.0


From 332396e8dceda5706f286c6841b94e8b0de818de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 188/256] fix: directories are not opened as files on POSIX,
 and a file that is appended to starts at its end

---
 base/dependencies/filesystem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 75ff79f..ef1a531 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -297,6 +297,17 @@ GEN_FILE_OPEN_PROC( _posix_file_open )
 		return EFileError_INVALID;
 	}
 
+	struct stat info;
+	if ( fstat( scast( int, fd->i), & info ) == 0 && S_ISDIR( info.st_mode ) )
+	{
+		close( scast( int, fd->i) );
+		fd->i = -1;
+		return EFileError_INVALID;
+	}
+
+	if ( mode & EFileMode_APPEND )
+		lseek( scast( int, fd->i), 0, SEEK_END );
+
 	*ops = default_file_operations;
 	return EFileError_NONE;
 }
-- 
2.43.0


From 1a81ecdf6163d6d42a1b81e91d7f0321e0cffbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 189/256] fix: memory streams keep what was written to them and
 do not go past their buffer

---
 base/dependencies/filesystem.cpp | 59 ++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index ef1a531..2cebd02 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -542,8 +542,12 @@ b8 file_stream_new( FileInfo* file, AllocatorInfo allocator )
 	d->buf       = array_init( u8, allocator );
 
 	if ( ! d->buf )
+	{
+		allocator_free( allocator, d );
 		return false;
+	}
 
+	d->cursor             = 0;
 	file->ops             = memory_file_operations;
 	file->fd              = _file_stream_fd_make( d );
 	file->dir             = NULL;
@@ -563,13 +567,17 @@ b8 file_stream_open( FileInfo* file, AllocatorInfo allocator, u8* buffer, ssize
 	d->magic     = GEN__FILE_STREAM_FD_MAGIC;
 	d->allocator = allocator;
 	d->flags     = flags;
+	d->cursor    = 0;
 	if ( d->flags & EFileStream_CLONE_WRITABLE )
 	{
 		Array(u8) arr = array_init_reserve(u8, allocator, size );
 		d->buf = arr;
 
 		if ( ! d->buf )
+		{
+			allocator_free( allocator, d );
 			return false;
+		}
 
 		mem_copy( d->buf, buffer, size );
 		d->cap = size;
@@ -621,9 +629,15 @@ GEN_FILE_READ_AT_PROC( _memory_file_read )
 {
 	// unused( stop_at_newline );
 	_memory_fd* d = _file_stream_from_fd( fd );
-	mem_copy( buffer, d->buf + offset, size );
+	if ( offset < 0 || size < 0 )
+		return false;
+
+	ssize available = max( 0, d->cap - offset );
+	ssize count     = min( size, available );
+	if ( count > 0 )
+		mem_copy( buffer, d->buf + offset, count );
 	if ( bytes_read )
-		*bytes_read = size;
+		*bytes_read = count;
 	return true;
 }
 
@@ -635,14 +649,22 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 	if ( ! ( d->flags & ( EFileStream_CLONE_WRITABLE | EFileStream_WRITABLE ) ) )
 		return false;
 
-	ssize buflen   = d->cap;
-	ssize extralen = max( 0, size - ( buflen - offset ) );
-	ssize rwlen    = size - extralen;
-	ssize new_cap  = buflen + extralen;
+	if ( offset < 0 || size < 0 )
+		return false;
 
-	if ( d->flags & EFileStream_CLONE_WRITABLE )
+	ssize buflen = d->cap;
+	ssize count  = size;
+
+	if ( ! ( d->flags & EFileStream_CLONE_WRITABLE ) )
 	{
-		Array(u8) arr = { d->buf };
+		// The buffer is not ours to grow.
+		ssize available = max( 0, buflen - offset );
+		count           = min( size, available );
+	}
+	else if ( size > 0 && offset + size > buflen )
+	{
+		Array(u8) arr     = { d->buf };
+		ssize     new_cap = offset + size;
 
 		if ( array_get_header(arr)->Capacity < scast(usize, new_cap) )
 		{
@@ -650,25 +672,20 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 				return false;
 			d->buf = arr;
 		}
-	}
 
-	mem_copy( d->buf + offset, buffer, rwlen );
-
-	if ( ( d->flags & EFileStream_CLONE_WRITABLE ) && extralen > 0 )
-	{
-		Array(u8) arr = { d->buf };
+		// There is nothing between the end of the stream and what is written past it.
+		if ( offset > buflen )
+			mem_set( d->buf + buflen, 0, offset - buflen );
 
-		mem_copy( d->buf + offset + rwlen, pointer_add_const( buffer, rwlen ), extralen );
 		d->cap = new_cap;
-		array_get_header(arr)->Capacity = new_cap;
-	}
-	else
-	{
-		extralen = 0;
+		array_get_header(arr)->Num = new_cap;
 	}
 
+	if ( count > 0 )
+		mem_copy( d->buf + offset, buffer, count );
+
 	if ( bytes_written )
-		*bytes_written = ( rwlen + extralen );
+		*bytes_written = count;
 	return true;
 }
 
-- 
2.43.0


From 6f09669046ccbf166183da3c5e913a3cb0e7d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 190/256] fix: a file is only said to be written when all of it
 was, and its position moves by what was read or written

---
 base/dependencies/filesystem.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/base/dependencies/filesystem.hpp b/base/dependencies/filesystem.hpp
index 9d3676a..4253418 100644
--- a/base/dependencies/filesystem.hpp
+++ b/base/dependencies/filesystem.hpp
@@ -337,9 +337,10 @@ s64 file_tell( FileInfo* f )
 inline
 b32 file_read( FileInfo* f, void* buffer, ssize size )
 {
-	s64 cur_offset = file_tell( f );
-	b32 result     = file_read_at( f, buffer, size, file_tell( f ) );
-	file_seek( f, cur_offset + size );
+	s64   cur_offset = file_tell( f );
+	ssize bytes_read = 0;
+	b32   result     = file_read_at_check( f, buffer, size, cur_offset, & bytes_read );
+	file_seek( f, cur_offset + bytes_read );
 	return result;
 }
 
@@ -360,18 +361,21 @@ b32 file_read_at_check( FileInfo* f, void* buffer, ssize size, s64 offset, ssize
 inline
 b32 file_write( FileInfo* f, void const* buffer, ssize size )
 {
-	s64 cur_offset = file_tell( f );
-	b32 result     = file_write_at( f, buffer, size, file_tell( f ) );
+	s64   cur_offset    = file_tell( f );
+	ssize bytes_written = 0;
+	b32   result        = file_write_at_check( f, buffer, size, cur_offset, & bytes_written );
 
-	file_seek( f, cur_offset + size );
+	file_seek( f, cur_offset + bytes_written );
 
-	return result;
+	return result && bytes_written == size;
 }
 
 inline
 b32 file_write_at( FileInfo* f, void const* buffer, ssize size, s64 offset )
 {
-	return file_write_at_check( f, buffer, size, offset, NULL );
+	ssize bytes_written = 0;
+	b32   result        = file_write_at_check( f, buffer, size, offset, & bytes_written );
+	return result && bytes_written == size;
 }
 
 inline
-- 
2.43.0


From 667fb7c7ef76684e6c2cfd943385fc54362246a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 191/256] fix: the contents of a file that can not be read are
 empty instead of uninitialised

---
 base/dependencies/filesystem.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 2cebd02..322f522 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -471,19 +471,29 @@ FileContents file_read_contents( AllocatorInfo a, b32 zero_terminate, char const
 	FileInfo     file  ;
 
 	result.allocator = a;
+	result.data      = nullptr;
+	result.size      = 0;
 
 	if ( file_open( &file, filepath ) == EFileError_NONE )
 	{
 		ssize fsize = scast( ssize , file_size( &file ));
 		if ( fsize > 0 )
 		{
+			ssize bytes_read = 0;
 			result.data = alloc( a, zero_terminate ? fsize + 1 : fsize );
-			result.size = fsize;
-			file_read_at( &file, result.data, result.size, 0 );
-			if ( zero_terminate )
+			if ( result.data && file_read_at_check( &file, result.data, fsize, 0, & bytes_read ) )
 			{
-				u8* str      = rcast( u8*, result.data);
-				str[ fsize ] = '\0';
+				result.size = bytes_read;
+				if ( zero_terminate )
+				{
+					u8* str           = rcast( u8*, result.data);
+					str[ bytes_read ] = '\0';
+				}
+			}
+			else if ( result.data )
+			{
+				allocator_free( a, result.data );
+				result.data = nullptr;
 			}
 		}
 		file_close( &file );
-- 
2.43.0


From 88f2dbefe526cf25dd92270bb82523467b8cc6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 192/256] fix: a builder whose file can not be opened or
 written reports it and stays usable

---
 base/auxiliary/builder.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 2fc09f7..a988d74 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -8,17 +8,17 @@ Builder builder_open( char const* path )
 {
 	Builder result;
 
+	Context* ctx = get_context();
+	GEN_ASSERT_NOT_NULL(ctx);
+	result.Buffer = strbuilder_make_reserve( ctx->Allocator_Temp, ctx->InitSize_BuilderBuffer );
+
 	FileError error = file_open_mode( & result.File, EFileMode_WRITE, path );
 	if ( error != EFileError_NONE )
 	{
-		log_failure( "gen::File::open - Could not open file: %s", path);
+		log_failure( "gen::File::open - Could not open file: %s\n", path);
 		return result;
 	}
 
-	Context* ctx = get_context();
-	GEN_ASSERT_NOT_NULL(ctx);
-	result.Buffer = strbuilder_make_reserve( ctx->Allocator_Temp, ctx->InitSize_BuilderBuffer );
-
 	// log_fmt("$Builder - Opened file: %s\n", result.File.filename );
 	return result;
 }
@@ -49,8 +49,9 @@ void builder_write(Builder* builder)
 
 	if ( result == false )
 		log_failure("gen::File::write - Failed to write to file: %s\n", file_name( & builder->File ) );
+	else
+		log_fmt( "Generated: %s\n", file_name( & builder->File ) );
 
-	log_fmt( "Generated: %s\n", builder->File.filename );
 	file_close( & builder->File );
 	strbuilder_free(& builder->Buffer);
 }
-- 
2.43.0


From 1790be16ce4c22ad33a2dab010e801dc6ea5d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 193/256] fix: a builder pads with the number of lines it is
 asked for

---
 base/auxiliary/builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index a988d74..ac45274 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -25,7 +25,8 @@ Builder builder_open( char const* path )
 
 void builder_pad_lines( Builder* builder, s32 num )
 {
-	strbuilder_append_str( & builder->Buffer, txt("\n") );
+	for ( s32 line = 0; line < num; ++ line )
+		strbuilder_append_str( & builder->Buffer, txt("\n") );
 }
 
 void builder_print( Builder* builder, Code code )
-- 
2.43.0


From 333e896d5ef19dde65bfcc0ad11b510518691c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 194/256] fix: nothing is read from or written to a file that
 is not open, not even nothing

---
 base/dependencies/filesystem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 322f522..95895a1 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -202,8 +202,8 @@ GEN_FILE_READ_AT_PROC( _posix_file_read )
 {
 	// unused( stop_at_newline );
 	ssize total = 0;
-	b32   ok    = true;
-	while ( total < size )
+	b32   ok    = fd.i >= 0;
+	while ( ok && total < size )
 	{
 		ssize res = pread( scast( int, fd.i), scast( u8*, buffer) + total, size - total, offset + total );
 		if ( res < 0 && errno == EINTR )
@@ -223,10 +223,10 @@ internal
 GEN_FILE_WRITE_AT_PROC( _posix_file_write )
 {
 	ssize total       = 0;
-	b32   ok          = true;
+	b32   ok          = fd.i >= 0;
 	s64   curr_offset = 0;
 	_posix_file_seek( fd, 0, ESeekWhence_CURRENT, &curr_offset );
-	while ( total < size )
+	while ( ok && total < size )
 	{
 		void const* rest = scast( u8 const*, buffer) + total;
 		ssize       res;
-- 
2.43.0


From 56cd2df7d52d536cff77c7f6997da63a07a2f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 195/256] fix: scanning a file stops at its end

---
 base/auxiliary/scanner.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index de0fd7b..82ca75f 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -21,8 +21,12 @@ Code scan_file( char const* path )
 	}
 
 	StrBuilder str = strbuilder_make_reserve( get_context()->Allocator_Temp, fsize );
-		file_read( & file, str, fsize );
+		if ( ! file_read( & file, str, fsize ) )
+		{
+			GEN_FATAL("scan_file: Could not read: %s", path );
+		}
 		strbuilder_get_header(str)->Length = fsize;
+		str[fsize] = '\0';
 
 	// Skip INTELLISENSE_DIRECTIVES preprocessor blocks
 	// Its designed so that the directive should be the first thing in the file.
@@ -30,7 +34,7 @@ Code scan_file( char const* path )
 	{
 	#define current (*scanner)
 	#define matched    0
-	#define move_fwd() do { ++ scanner; -- left; } while (0)
+	#define move_fwd() do { if ( left > 0 ) { ++ scanner; -- left; } } while (0)
 		const Str directive_start = txt( "ifdef" );
 		const Str directive_end   = txt( "endif" );
 		const Str def_intellisense = txt("INTELLISENSE_DIRECTIVES" );
@@ -49,7 +53,7 @@ Code scan_file( char const* path )
 
 				if ( ! found_directive )
 				{
-					if ( left && c_str_compare_len( scanner, directive_start.Ptr, directive_start.Len ) == matched )
+					if ( left >= directive_start.Len && c_str_compare_len( scanner, directive_start.Ptr, directive_start.Len ) == matched )
 					{
 						scanner += directive_start.Len;
 						left    -= directive_start.Len;
@@ -57,7 +61,7 @@ Code scan_file( char const* path )
 						while ( left && char_is_space( current ) )
 							move_fwd();
 
-						if ( left && c_str_compare_len( scanner, def_intellisense.Ptr, def_intellisense.Len ) == matched )
+						if ( left >= def_intellisense.Len && c_str_compare_len( scanner, def_intellisense.Ptr, def_intellisense.Len ) == matched )
 						{
 							scanner += def_intellisense.Len;
 							left    -= def_intellisense.Len;
@@ -77,7 +81,7 @@ Code scan_file( char const* path )
 					continue;
 				}
 
-				if ( left && c_str_compare_len( scanner, directive_end.Ptr, directive_end.Len ) == matched )
+				if ( left >= directive_end.Len && c_str_compare_len( scanner, directive_end.Ptr, directive_end.Len ) == matched )
 				{
 					scanner += directive_end.Len;
 					left    -= directive_end.Len;
@@ -91,16 +95,9 @@ Code scan_file( char const* path )
 						move_fwd();
 
 					// sptr skip_size = fsize - left;
-					if ( (scanner + 2) >= ( (char const*) str + fsize ) )
-					{
-						mem_move( str, scanner, left );
-						strbuilder_get_header(str)->Length = left;
-						break;
-					}
-
 					mem_move( str, scanner, left );
 					strbuilder_get_header(str)->Length = left;
-
+					str[left] = '\0';
 					break;
 				}
 			}
-- 
2.43.0


From c9a10243929f90f47473ee7377d0f2751d1511fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 196/256] fix: columns are only taken from a table that was
 read and has them

---
 base/auxiliary/scanner.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index 82ca75f..58618ed 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -125,8 +125,12 @@ CSV_Column parse_csv_one_column(AllocatorInfo allocator, char const* path) {
 	FileContents content   = file_read_contents( allocator, file_zero_terminate, path );
 	Arena        csv_arena = arena_init_from_memory(content.data, content.size);
 
-	CSV_Column result;
-	csv_parse( & result.ADT, rcast(char*, content.data), allocator, false );
+	CSV_Column result = { 0 };
+	if ( content.data == nullptr || csv_parse( & result.ADT, rcast(char*, content.data), allocator, false ) || array_num(result.ADT.nodes) < 1 )
+	{
+		log_failure( "parse_csv_one_column: %s does not have a column\n", path );
+		return result;
+	}
 	result.Content = result.ADT.nodes[0].nodes;
 	return result;
 }
@@ -135,8 +139,12 @@ CSV_Columns2 parse_csv_two_columns(AllocatorInfo allocator, char const* path) {
 	FileContents content   = file_read_contents( allocator, file_zero_terminate, path );
 	Arena        csv_arena = arena_init_from_memory(content.data, content.size);
 
-	CSV_Columns2 result;
-	csv_parse( & result.ADT, rcast(char*, content.data), allocator, false );
+	CSV_Columns2 result = { 0 };
+	if ( content.data == nullptr || csv_parse( & result.ADT, rcast(char*, content.data), allocator, false ) || array_num(result.ADT.nodes) < 2 )
+	{
+		log_failure( "parse_csv_two_columns: %s does not have two columns\n", path );
+		return result;
+	}
 	result.Col_1 = result.ADT.nodes[0].nodes;
 	result.Col_2 = result.ADT.nodes[1].nodes;
 	return result;
-- 
2.43.0


From 130a75471f4bd3faaabfa0e72d0d5bd15c1419de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 197/256] fix: a memory stream can be a clone of nothing

---
 base/dependencies/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 95895a1..4006684 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -580,7 +580,7 @@ b8 file_stream_open( FileInfo* file, AllocatorInfo allocator, u8* buffer, ssize
 	d->cursor    = 0;
 	if ( d->flags & EFileStream_CLONE_WRITABLE )
 	{
-		Array(u8) arr = array_init_reserve(u8, allocator, size );
+		Array(u8) arr = array_init_reserve(u8, allocator, max( 1, size ) );
 		d->buf = arr;
 
 		if ( ! d->buf )
-- 
2.43.0


From a8078537ec8729139d601fd52a3941f552e7c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 198/256] fix: the last cell of a row can be empty, and columns
 can be separated by white space

---
 base/dependencies/parsing.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ce13e23..ce5235d 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -826,9 +826,12 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 	do
 	{
 		char delimiter = 0;
-		currentChar = ccast( char*, c_str_trim( currentChar, false ));
 
-		if ( *currentChar == 0 )
+		// Between rows empty lines are skipped too, within a row the line ends with what is an empty cell.
+		while ( char_is_space( *currentChar ) && *currentChar != delim && ( columnIndex == 0 || *currentChar != '\n' ) )
+			++currentChar;
+
+		if ( *currentChar == 0 && columnIndex == 0 )
 			break;
 
 		ADT_Node rowItem = { 0 };
@@ -869,7 +872,9 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			}
 
 			*endChar    = 0;
-			currentChar = ccast( char*, c_str_trim( endChar + 1, true ));
+			currentChar = endChar + 1;
+			while ( char_is_space( *currentChar ) && *currentChar != delim && *currentChar != '\n' )
+				++currentChar;
 			delimiter   = * currentChar;
 
 			/* unescape escaped quotes (so that unescaped text escapes :) */
@@ -886,7 +891,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 				while ( *escapedChar );
 			}
 		}
-		else if ( *currentChar == delim )
+		else if ( *currentChar == delim || *currentChar == '\n' || *currentChar == 0 )
 		{
 			delimiter      = * currentChar;
 			rowItem.string = "";
@@ -906,7 +911,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 
 			if ( * endChar )
 			{
-				currentChar = ccast( char*, c_str_trim( endChar, true ));
+				currentChar = endChar;
 
 				while ( char_is_space( *( endChar - 1 ) ) )
 				{
@@ -981,7 +986,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 				currentChar++;
 		}
 	}
-	while ( *currentChar );
+	while ( *currentChar || columnIndex > 0 );
 
 	if (array_num( root->nodes) == 0 )
 	{
-- 
2.43.0


From 699b2dd31dbdf1109fde58d3e2208832d97e3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 199/256] fix: a table whose rows differ in their number of
 cells is an error, whichever is longer

---
 base/dependencies/parsing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ce5235d..eafa1e5 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -821,7 +821,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 	char* endChar;
 
 	ssize columnIndex       = 0;
-	ssize totalColumnIndex = 0;
+	ssize totalColumnIndex = -1; // Set by the first row.
 
 	do
 	{
@@ -970,7 +970,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 		else if ( delimiter == '\n' || delimiter == 0 )
 		{
 			/* check if number of rows is not mismatched */
-			if ( totalColumnIndex < columnIndex )
+			if ( totalColumnIndex < 0 )
 				totalColumnIndex = columnIndex;
 
 			else if ( totalColumnIndex != columnIndex )
-- 
2.43.0


From 631a0fd511f45dc64ac471ede69ff77260e2a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 200/256] fix: text between a quoted cell and what separates it
 is an error instead of another cell

---
 base/dependencies/parsing.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index eafa1e5..ceb66d4 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -985,6 +985,12 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			if ( delimiter != 0 )
 				currentChar++;
 		}
+		else
+		{
+			GEN_CSV_ASSERT( "unexpected text after a quoted cell" );
+			error = ECSV_Error__INTERNAL;
+			return error;
+		}
 	}
 	while ( *currentChar || columnIndex > 0 );
 
-- 
2.43.0


From 9ab50165a4aa72183bc01ac841743c370d02410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 201/256] fix: an empty quoted cell does not unescape what
 comes after it

---
 base/dependencies/parsing.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ceb66d4..7004905 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -880,7 +880,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			/* unescape escaped quotes (so that unescaped text escapes :) */
 			{
 				char* escapedChar = beginChar;
-				do
+				while ( *escapedChar )
 				{
 					if ( *escapedChar == '"' && *( escapedChar + 1 ) == '"' )
 					{
@@ -888,7 +888,6 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 					}
 					escapedChar++;
 				}
-				while ( *escapedChar );
 			}
 		}
 		else if ( *currentChar == delim || *currentChar == '\n' || *currentChar == 0 )
-- 
2.43.0


From 410af3557f0dd5e22c9181e614054a58da82d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 202/256] fix: a table that only has a header is written

---
 base/dependencies/parsing.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 7004905..6ce579d 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -1075,11 +1075,8 @@ void csv_write_delimiter( FileInfo* file, CSV_Object* obj, char delimiter )
 	if ( cols == 0 )
 		return;
 
-	ssize rows = array_num(obj->nodes[ 0 ].nodes);
-	if ( rows == 0 )
-		return;
-
-	b32 has_headers = obj->nodes[ 0 ].name != NULL;
+	ssize rows        = array_num(obj->nodes[ 0 ].nodes);
+	b32   has_headers = obj->nodes[ 0 ].name != NULL;
 
 	if ( has_headers )
 	{
-- 
2.43.0


From da72c739e5fe73ebb6c5375303203f802fb255e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 203/256] fix: the children of a node that moves keep it as
 their parent

---
 base/dependencies/parsing.cpp | 42 +++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 6ce579d..387ed2d 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -273,6 +273,21 @@ ADT_Node* adt_query( ADT_Node* node, char const* uri )
 	return found_node;
 }
 
+// The nodes of a container move in memory when it changes: what is below them has to follow.
+internal
+void _adt_relink( ADT_Node* parent )
+{
+	for ( ssize i = 0; i < scast(ssize, array_num(parent->nodes)); i++ )
+	{
+		ADT_Node* child = parent->nodes + i;
+		if ( ( child->type != EADT_TYPE_OBJECT && child->type != EADT_TYPE_ARRAY ) || ! child->nodes )
+			continue;
+
+		for ( ssize j = 0; j < scast(ssize, array_num(child->nodes)); j++ )
+			child->nodes[ j ].parent = child;
+	}
+}
+
 ADT_Node* adt_alloc_at( ADT_Node* parent, ssize index )
 {
 	if ( ! parent || ( parent->type != EADT_TYPE_OBJECT && parent->type != EADT_TYPE_ARRAY ) )
@@ -291,6 +306,8 @@ ADT_Node* adt_alloc_at( ADT_Node* parent, ssize index )
 	if ( ! array_append_at( parent->nodes, o, index ) )
 		return NULL;
 
+	_adt_relink( parent );
+
 	ADT_Node* node = & parent->nodes[index];
 	return node;
 }
@@ -343,13 +360,31 @@ ADT_Node* adt_move_node_at( ADT_Node* node, ADT_Node* new_parent, ssize index )
 {
 	GEN_ASSERT_NOT_NULL( node );
 	GEN_ASSERT_NOT_NULL( new_parent );
+	b32   has_parent = node->parent != NULL;
+	b32   same       = node->parent == new_parent;
+	ssize old_index  = has_parent ? pointer_diff( node->parent->nodes, node ) / size_of( ADT_Node ) : 0;
+
+	ADT_Node* new_node = adt_alloc_at( new_parent, index );
+	if ( ! new_node )
+		return NULL;
+
+	// The allocation moves the nodes of the new parent.
+	if ( same )
+	{
+		old_index += old_index >= index ? 1 : 0;
+		node       = new_parent->nodes + old_index;
+	}
 	ADT_Node* old_parent = node->parent;
-	ADT_Node* new_node   = adt_alloc_at( new_parent, index );
 	*new_node            = *node;
 	new_node->parent     = new_parent;
-	if ( old_parent )
+	_adt_relink( new_parent );
+
+	if ( has_parent )
 	{
+		node->parent = old_parent;
 		adt_remove_node( node );
+		if ( same && old_index < index )
+			new_node -= 1;
 	}
 	return new_node;
 }
@@ -375,6 +410,8 @@ void adt_swap_nodes( ADT_Node* node, ADT_Node* other_node )
 	other_parent->nodes[ index2 ].parent = parent;
 	parent->nodes[ index ]               = other_parent->nodes[ index2 ];
 	other_parent->nodes[ index2 ]        = temp;
+	_adt_relink( parent );
+	_adt_relink( other_parent );
 }
 
 void adt_remove_node( ADT_Node* node )
@@ -384,6 +421,7 @@ void adt_remove_node( ADT_Node* node )
 	ADT_Node* parent = node->parent;
 	ssize        index  = ( pointer_diff( parent->nodes, node ) / size_of( ADT_Node ) );
 	array_remove_at( parent->nodes, index );
+	_adt_relink( parent );
 }
 
 ADT_Node* adt_append_obj( ADT_Node* parent, char const* name )
-- 
2.43.0


From d4758990f5d4b470a30efe19b2995dfcc70d1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 204/256] fix: white space after the last cell of a table is no
 part of it, as after any other cell

---
 base/dependencies/parsing.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 387ed2d..b222da8 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -946,23 +946,14 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			}
 			while ( * endChar && * endChar != delim && * endChar != '\n' );
 
-			if ( * endChar )
-			{
-				currentChar = endChar;
-
-				while ( char_is_space( *( endChar - 1 ) ) )
-				{
-					endChar--;
-				}
+			currentChar = endChar;
+			delimiter   = * currentChar;
 
-				delimiter = * currentChar;
-				* endChar = 0;
-			}
-			else
+			while ( char_is_space( *( endChar - 1 ) ) )
 			{
-				delimiter   = 0;
-				currentChar = endChar;
+				endChar--;
 			}
+			* endChar = 0;
 
 			/* check if number and process if so */
 			b32   skip_number = false;
-- 
2.43.0


From aaef7b788120a5e52f57f94b36a906b18ebe5b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 205/256] fix: digits a number has no room for are refused
 instead of written past it

---
 base/dependencies/parsing.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index b222da8..57e5ebc 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -528,6 +528,7 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 
 	ssize   ib        = 0;
 	char buf[ 48 ] = { 0 };
+	ssize const ib_max = size_of( buf ) - 2; // Keeps the room for a digit and the terminator.
 
 	if ( *e == '+' )
 		++e;
@@ -544,6 +545,8 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 		buf[ ib++ ] = '0';
 		do
 		{
+			if ( ib >= ib_max )
+				return ++base_str;
 			buf[ ib++ ] = *e;
 		} while ( char_is_digit( *++e ) );
 	}
@@ -562,6 +565,8 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 
 		while ( char_is_hex_digit( *e ) || char_to_lower( *e ) == 'x' )
 		{
+			if ( ib >= ib_max )
+				return ++base_str;
 			buf[ ib++ ] = *e++;
 		}
 
@@ -573,6 +578,8 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 
 			do
 			{
+				if ( ib >= ib_max )
+					return ++base_str;
 				buf[ ib++ ] = *e;
 				++step;
 			} while ( char_is_digit( *++e ) );
@@ -609,6 +616,8 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 			}
 			while ( char_is_digit( *e ) )
 			{
+				if ( expi >= size_of( expbuf ) - 1 )
+					return ++base_str;
 				expbuf[ expi++ ] = *e++;
 			}
 		}
-- 
2.43.0


From f6d11c996571dca7777b3a9cd626e669e64d6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 206/256] fix: numbers are printed with the exponent they were
 parsed with, and with one sign

---
 base/dependencies/parsing.cpp | 3 ++-
 base/dependencies/parsing.hpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 57e5ebc..08067e1 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -704,7 +704,8 @@ ADT_Error adt_print_number( FileInfo* file, ADT_Node* node )
 	}
 
 #ifndef GEN_PARSER_DISABLE_ANALYSIS
-	if ( node->neg_zero )
+	// A real number that is printed by its value brings its sign along.
+	if ( node->neg_zero && ( node->type != EADT_TYPE_REAL || node->props != EADT_PROPS_NONE ) )
 	{
 		_adt_fprintf( file, "-" );
 	}
diff --git a/base/dependencies/parsing.hpp b/base/dependencies/parsing.hpp
index 3ffe4ca..216751a 100644
--- a/base/dependencies/parsing.hpp
+++ b/base/dependencies/parsing.hpp
@@ -98,8 +98,8 @@ struct ADT_Node
 			/* number analysis */
 			s32 base;
 			s32 base2;
-			u8  base2_offset : 4;
-			s8  exp          : 4;
+			u8  base2_offset;
+			s8  exp;
 			u8  neg_zero     : 1;
 			u8  lead_digit   : 1;
 #endif
-- 
2.43.0


From 9e846905db70264c2b4e2ce0c65d1b335ea2071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:40 +0000
Subject: [PATCH 207/256] fix: real numbers of any size and with any number of
 decimals are printed

---
 base/dependencies/printing.cpp | 68 +++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 79212b9..56cd988 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -146,6 +146,48 @@ internal ssize _print_u64( char* text, ssize max_len, _format_info* info, u64 va
 	return _print_string( text, max_len, info, num );
 }
 
+// The digits of a real number that is too large for an integer.
+internal ssize _print_f64_large( char* text, ssize max_len, f64 value )
+{
+	u32   limbs[ 40 ] = { 0 }; // Of nine digits each
+	ssize num         = 0;
+	s32   exponent    = 0;
+	char  digits[ 40 * 9 + 1 ];
+	ssize begin       = size_of( digits ) - 1;
+
+	// Only the exponent changes, none of these is rounded.
+	for ( ; value >= 9223372036854775808.0; value *= 0.5 )
+		exponent++;
+
+	for ( u64 mantissa = scast( u64, value); mantissa; mantissa /= 1000000000 )
+		limbs[ num++ ] = scast( u32, mantissa % 1000000000 );
+
+	while ( exponent-- > 0 )
+	{
+		u32 carry = 0;
+		for ( ssize i = 0; i < num; i++ )
+		{
+			u32 doubled = limbs[ i ] * 2 + carry;
+			limbs[ i ]  = doubled % 1000000000;
+			carry       = doubled / 1000000000;
+		}
+		if ( carry )
+			limbs[ num++ ] = carry;
+	}
+
+	digits[ begin ] = '\0';
+	for ( ssize i = 0; i < num; i++ )
+	{
+		u32 limb = limbs[ i ];
+		for ( s32 digit = 0; digit < 9 && ( limb || i + 1 < num ); digit++ )
+		{
+			digits[ --begin ]  = scast( char, '0' + limb % 10 );
+			limb              /= 10;
+		}
+	}
+	return _print_string( text, max_len, NULL, digits + begin );
+}
+
 internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is_hexadecimal, f64 arg )
 {
 	// TODO: Handle exponent notation
@@ -168,9 +210,25 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 			text++;
 		}
 
-		value  = scast( u64, arg);
-		len    = _print_u64( text, remaining, NULL, value );
-		text  += len;
+		b32 is_number = arg <= 1.7976931348623157e308; // Neither is infinity, nor what is not a number.
+		if ( ! is_number )
+		{
+			len = _print_string( text, remaining, NULL, arg != arg ? "nan" : "inf" );
+			arg = 0;
+			value = 0;
+		}
+		else if ( arg >= 9223372036854775808.0 )
+		{
+			len   = _print_f64_large( text, remaining, arg );
+			arg   = 0; // A number of that size is whole.
+			value = 0;
+		}
+		else
+		{
+			value = scast( u64, arg);
+			len   = _print_u64( text, remaining, NULL, value );
+		}
+		text += len;
 
 		if ( len >= remaining )
 			remaining = min( remaining, 1 );
@@ -181,9 +239,9 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 		if ( info->precision < 0 )
 			info->precision = 6;
 
-		if ( ( info->flags & GEN_FMT_ALT ) || info->precision > 0 )
+		if ( is_number && ( ( info->flags & GEN_FMT_ALT ) || info->precision > 0 ) )
 		{
-			s64 mult = 10;
+			f64 mult = 10;
 			if ( remaining > 1 )
 				*text = '.', remaining--;
 			text++;
-- 
2.43.0


From b1833300bd1ef0ae21944f91798d082d96827662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 208/256] fix: a hexadecimal number is read with 0X as with 0x

---
 base/dependencies/string_ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/string_ops.cpp b/base/dependencies/string_ops.cpp
index 8446d7a..76f8df9 100644
--- a/base/dependencies/string_ops.cpp
+++ b/base/dependencies/string_ops.cpp
@@ -18,7 +18,7 @@ ssize _scan_zpl_i64( const char* text, s32 base, s64* value )
 		text++;
 	}
 
-	if ( base == 16 && c_str_compare_len( text, "0x", 2 ) == 0 )
+	if ( base == 16 && ( c_str_compare_len( text, "0x", 2 ) == 0 || c_str_compare_len( text, "0X", 2 ) == 0 ) )
 		text += 2;
 
 	for ( ;; )
@@ -63,7 +63,7 @@ s64 c_str_to_i64( const char* str, char** end_ptr, s32 base )
 
 	if ( ! base )
 	{
-		if ( ( c_str_len( str ) > 2 ) && ( c_str_compare_len( str, "0x", 2 ) == 0 ) )
+		if ( ( c_str_len( str ) > 2 ) && ( c_str_compare_len( str, "0x", 2 ) == 0 || c_str_compare_len( str, "0X", 2 ) == 0 ) )
 			base = 16;
 		else
 			base = 10;
-- 
2.43.0


From 530ba1dd4707db497fbf3e2a063f059a878c8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 209/256] fix: text with the checksum of a keyword is not taken
 for the keyword

---
 base/components/gen/especifier.hpp | 2 +-
 base/components/gen/etoktype.hpp   | 2 +-
 base/helpers/base_codegen.hpp      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/gen/especifier.hpp b/base/components/gen/especifier.hpp
index 3ea18f1..0c1a3f0 100644
--- a/base/components/gen/especifier.hpp
+++ b/base/components/gen/especifier.hpp
@@ -104,7 +104,7 @@ inline Specifier str_to_specifier(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Spec_NumSpecifiers; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(spec_to_str((Specifier)index), str))
 			return (Specifier)index;
 	}
 	return Spec_Invalid;
diff --git a/base/components/gen/etoktype.hpp b/base/components/gen/etoktype.hpp
index 1b2c17c..0abb7e3 100644
--- a/base/components/gen/etoktype.hpp
+++ b/base/components/gen/etoktype.hpp
@@ -230,7 +230,7 @@ inline TokType str_to_toktype(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Tok_NumTokens; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(toktype_to_str((TokType)index), str))
 			return (TokType)index;
 	}
 	return Tok_Invalid;
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 54b560b..bcfc8bc 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -280,7 +280,7 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 
 			for ( u32 index = 0; index < Spec_NumSpecifiers; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( spec_to_str( (Specifier)index ), str ) )
 					return (Specifier)index;
 			}
 
@@ -437,7 +437,7 @@ CodeBody gen_etoktype( char const* etok_path, char const* attr_path, bool use_c_
 
 			for ( u32 index = 0; index < Tok_NumTokens; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( toktype_to_str( (TokType)index ), str ) )
 					return (TokType)index;
 			}
 
-- 
2.43.0


From d084af66934f318006be69c64b503219e4431544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 210/256] fix: the keyword of a forward declared class is class

---
 base/components/gen/ecodetypes.hpp | 2 +-
 base/enums/ECodeTypes.csv          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/gen/ecodetypes.hpp b/base/components/gen/ecodetypes.hpp
index 139e615..7d2b088 100644
--- a/base/components/gen/ecodetypes.hpp
+++ b/base/components/gen/ecodetypes.hpp
@@ -154,7 +154,7 @@ inline Str codetype_to_keyword_str(CodeType type)
 		{ "public",          sizeof("public") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "class",           sizeof("class") - 1           },
-		{ "clsss",           sizeof("clsss") - 1           },
+		{ "class",           sizeof("class") - 1           },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
diff --git a/base/enums/ECodeTypes.csv b/base/enums/ECodeTypes.csv
index d1ca2d6..e3f31aa 100644
--- a/base/enums/ECodeTypes.csv
+++ b/base/enums/ECodeTypes.csv
@@ -7,7 +7,7 @@ Access_Protected,    "protected"
 Access_Public,       "public"
 PlatformAttributes,  "__NA__"
 Class,               "class"
-Class_Fwd,           "clsss"
+Class_Fwd,           "class"
 Class_Body,          "__NA__"
 Constructor,         "__NA__"
 Constructor_Fwd,     "__NA__"
-- 
2.43.0


From a730c0724c277a9bdf815187585166462ebac52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 211/256] fix: the arrays of the C library keep an item that is
 inserted and make room for all of them

---
 gen_c_library/components/containers.array.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index a7314b6..e4e57d5 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -159,11 +159,8 @@ CodeBody gen_array( Str type, Str array_name )
 			GEN_ASSERT(* self != nullptr);
 			ArrayHeader* header = array_get_header( * self );
 
-			if ( idx >= header->Num )
-				idx = header->Num - 1;
-
-			if ( idx < 0 )
-				idx = 0;
+			if ( idx > header->Num )
+				idx = header->Num;
 
 			if ( header->Capacity < header->Num + 1 )
 			{
@@ -176,6 +173,7 @@ CodeBody gen_array( Str type, Str array_name )
 			<array_type> target = (* self) + idx;
 
 			mem_move( target + 1, target, (header->Num - idx) * sizeof(<type>) );
+			* target = item;
 			header->Num++;
 
 			return true;
@@ -193,7 +191,7 @@ CodeBody gen_array( Str type, Str array_name )
 				return array_append_items( * self, items, item_num );
 			}
 
-			if ( item_num > header->Capacity )
+			if ( header->Num + item_num > header->Capacity )
 			{
 				if ( ! array_grow( self, item_num + header->Capacity ) )
 					return false;
-- 
2.43.0


From fa772920885e3ee04f315e8c955cac753eff6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 212/256] fix: the arrays of the C library release the block
 they grew out of

---
 gen_c_library/components/containers.array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index e4e57d5..d47d695 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -252,7 +252,7 @@ CodeBody gen_array( Str type, Str array_name )
 			GEN_ASSERT(* self != nullptr);
 			ArrayHeader* header = array_get_header( * self );
 			allocator_free( header->Allocator, header );
-			self = NULL;
+			* self = NULL;
 		}
 
 		inline
@@ -360,7 +360,7 @@ CodeBody gen_array( Str type, Str array_name )
 			mem_move( new_header, header, sizeof( ArrayHeader ) + sizeof( <type> ) * header->Num );
 			new_header->Capacity = new_capacity;
 
-			allocator_free( header->Allocator, & header );
+			allocator_free( header->Allocator, header );
 
 			* self = cast( <type>*, new_header + 1 );
 			return true;
-- 
2.43.0


From 8c8d55eca8e6246bd2d25e765eb7d097522048a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 213/256] fix: the arrays of the C library can be reserved and
 resized to nothing, as those of the base library

---
 gen_c_library/components/containers.array.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index d47d695..d99170d 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -305,7 +305,6 @@ CodeBody gen_array( Str type, Str array_name )
 		{
 			GEN_ASSERT(  self != nullptr);
 			GEN_ASSERT(* self != nullptr);
-			GEN_ASSERT(new_capacity > 0);
 			ArrayHeader* header = array_get_header( * self );
 
 			if ( header->Capacity < new_capacity )
@@ -319,7 +318,6 @@ CodeBody gen_array( Str type, Str array_name )
 		{
 			GEN_ASSERT(  self != nullptr);
 			GEN_ASSERT(* self != nullptr);
-			GEN_ASSERT(num > 0);
 			ArrayHeader* header = array_get_header( * self );
 
 			if ( header->Capacity < num )
@@ -339,7 +337,6 @@ CodeBody gen_array( Str type, Str array_name )
 		{
 			GEN_ASSERT(  self != nullptr);
 			GEN_ASSERT(* self != nullptr);
-			GEN_ASSERT( new_capacity > 0 );
 			ArrayHeader* header = array_get_header( * self );
 
 			if ( new_capacity == header->Capacity )
-- 
2.43.0


From ba4fa87d96b59f9d68d5bd69f43290d9996ca283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 214/256] fix: the hash tables of the C library find their
 first entry

---
 gen_c_library/components/containers.hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 8303eb7..3271aa1 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -149,7 +149,7 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			GEN_ASSERT_NOT_NULL(self.Hashes);
 			GEN_ASSERT_NOT_NULL(self.Entries);
 			ssize idx = <fn>__find( self, key ).EntryIndex;
-			if ( idx > 0 )
+			if ( idx >= 0 )
 				return & self.Entries[idx].Value;
 
 			return nullptr;
-- 
2.43.0


From f637aee318e69535d39d294b51731b79738dfb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 215/256] fix: the hash tables of the C library are rehashed
 from their entries, to the size asked for

---
 gen_c_library/components/containers.hashtable.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 3271aa1..9c6607a 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -192,17 +192,14 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			GEN_ASSERT_NOT_NULL(self->Hashes);
 			GEN_ASSERT_NOT_NULL(self->Entries);
 			GEN_ASSERT( new_num > 0 );
-			ssize idx;
 			ssize last_added_index;
 
 			ArrayHeader* old_hash_header    = array_get_header( self->Hashes );
 			ArrayHeader* old_entries_header = array_get_header( self->Entries );
 
-			<tbl_type> new_tbl = hashtable_init_reserve( <type>, old_hash_header->Allocator, old_hash_header->Num );
-
-			ArrayHeader* new_hash_header = array_get_header( new_tbl.Hashes );
+			<tbl_type> new_tbl = hashtable_init_reserve( <type>, old_hash_header->Allocator, new_num );
 
-			for (ssize idx = 0; idx < cast(ssize, old_hash_header->Num); ++idx)
+			for (ssize idx = 0; idx < cast(ssize, old_entries_header->Num); ++idx)
 			{
 				<entry_type>* entry = & self->Entries[idx];
 				HT_FindResult find_result;
@@ -277,7 +274,7 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			ssize         idx;
 			HT_FindResult find_result;
 
-			if ( array_get_header( self->Hashes )->Num == 0 )
+			if ( <fn>__full( * self ) )
 				hashtable_grow( self );
 
 			find_result = <fn>__find( * self, key );
-- 
2.43.0


From cf3ecb80807e6038584b15ac0b46f9c787649bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 216/256] fix: removing from a hash table of the C library can
 be written for every type of table

---
 gen_c_library/components/containers.hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 9c6607a..1ab1bc4 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -382,6 +382,7 @@ R"(#define GENERIC_SLOT_<slot>__hashtable_init          <type>,      <tbl_type>_
 #define GENERIC_SLOT_<slot>__hashtable_grow             <tbl_type>*, <tbl_type>_grow
 #define GENERIC_SLOT_<slot>__hashtable_rehash           <tbl_type>*, <tbl_type>_rehash
 #define GENERIC_SLOT_<slot>__hashtable_rehash_fast      <tbl_type>,  <tbl_type>_rehash_fast
+#define GENERIC_SLOT_<slot>__hashtable_remove           <tbl_type>,  <tbl_type>_remove
 #define GENERIC_SLOT_<slot>__hashtable_remove_entry     <tbl_type>,  <tbl_type>_remove_entry
 #define GENERIC_SLOT_<slot>__hashtable_set              <tbl_type>,  <tbl_type>_set
 #define GENERIC_SLOT_<slot>__hashtable_slot             <tbl_type>,  <tbl_type>_slot
-- 
2.43.0


From f5d12bd839fdf24d9758663f96361758826fa545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 217/256] fix: bodies are serialized by following their
 entries, in the C library too

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index afb69b8..e2c8632 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -41,7 +41,7 @@ void body_to_strbuilder_ref( CodeBody body, StrBuilder* result )
 		}
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 }
 
-- 
2.43.0


From c17f0e60c0e0feefff297a2e403f2e17f8d99fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 218/256] fix: mfree releases to the heap allocator, in the C
 library too

---
 base/dependencies/memory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/memory.hpp b/base/dependencies/memory.hpp
index e840590..faff7e5 100644
--- a/base/dependencies/memory.hpp
+++ b/base/dependencies/memory.hpp
@@ -138,7 +138,7 @@ constexpr AllocatorInfo heap( void ) { AllocatorInfo allocator = { heap_allocato
 #define malloc( sz ) alloc( heap(), sz )
 
 //! Helper to free memory allocated by heap allocator.
-#define mfree( ptr ) free( heap(), ptr )
+#define mfree( ptr ) allocator_free( heap(), ptr )
 
 struct VirtualMemory
 {
-- 
2.43.0


From 78d29518d8067df83c7ad39427ae06295b0819e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 219/256] fix: the type of preprocessor conditionals keeps its
 name in the C library too

---
 gen_c_library/c_library.refactor | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen_c_library/c_library.refactor b/gen_c_library/c_library.refactor
index 4e1d247..cb427de 100644
--- a/gen_c_library/c_library.refactor
+++ b/gen_c_library/c_library.refactor
@@ -294,7 +294,7 @@ word EnumDecl, gen_EnumDecl
 word ModuleFlag,         gen_ModuleFlag
 word module_flag_to_str, gen_module_flag_to_str
 
-word EPreprocessCond, gen_EPreprocessCOnd
+word EPreprocessCond, gen_EPreprocessCond
 word ETypenameTag,    gen_ETypenameTag
 
 word CodeType, gen_CodeType
-- 
2.43.0


From 0d9a7653b7862dcec93497106d1a90882ba333d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:11 +0000
Subject: [PATCH 220/256] fix: the members of CodeClass have definitions

---
 base/components/code_types.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/components/code_types.hpp b/base/components/code_types.hpp
index bbf885b..b1a79d6 100644
--- a/base/components/code_types.hpp
+++ b/base/components/code_types.hpp
@@ -187,10 +187,10 @@ struct CodeClass
 {
 #if ! GEN_C_LIKE_CPP
 	Using_Code( CodeClass );
-	forceinline void       add_interface( CodeType interface );
-	forceinline StrBuilder to_strbuilder();
-	forceinline void       to_strbuilder_def( StrBuilder& result );
-	forceinline void       to_strbuilder_fwd( StrBuilder& result );
+	forceinline void       add_interface( CodeTypename interface );
+	forceinline StrBuilder to_strbuilder()                         { return class_to_strbuilder(* this); }
+	forceinline void       to_strbuilder_def( StrBuilder& result ) { return class_to_strbuilder_def(* this, & result); }
+	forceinline void       to_strbuilder_fwd( StrBuilder& result ) { return class_to_strbuilder_fwd(* this, & result); }
 #endif
 	Using_CodeOps( CodeClass );
 	forceinline operator Code() { return * rcast( Code*, this ); }
@@ -1057,6 +1057,8 @@ forceinline StrBuilder to_strbuilder       ( CodeBody body )
 forceinline void       to_strbuilder       ( CodeBody body, StrBuilder& result ) { return body_to_strbuilder_ref(body, & result); }
 forceinline void       to_strbuilder_export( CodeBody body, StrBuilder& result ) { return body_to_strbuilder_export(body, & result); }
 
+forceinline void CodeClass::add_interface( CodeTypename interface ) { return class_add_interface(* this, interface); }
+
 forceinline void       add_interface    ( CodeClass self, CodeTypename interface ) { return class_add_interface(self, interface); }
 forceinline StrBuilder to_strbuilder    ( CodeClass self )                         { return class_to_strbuilder(self); }
 forceinline void       to_strbuilder_def( CodeClass self, StrBuilder& result )     { return class_to_strbuilder_def(self, & result); }
-- 
2.43.0


From 531b6aa5e52ee2fd4acf9990e636fe57229a7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 221/256] fix: align_forward_by_value has a definition

---
 base/dependencies/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/dependencies/memory.hpp b/base/dependencies/memory.hpp
index faff7e5..ee3af70 100644
--- a/base/dependencies/memory.hpp
+++ b/base/dependencies/memory.hpp
@@ -457,6 +457,8 @@ mem_ptr align_forward( void* ptr, ssize alignment )
 
 inline s64 align_forward_s64( s64 value, ssize alignment ) { return value + ( alignment - value % alignment ) % alignment; }
 
+inline s64 align_forward_by_value( s64 value, ssize alignment ) { return align_forward_s64( value, alignment ); }
+
 inline void*       pointer_add      ( void*       ptr, ssize bytes ) { return rcast(void*,         rcast( u8*,        ptr) + bytes ); }
 inline void const* pointer_add_const( void const* ptr, ssize bytes ) { return rcast(void const*, rcast( u8 const*,  ptr) + bytes ); }
 
-- 
2.43.0


From d8a2fc130551a8b08287988f1b87be5b3fe858f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 222/256] fix: the overloads for references of fixed arenas and
 hash tables call the functions they stand for

---
 base/dependencies/containers.hpp | 10 +++++-----
 base/dependencies/memory.hpp     |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6a0da69..08c45d9 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -513,11 +513,11 @@ struct HashTable
 };
 
 #if GEN_SUPPORT_CPP_REFERENCES
-template<class Type> void  destroy  (HashTable<Type>& table)                      { destroy(& table); }
-template<class Type> void  grow     (HashTable<Type>& table)                      { grow(& table); }
-template<class Type> void  rehash   (HashTable<Type>& table, ssize new_num)       { rehash(& table, new_num); }
-template<class Type> void  set      (HashTable<Type>& table, u64 key, Type value) { set(& table, key, value); }
-template<class Type> ssize add_entry(HashTable<Type>& table, u64 key)             { add_entry(& table, key); }
+template<class Type> void  destroy  (HashTable<Type>& table)                      { hashtable_destroy(& table); }
+template<class Type> void  grow     (HashTable<Type>& table)                      { hashtable_grow(& table); }
+template<class Type> void  rehash   (HashTable<Type>& table, ssize new_num)       { hashtable_rehash(& table, new_num); }
+template<class Type> void  set      (HashTable<Type>& table, u64 key, Type value) { hashtable_set(& table, key, value); }
+template<class Type> ssize add_entry(HashTable<Type>& table, u64 key)             { return hashtable__add_entry(& table, key); }
 #endif
 
 template<typename Type> inline
diff --git a/base/dependencies/memory.hpp b/base/dependencies/memory.hpp
index ee3af70..794bf1d 100644
--- a/base/dependencies/memory.hpp
+++ b/base/dependencies/memory.hpp
@@ -321,8 +321,8 @@ template<s32 Size> ssize            fixed_arena_size_remaining(FixedArena<Size>*
 template<s32 Size> void             fixed_arena_free(FixedArena<Size>* fixed_arena);
 
 #if GEN_COMPILER_CPP && ! GEN_C_LIKE_CPP
-template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return allocator_info(& fixed_arena); }
-template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return size_remaining( & fixed_arena, alignment); }
+template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return fixed_arena_allocator_info(& fixed_arena); }
+template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return fixed_arena_size_remaining( & fixed_arena, alignment); }
 #endif
 
 // Just a wrapper around using an arena with memory associated with its scope instead of from an allocator.
-- 
2.43.0


From cc319f4f66e820295899818682c5f535a2ca913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 223/256] fix: the overloads for references of string builders
 have definitions

---
 base/dependencies/strings.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index cd5b035..3cbf055 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -277,16 +277,26 @@ forceinline char* next (StrBuilder str, char* iter) { return ((char*) iter + 1);
 #endif
 
 #if GEN_COMPILER_CPP && ! GEN_C_LIKE_CPP
-forceinline bool  make_space_for(StrBuilder& str, char const* to_append, ssize add_len);
-forceinline bool  append(StrBuilder& str, char c);
-forceinline bool  append(StrBuilder& str, char const* c_str_to_append);
-forceinline bool  append(StrBuilder& str, char const* c_str_to_append, ssize length);
-forceinline bool  append(StrBuilder& str, Str c_str_to_append);
-forceinline bool  append(StrBuilder& str, const StrBuilder other);
-forceinline bool  append_fmt(StrBuilder& str, char const* fmt, ...);
-forceinline char& back(StrBuilder& str);
-forceinline void  clear(StrBuilder& str);
-forceinline void  free(StrBuilder& str);
+forceinline bool  make_space_for(StrBuilder& str, char const* to_append, ssize add_len)   { return strbuilder_make_space_for(& str, to_append, add_len); }
+forceinline bool  append(StrBuilder& str, char c)                                         { return strbuilder_append_char(& str, c); }
+forceinline bool  append(StrBuilder& str, char const* c_str_to_append)                    { return strbuilder_append_c_str(& str, c_str_to_append); }
+forceinline bool  append(StrBuilder& str, char const* c_str_to_append, ssize length)      { return strbuilder_append_c_str_len(& str, c_str_to_append, length); }
+forceinline bool  append(StrBuilder& str, Str c_str_to_append)                            { return strbuilder_append_str(& str, c_str_to_append); }
+forceinline bool  append(StrBuilder& str, const StrBuilder other)                         { return strbuilder_append_string(& str, other); }
+forceinline char& back(StrBuilder& str)                                                   { return * strbuilder_back(str); }
+forceinline void  clear(StrBuilder& str)                                                  { strbuilder_clear(str); }
+forceinline void  free(StrBuilder& str)                                                   { strbuilder_free(& str); }
+
+inline bool append_fmt(StrBuilder& str, char const* fmt, ...) {
+	va_list va;
+	va_start(va, fmt);
+	StrBuilder text = strbuilder_fmt_va(heap(), fmt, va);
+	va_end(va);
+
+	bool result = strbuilder_append_string(& str, text);
+	strbuilder_free(& text);
+	return result;
+}
 #endif
 
 forceinline
-- 
2.43.0


From e8e5c95d3608ce2e27681b2d488a29416992e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 224/256] fix: the growth formula of an array can be used as
 its member

---
 base/dependencies/containers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 08c45d9..46fd73b 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -68,7 +68,7 @@ struct Array
 #pragma region Member Mapping
 	forceinline static Array  init(AllocatorInfo allocator)                         { return array_init<Type>(allocator); }
 	forceinline static Array  init_reserve(AllocatorInfo allocator, ssize capacity) { return array_init_reserve<Type>(allocator, capacity); }
-	forceinline static usize  grow_formula(ssize value)                             { return array_grow_formula<Type>(value); }
+	forceinline static usize  grow_formula(ssize value)                             { return array_grow_formula(value); }
 
 	forceinline bool         append(Array other)                               { return array_append_array<Type>(this, other); }
 	forceinline bool         append(Type value)                                { return array_append<Type>(this, value); }
-- 
2.43.0


From 5447c569ce8ff5424543d411574d6314ac8ccda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 225/256] fix: specifiers that are absent can be iterated

---
 base/components/inlines.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index e2c8632..40d584c 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -704,7 +704,10 @@ Specifier* begin_CodeSpecifiers(CodeSpecifiers self)
 forceinline
 Specifier* end_CodeSpecifiers(CodeSpecifiers self)
 {
-	return self->ArrSpecs + self->NumEntries;
+	if ( self != nullptr )
+		return self->ArrSpecs + self->NumEntries;
+
+	return nullptr;
 }
 forceinline
 Specifier* next_CodeSpecifiers(CodeSpecifiers self, Specifier* spec_iter)
-- 
2.43.0


From 6dc61a2266bfa145c2289f6e9de7ecd4e106914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:16 +0000
Subject: [PATCH 226/256] fix: string literals of the text macros are single
 arguments of other macros

---
 base/components/interface.hpp | 8 ++++----
 base/dependencies/strings.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.hpp b/base/components/interface.hpp
index 7578f1c..d35d4be 100644
--- a/base/components/interface.hpp
+++ b/base/components/interface.hpp
@@ -411,18 +411,18 @@ GEN_API Code untyped_token_fmt( s32 num_tokens, char const* fmt, ... );
 //	Convienence for defining any name used with the gen api.
 //  Lets you provide the length and string literal to the functions without the need for the DSL.
 #	if GEN_COMPILER_C
-#		define name( Id_ ) (Str){ stringize(Id_), sizeof(stringize( Id_ )) - 1 }
+#		define name( Id_ ) ((Str){ stringize(Id_), sizeof(stringize( Id_ )) - 1 })
 #	else
-#		define name( Id_ )  Str { stringize(Id_), sizeof(stringize( Id_ )) - 1 }
+#		define name( Id_ ) ( Str { stringize(Id_), sizeof(stringize( Id_ )) - 1 } )
 #	endif
 #endif
 
 #ifndef code
 //  Same as name just used to indicate intention of literal for code instead of names.
 #	if GEN_COMPILER_C
-#		define code( ... ) (Str){ stringize( __VA_ARGS__ ), sizeof(stringize(__VA_ARGS__)) - 1 }
+#		define code( ... ) ((Str){ stringize( __VA_ARGS__ ), sizeof(stringize(__VA_ARGS__)) - 1 })
 #	else
-#		define code( ... )  Str { stringize( __VA_ARGS__ ), sizeof(stringize(__VA_ARGS__)) - 1 }
+#		define code( ... ) ( Str { stringize( __VA_ARGS__ ), sizeof(stringize(__VA_ARGS__)) - 1 } )
 #	endif
 #endif
 
diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 3cbf055..5d042f8 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -40,9 +40,9 @@ struct Str
 
 #ifndef txt
 #	if GEN_COMPILER_CPP
-#		define txt( text )          GEN_NS Str { ( text ), sizeof( text ) - 1 }
+#		define txt( text )         ( GEN_NS Str { ( text ), sizeof( text ) - 1 } )
 #	else
-#		define txt( text )         (GEN_NS Str){ ( text ), sizeof( text ) - 1 }
+#		define txt( text )         ((GEN_NS Str){ ( text ), sizeof( text ) - 1 })
 #	endif
 #endif
 
-- 
2.43.0


From 90b3af07990ab57c364ffa805e0aaf9e8340c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 227/256] fix: the library compiles by its own files on POSIX:
 system headers are read outside of its namespace

---
 base/dependencies/platform.hpp  | 8 ++++++++
 base/dependencies/src_start.cpp | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/base/dependencies/platform.hpp b/base/dependencies/platform.hpp
index bb3144a..310f101 100644
--- a/base/dependencies/platform.hpp
+++ b/base/dependencies/platform.hpp
@@ -132,6 +132,14 @@
 
 #	if defined( GEN_SYSTEM_WINDOWS )
 #		include <intrin.h>
+#	else
+#		include <stdint.h>
+#		include <stdlib.h>
+#		include <string.h>
+#	endif
+
+#	if GEN_COMPILER_CPP
+#		include <cstddef>
 #	endif
 
 #if GEN_COMPILER_C
diff --git a/base/dependencies/src_start.cpp b/base/dependencies/src_start.cpp
index ab5e7a6..c3c3520 100644
--- a/base/dependencies/src_start.cpp
+++ b/base/dependencies/src_start.cpp
@@ -44,6 +44,11 @@
 
 #include <sys/stat.h>
 
+#if ! defined( GEN_SYSTEM_WINDOWS )
+#	include <fcntl.h>
+#	include <sys/mman.h>
+#endif
+
 #ifdef GEN_SYSTEM_MACOS
 #	include <copyfile.h>
 #endif
-- 
2.43.0


From c7bd10b03a6e1ee28a0251163667357e48336bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:48 +0000
Subject: [PATCH 228/256] fix: FORCEINLINE_DEBUGGABLE is read on operators and
 friends as FORCEINLINE is

---
 gen_unreal_engine/components/parser_case_macros.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen_unreal_engine/components/parser_case_macros.cpp b/gen_unreal_engine/components/parser_case_macros.cpp
index 4020555..97a9dbe 100644
--- a/gen_unreal_engine/components/parser_case_macros.cpp
+++ b/gen_unreal_engine/components/parser_case_macros.cpp
@@ -57,7 +57,8 @@ case Spec_Volatile
 #define GEN_PARSER_FRIEND_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:       \
 case Spec_Inline:      \
-case Spec_ForceInline
+case Spec_ForceInline: \
+case Spec_ForceInline_Debuggable
 
 #define GEN_PARSER_FUNCTION_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:                  \
@@ -75,6 +76,7 @@ case Spec_Static
 case Spec_Const:       \
 case Spec_Constexpr:   \
 case Spec_ForceInline: \
+case Spec_ForceInline_Debuggable: \
 case Spec_Inline:      \
 case Spec_NeverInline: \
 case Spec_Static
-- 
2.43.0


From c7ad0795a6d209f2df304a3fd59cad8ceb9fd060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:30 +0000
Subject: [PATCH 229/256] fix: numbers printed to the left of their field are
 not followed by zeros

---
 base/dependencies/printing.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 56cd988..4bf8ee7 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -74,9 +74,8 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		{
 			ssize padding = info->width - len;
 
-			char pad = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
 			while ( padding-- > 0 && remaining-- > 0 )
-				*text++ = pad, res++;
+				*text++ = ' ', res++;
 		}
 	}
 	else
-- 
2.43.0


From c0c6046b18f09127cf0eaf2489c53fbb44646795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:26 +0000
Subject: [PATCH 230/256] fix: real numbers keep their sign before the zeros of
 their field, and can be printed to its left

---
 base/dependencies/printing.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 4bf8ee7..884e266 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -192,6 +192,8 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	// TODO: Handle exponent notation
 	ssize    width, len, remaining = max_len;
 	char* text_begin = text;
+	b32   is_number  = arg <= 1.7976931348623157e308 && arg >= -1.7976931348623157e308; // Neither is infinity, nor what is not a number.
+	ssize sign       = 0;
 
 	{
 		u64 value;
@@ -209,7 +211,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 			text++;
 		}
 
-		b32 is_number = arg <= 1.7976931348623157e308; // Neither is infinity, nor what is not a number.
+		sign = text - text_begin;
 		if ( ! is_number )
 		{
 			len = _print_string( text, remaining, NULL, arg != arg ? "nan" : "inf" );
@@ -261,14 +263,19 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	width = info->width - ( text - text_begin );
 	if ( width > 0 )
 	{
-		char  fill = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-		char* end  = text_begin + max_len - 1;
-		len        = ( text - text_begin );
+		b32   zeros = ( info->flags & GEN_FMT_ZERO ) && ! ( info->flags & GEN_FMT_MINUS ) && is_number;
+		char  fill  = zeros ? '0' : ' ';
+		char* end   = text_begin + max_len - 1;
 
-		for ( len = ( text - text_begin ); len--; )
+		// Zeros are between the sign and the digits.
+		char* field = zeros ? text_begin + sign : text_begin;
+		if ( info->flags & GEN_FMT_MINUS )
+			field = text;
+
+		for ( len = ( text - field ); len-- > 0; )
 		{
-			if ( ( text_begin + len + width ) < end )
-				*( text_begin + len + width ) = *( text_begin + len );
+			if ( ( field + len + width ) < end )
+				*( field + len + width ) = *( field + len );
 		}
 
 		len   = width;
@@ -280,8 +287,8 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 
 		while ( len-- )
 		{
-			if ( text_begin + len < end )
-				text_begin[ len ] = fill;
+			if ( field + len < end )
+				field[ len ] = fill;
 		}
 	}
 
-- 
2.43.0


From 5ba84dda7a7e91e82fa975c76b786cf0d8a0125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 231/256] fix: the decrement operator is not read as the
 subtraction operator

---
 base/components/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 32a0b8e..f2ae4e9 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2299,6 +2299,9 @@ CodeOperator parse_operator_after_ret_type(
 			else if ( currtok.Text.Ptr[1] == '=' )
 				op = Op_Assign_Subtract;
 
+			else if ( currtok.Text.Ptr[1] == '-' )
+				op = Op_Decrement;
+
 			else
 				op = Op_Subtract;
 		}
-- 
2.43.0


From 08faf0ea5de1cd8ee8f574388f8a622a1e73cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 232/256] fix: the operator for pointers to members keeps its
 star

---
 base/components/interface.upfront.cpp | 9 +--------
 base/components/parser.cpp            | 2 +-
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 27d535b..ad51484 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -253,6 +253,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		case Op_BXOr:
 		case Op_LShift:
 		case Op_RShift:
+		case Op_PtrToMemOfPtr:
 			check_params();
 
 			switch ( params_code->NumEntries )
@@ -362,14 +363,6 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			}
 			break;
 
-		case Op_PtrToMemOfPtr:
-			if ( params_code )
-			{
-				log_failure("gen::def_operator: operator %S expects no paramters - %S", operator_to_str(op), code_debug_str((Code)params_code));
-				return OpValResult_Fail;
-			}
-			break;
-
 		case Op_Subscript:
 		case Op_FunctionCall:
 			check_params();
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f2ae4e9..a6eb93d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2288,7 +2288,7 @@ CodeOperator parse_operator_after_ret_type(
 			if ( currtok.Text.Ptr[1] == '>' )
 			{
 				if ( currtok.Text.Ptr[2] == '*' )
-					op = Op_MemberOfPointer;
+					op = Op_PtrToMemOfPtr;
 
 				else
 					op = Op_MemberOfPointer;
-- 
2.43.0


From 45504a20c34022ead43eed1dd4d49cd9de98a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 233/256] fix: the shift and bitwise and operators that assign
 are read as one token

---
 base/components/lexer.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 6723645..b4a19d4 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -753,6 +753,15 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
+				else if ( c.left && (* ctx->scanner) == '=' )	// &=
+				{
+					c.token.Text.Len = 2;
+					c.token.Type     = Tok_Operator;
+					c.token.Flags    = TF_Operator;
+					c.token.Flags   |= TF_Assign;
+
+					move_forward();
+				}
 
 				goto FoundToken;
 			}
@@ -1059,6 +1068,14 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
+
+				// <<= and >>=
+				if ( c.left && (* ctx->scanner) == '=' && c.token.Text.Len == 2 && ( text.Ptr[1] == '<' || text.Ptr[1] == '>' ) )
+				{
+					c.token.Text.Len++;
+					c.token.Flags |= TF_Assign;
+					move_forward();
+				}
 				goto FoundToken;
 			}
 
-- 
2.43.0


From 5fb098aaab8d96bcaf498ae6bcb97d4c4959804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 234/256] fix: sign and address operators without parameters
 are read as unary operators

---
 base/components/parser.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a6eb93d..166eca0 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2530,8 +2530,17 @@ CodeOperator parse_operator_after_ret_type(
 	CodeParams params = parse_params(parser_use_parenthesis);
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
-	if ( params == nullptr && op == Op_Multiply )
-		op = Op_Indirection;
+	if ( params == nullptr )
+	{
+		switch ( op )
+		{
+			case Op_Multiply: op = Op_Indirection; break;
+			case Op_BAnd:     op = Op_AddressOf;   break;
+			case Op_Add:      op = Op_Unary_Plus;  break;
+			case Op_Subtract: op = Op_Unary_Minus; break;
+			default: break;
+		}
+	}
 
 	while ( left && tok_is_specifier(currtok) )
 	{
-- 
2.43.0


From 97114f49f23c2a294cfd88cb77d7c2fa0157d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 235/256] fix: function call and comma operators are parsed,
 and a call may have no parameters

---
 base/components/interface.upfront.cpp |  5 ++++-
 base/components/parser.cpp            | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index ad51484..43adc16 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -364,11 +364,14 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			break;
 
 		case Op_Subscript:
-		case Op_FunctionCall:
 			check_params();
 			is_member_symbol = true;
 			break;
 
+		case Op_FunctionCall:
+			is_member_symbol = true;
+			break;
+
 		case Op_Comma:
 			check_params();
 			is_member_symbol = params_code->NumEntries == 1;
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 166eca0..4610ae7 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2430,8 +2430,11 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '(':
 		{
-			if ( currtok.Text.Ptr[1] == ')' )
+			if ( currtok.Type == Tok_Paren_Open && nexttok.Type == Tok_Paren_Close )
+			{
+				eat( Tok_Paren_Open );
 				op = Op_FunctionCall;
+			}
 
 			else
 				op = Op_Invalid;
@@ -2451,6 +2454,11 @@ CodeOperator parse_operator_after_ret_type(
 				op = Op_Invalid;
 		}
 		break;
+		case ',':
+		{
+			op = Op_Comma;
+		}
+		break;
 		default:
 		{
 			Str c_str_new    = operator_to_str(Op_New);
-- 
2.43.0


From c7b683d16155e457e0ec2eb174f0bf66a9a8b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 236/256] fix: functions can be declared deleted

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4610ae7..1e7cc0b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1518,7 +1518,7 @@ CodeFn parse_function_after_name(
 			specifiers       = (CodeSpecifiers) make_code();
 			specifiers->Type = CT_Specifiers;
 		}
-		if ( str_are_equal(nexttok.Text, txt("delete")))
+		if ( str_are_equal(currtok.Text, txt("delete")))
 		{
 			specifiers_append(specifiers, Spec_Delete);
 			eat(currtok.Type);	
-- 
2.43.0


From bfb3b2abd9c342a56c5c4f9c14618b29db91358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 237/256] fix: postfix operators outside of their class need
 not return their parameter

---
 base/components/interface.upfront.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 43adc16..a6d8c43 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -147,8 +147,6 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						break;
 
 					case 2:
-						check_param_eq_ret();
-
 						if ( ! code_is_equal((Code)params_code->Next->ValueType, (Code)t_int ) )
 						{
 							log_failure("gen::def_operator: "
-- 
2.43.0


From c9fc44bbe978cfbbc73b7eb7cb3327d8890e45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 238/256] fix: an export body can be parsed with its export
 keyword

---
 base/components/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 1e7cc0b..cf1c256 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4213,7 +4213,13 @@ internal inline
 CodeBody parser_parse_export_body()
 {
 	push_scope();
+
+	if ( check( Tok_Module_Export ) )
+		eat( Tok_Module_Export );
+	// export
+
 	CodeBody result = parse_global_nspace( CT_Export_Body );
+	// export { <Body> }
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From 0af37eea40915f8a7f02ce7d3aa043f98f97c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:09 +0000
Subject: [PATCH 239/256] fix: an export body among the entries of another body
 keeps its export

---
 base/components/inlines.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 40d584c..4d23efc 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -432,7 +432,8 @@ void body_append( CodeBody self, Code other )
 	GEN_ASSERT(self);
 	GEN_ASSERT(other);
 
-	if (code_is_body(other)) {
+	// Of the bodies only those exported are written with more than their entries.
+	if (code_is_body(other) && other->Type != CT_Export_Body) {
 		body_append_body( self, cast(CodeBody, other) );
 		return;
 	}
-- 
2.43.0


From 157f2ac809ca813e4b14cccd2f23f4a51c18071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 240/256] fix: directives in an enum that are kept as they
 stand begin their own line

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index cf1c256..34ea4d8 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4092,8 +4092,15 @@ CodeEnum parser_parse_enum( bool inplace_def )
 				break;
 
 				case Tok_Preprocess_Unsupported:
+				{
+					// The line the entry before it was on has been skipped as formatting
+					Str before = body->Back ? body->Back->Content : txt("\n");
+					if ( before.Len > 0 && before.Ptr[ before.Len - 1 ] != '\n' )
+						body_append( body, untyped_str( txt("\n") ) );
+
 					member = cast(Code, parse_simple_preprocess( Tok_Preprocess_Unsupported ));
 					// #<UNSUPPORTED>
+				}
 				break;
 
 				default:
-- 
2.43.0


From 5c444efd1044f1803eff54b0b02495e53cd90b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 241/256] fix: the initializer of a variable ends before the
 variables after it

---
 base/components/code_serialization.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 97e570a..ecba561 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1324,7 +1324,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1333,9 +1333,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		return;
 	}
 
@@ -1370,7 +1367,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1378,9 +1375,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		if ( self->InlineCmt )
 			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content);
 		else
@@ -1410,7 +1404,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->Value )
 	{
 		if ( self->VarParenthesizedInit )
-			strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+			strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 		else
 			strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 	}
@@ -1418,9 +1412,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->NextVar )
 		strbuilder_append_fmt( result, ", %SB", var_to_strbuilder( self->NextVar) );
 
-	if ( self->VarParenthesizedInit )
-		strbuilder_append_str( result, txt(" )"));
-
 	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
-- 
2.43.0


From 9d0f7438ed395e53f647923e8b8fbbd4feac061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:53 +0000
Subject: [PATCH 242/256] fix: closing brackets of nested templates are read
 two at a time

---
 base/components/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index b4a19d4..432e4a8 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1061,7 +1061,7 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
-				else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+				else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 2 )
 				{
 					c.token.Text.Len++;
 
-- 
2.43.0


From e6a040ef1a829baf7b4f8e0cf29955b5ac379ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 243/256] fix: the last default of template parameters may end
 with the bracket that closes them

---
 base/components/parser.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 34ea4d8..e6e79fd 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2950,6 +2950,15 @@ CodeParams parse_params( bool use_template_capture )
 
 				if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '>')
 					-- template_level;
+				if (use_template_capture && template_level == 1 && capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
+				{
+					// The second of them closes the parameters
+					Token* both        = lex_current( & _ctx->parser.Tokens, lex_skip_formatting );
+					value_tok.Text.Len = ( ( sptr )both->Text.Ptr + 1 ) - ( sptr )value_tok.Text.Ptr;
+					both->Text.Ptr    += 1;
+					both->Text.Len     = 1;
+					break;
+				}
 				if (currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
 					template_level -= template_level > 1 ? 2 : template_level;
 
@@ -3068,6 +3077,15 @@ CodeParams parse_params( bool use_template_capture )
 
 					if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '>')
 						-- template_level;
+					if (use_template_capture && template_level == 1 && capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
+					{
+						// The second of them closes the parameters
+						Token* both        = lex_current( & _ctx->parser.Tokens, lex_skip_formatting );
+						value_tok.Text.Len = ( ( sptr )both->Text.Ptr + 1 ) - ( sptr )value_tok.Text.Ptr;
+						both->Text.Ptr    += 1;
+						both->Text.Len     = 1;
+						break;
+					}
 					if (currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
 						template_level -= template_level > 1 ? 2 : template_level;
 
-- 
2.43.0


From 54e4fbf09861f54a8e955d76f23ca638fb3570cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:55 +0000
Subject: [PATCH 244/256] fix: white space may be all there is between the
 parentheses of a define

---
 base/components/lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 432e4a8..770f91c 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -162,6 +162,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 
 		Token last_parameter = {};
 		// We need to tokenize the define's arguments now:
+		skip_whitespace();
 		while( ctx->left && * ctx->scanner != ')')
 		{
 			skip_whitespace();
-- 
2.43.0


From d339bb08801f2131e9020d4ff6fa912146970b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:55 +0000
Subject: [PATCH 245/256] fix: comparisons within parentheses of a default
 value do not enclose template arguments

---
 base/components/parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e6e79fd..e8b41c7 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2945,10 +2945,10 @@ CodeParams parse_params( bool use_template_capture )
 			while ( (left && ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 			{
 				// Only angle brackets on their own enclose template arguments, not the ones of comparisons or arrows
-				if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '<')
+				if (capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '<')
 					++ template_level;
 
-				if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '>')
+				if (capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '>')
 					-- template_level;
 				if (use_template_capture && template_level == 1 && capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
 				{
@@ -2959,7 +2959,7 @@ CodeParams parse_params( bool use_template_capture )
 					both->Text.Len     = 1;
 					break;
 				}
-				if (currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
+				if (capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
 					template_level -= template_level > 1 ? 2 : template_level;
 
 				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
@@ -3072,10 +3072,10 @@ CodeParams parse_params( bool use_template_capture )
 				&& CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 				{
 					// Only angle brackets on their own enclose template arguments, not the ones of comparisons or arrows
-					if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '<')
+					if (capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '<')
 						++ template_level;
 
-					if (currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '>')
+					if (capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 1 && currtok.Text.Ptr[ 0 ] == '>')
 						-- template_level;
 					if (use_template_capture && template_level == 1 && capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
 					{
@@ -3086,7 +3086,7 @@ CodeParams parse_params( bool use_template_capture )
 						both->Text.Len     = 1;
 						break;
 					}
-					if (currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
+					if (capture_level == 0 && currtok.Type == Tok_Operator && currtok.Text.Len == 2 && currtok.Text.Ptr[ 0 ] == '>' && currtok.Text.Ptr[ 1 ] == '>')
 						template_level -= template_level > 1 ? 2 : template_level;
 
 					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
-- 
2.43.0


From 0a39d33d08f799b977598f7cb23b37682c179a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:30 +0000
Subject: [PATCH 246/256] fix: fix: a body keeps its entries apart from its
 place among the entries of another

---
 base/components/ast.hpp       | 16 +++++++++-------
 base/components/ast_types.hpp |  8 ++++++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/base/components/ast.hpp b/base/components/ast.hpp
index 2c9f9af..df3e7ab 100644
--- a/base/components/ast.hpp
+++ b/base/components/ast.hpp
@@ -378,8 +378,14 @@ struct AST
 	union {
 		struct
 		{
-			Code      InlineCmt;       // Class, Constructor, Destructor, Enum, Friend, Functon, Operator, OpCast, Struct, Typedef, Using, Variable
-			Code      Attributes;      // Class, Enum, Function, Struct, Typedef, Union, Using, Variable // TODO(Ed): Parameters can have attributes
+			union {
+				Code  InlineCmt;       // Class, Constructor, Destructor, Enum, Friend, Functon, Operator, OpCast, Struct, Typedef, Using, Variable
+				Code  Front;           // Bodies
+			};
+			union {
+				Code  Attributes;      // Class, Enum, Function, Struct, Typedef, Union, Using, Variable // TODO(Ed): Parameters can have attributes
+				Code  Back;            // Bodies
+			};
 			Code      Specs;           // Class, Destructor, Function, Operator, Struct, Typename, Variable
 			union {
 				Code  InitializerList; // Constructor
@@ -415,13 +421,9 @@ struct AST
 	StrCached      Name;
 	union {
 		Code Prev;
-		Code Front;
 		Code Last;
 	};
-	union {
-		Code Next;
-		Code Back;
-	};
+	Code              Next;
 	Token*            Token; // Reference to starting token, only available if it was derived from parsing.
 	Code              Parent;
 	CodeType          Type;
diff --git a/base/components/ast_types.hpp b/base/components/ast_types.hpp
index 76ab88f..cf10808 100644
--- a/base/components/ast_types.hpp
+++ b/base/components/ast_types.hpp
@@ -30,10 +30,14 @@ struct AST_Body
 {
 	union {
 		char  _PAD_[ sizeof(Specifier) * AST_ArrSpecs_Cap + sizeof(AST*) ];
+		struct {
+			Code  Front;
+			Code  Back;
+		};
 	};
 	StrCached Name;
-	Code      Front;
-	Code      Back;
+	Code      Prev;
+	Code      Next;
 	Token*    Tok;
 	Code      Parent;
 	CodeType  Type;
-- 
2.43.0


From 610fbb283e55b43fc286ae0779c297b5a03ef7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:24 +0000
Subject: [PATCH 247/256] fix: appending a body through its member appends its
 entries as the function does

---
 base/components/code_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_types.hpp b/base/components/code_types.hpp
index b1a79d6..86decdc 100644
--- a/base/components/code_types.hpp
+++ b/base/components/code_types.hpp
@@ -168,7 +168,7 @@ struct CodeBody
 #if ! GEN_C_LIKE_CPP
 	Using_Code( CodeBody );
 	forceinline void       append( Code other )                       { return body_append( *this, other ); }
-	forceinline void       append( CodeBody body )                    { return body_append(*this, body); }
+	forceinline void       append( CodeBody body )                    { return body_append_body(*this, body); }
 	forceinline bool       has_entries()                              { return code_has_entries(* this); }
 	forceinline StrBuilder to_strbuilder()                            { return body_to_strbuilder(* this); }
 	forceinline void       to_strbuilder( StrBuilder& result )        { return body_to_strbuilder_ref(* this, & result ); }
-- 
2.43.0


From bff2ca1069a6d3f412992b80537df4f7c09a6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:00 +0000
Subject: [PATCH 248/256] fix: thread local and volatile variables can be
 entries of a file, namespace or class

---
 base/components/parser_case_macros.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index 0157cba..b0dddab 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -10,6 +10,7 @@ case Tok_Spec_Inline:      \
 case Tok_Spec_Mutable:     \
 case Tok_Spec_NeverInline: \
 case Tok_Spec_Static:      \
+case Tok_Spec_ThreadLocal: \
 case Tok_Spec_Volatile:    \
 case Tok_Spec_Virtual
 
@@ -22,6 +23,7 @@ case Spec_ForceInline: \
 case Spec_Mutable:     \
 case Spec_NeverInline: \
 case Spec_Static:      \
+case Spec_Thread_Local: \
 case Spec_Volatile:    \
 case Spec_Virtual
 
@@ -35,6 +37,8 @@ case Tok_Spec_Global:           \
 case Tok_Spec_Inline:           \
 case Tok_Spec_Internal_Linkage: \
 case Tok_Spec_NeverInline:      \
+case Tok_Spec_ThreadLocal:      \
+case Tok_Spec_Volatile:         \
 case Tok_Spec_Static
 
 #define GEN_PARSER_CLASS_GLOBAL_NSPACE_ALLOWED_MEMBER_SPECIFIER_CASES \
@@ -48,6 +52,7 @@ case Spec_Inline:           \
 case Spec_Mutable:          \
 case Spec_NeverInline:      \
 case Spec_Static:           \
+case Spec_Thread_Local:     \
 case Spec_Volatile
 
 #define GEN_PARSER_FRIEND_ALLOWED_SPECIFIER_CASES \
-- 
2.43.0


From 35814ebb8f15174058320adcaeaa18347cc640bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:39 +0000
Subject: [PATCH 249/256] fix: volatile may qualify types, and qualifies the
 return type of functions it stands before

---
 base/components/parser.cpp                    | 27 ++++++++++++++++++-
 base/components/parser_case_macros.cpp        |  3 +++
 .../components/parser_case_macros.cpp         |  8 ++++++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e8b41c7..38fd850 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1460,6 +1460,28 @@ Code parse_forward_or_definition( TokType which, bool is_inplace )
 	}
 }
 
+// A volatile in front of a function qualifies the type it returns, and is no specifier of the function.
+internal inline
+CodeSpecifiers parser_qualify_return_type( CodeSpecifiers specifiers, CodeTypename ret_type )
+{
+	if ( specifiers == nullptr || ret_type == nullptr || ! specifiers_has(specifiers, Spec_Volatile) )
+		return specifiers;
+
+	Specifier specs_found[ 16 ] = { Spec_Volatile };
+	s32       NumSpecifiers     = 1;
+
+	if ( ret_type->Specs )
+	{
+		for ( s32 idx = 0; idx < ret_type->Specs->NumEntries && NumSpecifiers < 16; ++ idx, ++ NumSpecifiers )
+			specs_found[ NumSpecifiers ] = ret_type->Specs->ArrSpecs[ idx ];
+	}
+
+	specifiers_remove(specifiers, Spec_Volatile);
+	ret_type->Specs         = def_specifiers_arr( NumSpecifiers, specs_found );
+	ret_type->Specs->Parent = cast(Code, ret_type);
+	return specifiers->NumEntries ? specifiers : NullCode;
+}
+
 // Function parsing is handled in multiple places because its initial signature is shared with variable parsing
 internal inline
 CodeFn parse_function_after_name(
@@ -1471,6 +1493,8 @@ CodeFn parse_function_after_name(
 )
 {
 	push_scope();
+	specifiers = parser_qualify_return_type( specifiers, ret_type );
+
 	CodeParams params = parse_params(parser_use_parenthesis);
 	// <Attributes> <Specifiers> <ReturnType> <Name> ( <Parameters> )
 
@@ -2234,6 +2258,7 @@ CodeOperator parse_operator_after_ret_type(
 )
 {
 	push_scope();
+	specifiers = parser_qualify_return_type( specifiers, ret_type );
 
 	Token nspace = NullToken;
 	if ( check( Tok_Identifier ) )
@@ -4894,7 +4919,7 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 	{
 		Specifier spec = str_to_specifier( currtok.Text );
 
-		if ( spec != Spec_Const ) {
+		if ( spec != Spec_Const && spec != Spec_Volatile ) {
 			log_failure( "Error, invalid specifier used in type definition: %S\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index b0dddab..eb9115d 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -69,6 +69,7 @@ case Spec_Internal_Linkage: \
 case Spec_ForceInline:      \
 case Spec_Inline:           \
 case Spec_NeverInline:      \
+case Spec_Volatile:         \
 case Spec_Static
 
 #define GEN_PARSER_OPERATOR_ALLOWED_SPECIFIER_CASES \
@@ -77,6 +78,7 @@ case Spec_Constexpr:   \
 case Spec_ForceInline: \
 case Spec_Inline:      \
 case Spec_NeverInline: \
+case Spec_Volatile:    \
 case Spec_Static
 
 #define GEN_PARSER_TEMPLATE_ALLOWED_SPECIFIER_CASES \
@@ -112,6 +114,7 @@ case Spec_Const:    \
 case Spec_Ptr:      \
 case Spec_Restrict: \
 case Spec_Ref:      \
+case Spec_Volatile: \
 case Spec_RValue
 
 
diff --git a/gen_unreal_engine/components/parser_case_macros.cpp b/gen_unreal_engine/components/parser_case_macros.cpp
index 97a9dbe..07f8fb4 100644
--- a/gen_unreal_engine/components/parser_case_macros.cpp
+++ b/gen_unreal_engine/components/parser_case_macros.cpp
@@ -11,6 +11,7 @@ case Tok_Spec_Inline:                 \
 case Tok_Spec_Mutable:                \
 case Tok_Spec_NeverInline:            \
 case Tok_Spec_Static:                 \
+case Tok_Spec_ThreadLocal:            \
 case Tok_Spec_Volatile:               \
 case Tok_Spec_Virtual
 
@@ -24,6 +25,7 @@ case Spec_ForceInline_Debuggable: \
 case Spec_Mutable:                \
 case Spec_NeverInline:            \
 case Spec_Static:                 \
+case Spec_Thread_Local:           \
 case Spec_Volatile:               \
 case Spec_Virtual
 
@@ -37,6 +39,8 @@ case Tok_Spec_ForceInline_Debuggable: \
 case Tok_Spec_Global:                 \
 case Tok_Spec_Inline:                 \
 case Tok_Spec_Internal_Linkage:       \
+case Tok_Spec_ThreadLocal:            \
+case Tok_Spec_Volatile:               \
 case Tok_Spec_NeverInline:            \
 case Tok_Spec_Static
 
@@ -50,6 +54,7 @@ case Spec_External_Linkage:       \
 case Spec_Internal_Linkage:       \
 case Spec_Inline:                 \
 case Spec_Mutable:                \
+case Spec_Thread_Local:           \
 case Spec_NeverInline:            \
 case Spec_Static:                 \
 case Spec_Volatile
@@ -69,6 +74,7 @@ case Spec_Internal_Linkage:       \
 case Spec_ForceInline:            \
 case Spec_ForceInline_Debuggable: \
 case Spec_Inline:                 \
+case Spec_Volatile:               \
 case Spec_NeverInline:            \
 case Spec_Static
 
@@ -78,6 +84,7 @@ case Spec_Constexpr:   \
 case Spec_ForceInline: \
 case Spec_ForceInline_Debuggable: \
 case Spec_Inline:      \
+case Spec_Volatile:    \
 case Spec_NeverInline: \
 case Spec_Static
 
@@ -112,5 +119,6 @@ case Spec_Volatile
 #define GEN_PARSER_TYPENAME_ALLOWED_SUFFIX_SPECIFIER_CASES \
 case Spec_Const:    \
 case Spec_Ptr:      \
+case Spec_Volatile: \
 case Spec_Ref:      \
 case Spec_RValue
-- 
2.43.0


From 2291f28555585501cc12b4888b6bd77bc2b50711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:00 +0000
Subject: [PATCH 250/256] fix: declarations of many variables are written in
 one pass instead of one string per remaining variable

---
 base/components/code_serialization.cpp | 60 +++++++++++++++-----------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index ecba561..cf4859e 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1302,36 +1302,40 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	GEN_ASSERT(result);
 	if ( self->Parent && self->Parent->Type == CT_Variable )
 	{
-		// Its a comma-separated variable ( a NextVar )
-
-		if ( self->Specs )
-			strbuilder_append_fmt( result, "%SB ", specifiers_to_strbuilder(self->Specs) );
+		// Its a comma-separated variable ( a NextVar ), what follows it in the chain is written after it
+		for (;;)
+		{
+			if ( self->Specs )
+				strbuilder_append_fmt( result, "%SB ", specifiers_to_strbuilder(self->Specs) );
 
-		strbuilder_append_str( result, self->Name );
+			strbuilder_append_str( result, self->Name );
 
-		if ( self->ValueType && self->ValueType->ArrExpr )
-		{
-			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
+			if ( self->ValueType && self->ValueType->ArrExpr )
+			{
+				strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
+
+				Code next_arr_expr = self->ValueType->ArrExpr->Next;
+				while ( next_arr_expr )
+				{
+					strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
+					next_arr_expr = next_arr_expr->Next;
+				}
+			}
 
-			Code next_arr_expr = self->ValueType->ArrExpr->Next;
-			while ( next_arr_expr )
+			if ( self->Value )
 			{
-				strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
-				next_arr_expr = next_arr_expr->Next;
+				if ( self->VarParenthesizedInit )
+					strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
+				else
+					strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 			}
-		}
 
-		if ( self->Value )
-		{
-			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
-			else
-				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
-		}
+			if ( ! self->NextVar )
+				break;
 
-		// Keep the chain going...
-		if ( self->NextVar )
-			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
+			strbuilder_append_str( result, txt(", ") );
+			self = self->NextVar;
+		}
 
 		return;
 	}
@@ -1373,7 +1377,10 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		}
 
 		if ( self->NextVar )
-			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
+		{
+			strbuilder_append_str( result, txt(", ") );
+			var_to_strbuilder_ref( self->NextVar, result );
+		}
 
 		if ( self->InlineCmt )
 			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content);
@@ -1410,7 +1417,10 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	}
 
 	if ( self->NextVar )
-		strbuilder_append_fmt( result, ", %SB", var_to_strbuilder( self->NextVar) );
+	{
+		strbuilder_append_str( result, txt(", ") );
+		var_to_strbuilder_ref( self->NextVar, result );
+	}
 
 	strbuilder_append_str( result, txt(";") );
 
-- 
2.43.0


From 33cc76652bdadd3e4188ff65e4cfa4f1c129ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:00 +0000
Subject: [PATCH 251/256] fix: destructors defined outside of their class are
 parsed within templates and on their own

---
 base/components/parser.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 38fd850..85f13b0 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3888,9 +3888,6 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 {
 	push_scope();
 
-	bool has_context         = _ctx->parser.Scope && _ctx->parser.Scope->Prev;
-	bool is_in_global_nspace = has_context && str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
-
 	if ( check( Tok_Spec_Virtual ) )
 	{
 		if ( specifiers )
@@ -3902,7 +3899,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	// <Virtual Specifier>
 
 	Token prefix_identifier = NullToken;
-	if (is_in_global_nspace)
+	if ( check( Tok_Identifier ) )
 		prefix_identifier = parse_identifier(nullptr);
 
 	if ( left && currtok.Text.Ptr[ 0 ] == '~' )
-- 
2.43.0


From 6f6875e7d4cf74185f1936f71a6d080cb35f0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:13 +0000
Subject: [PATCH 252/256] fix: templates of constructors and destructors
 outside of their class are parsed on their own too

---
 base/components/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 85f13b0..8e23821 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4815,8 +4815,9 @@ CodeTemplate parser_parse_template()
 		}
 
 
+		// Without a context the template is the only declaration, whatever is defined by it has to be outside of its class.
 		bool has_context         = _ctx->parser.Scope && _ctx->parser.Scope->Prev;
-		bool is_in_global_nspace = has_context && str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
+		bool is_in_global_nspace = ! has_context || str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
 		// Possible constructor implemented at global file scope.
 		if (is_in_global_nspace)
 		{
-- 
2.43.0


From 175706de2065255cb7c5d61838b224f85179532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:26 +0000
Subject: [PATCH 253/256] fix: operator casts and overloads of specialized or
 templated classes are parsed outside of their class

---
 base/components/parser.cpp | 126 +++++++++++++++----------------------
 1 file changed, 52 insertions(+), 74 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 8e23821..8816d7b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -231,6 +231,7 @@ internal Code               parse_forward_or_definition        ( TokType which,
 internal CodeFn             parse_function_after_name          ( ModuleFlag mflags, CodeAttributes attributes, CodeSpecifiers specifiers, CodeTypename ret_type, Token name );
 internal Code               parse_function_body                ();
 internal CodeBody           parse_global_nspace                ( CodeType which );
+internal bool               parser_is_operator_ahead           ();
 internal Code               parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers );
 internal Token              parse_identifier                   ( bool* possible_member_function );
 internal CodeInclude        parse_include                      ();
@@ -1932,30 +1933,7 @@ CodeBody parse_global_nspace( CodeType which )
 						break;
 					}
 
-					bool found_operator_cast_outside_class_implmentation = false;
-					s32  idx = _ctx->parser.Tokens.Idx;
-
-					for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
-					{
-						Token tok = _ctx->parser.Tokens.Arr[ idx ];
-
-						if ( tok.Type == Tok_Identifier )
-						{
-							idx++;
-							tok = _ctx->parser.Tokens.Arr[ idx ];
-							if ( tok.Type == Tok_Access_StaticSymbol )
-								continue;
-
-							break;
-						}
-
-						if ( tok.Type == Tok_Decl_Operator )
-							found_operator_cast_outside_class_implmentation = true;
-
-						break;
-					}
-
-					if ( found_operator_cast_outside_class_implmentation )
+					if ( parser_is_operator_ahead() )
 					{
 						member = cast(Code, parser_parse_operator_cast( specifiers ));
 						// <Attributes> <Specifiers> <Name>::operator <Type>() { ... }
@@ -1988,7 +1966,51 @@ CodeBody parse_global_nspace( CodeType which )
 	return result;
 }
 
-internal inline
+// Looks ahead for: <Qualifier> <Template Args> :: ... operator
+internal
+bool parser_is_operator_ahead()
+{
+	TokArray tokens = _ctx->parser.Tokens;
+	s32      num    = scast(s32, array_num(tokens.Arr));
+	s32      idx    = tokens.Idx;
+
+	while ( idx < num && tokens.Arr[ idx ].Type == Tok_Identifier )
+	{
+		idx ++;
+		if ( idx < num && tokens.Arr[ idx ].Type == Tok_Operator && str_are_equal( tokens.Arr[ idx ].Text, txt("<") ) )
+		{
+			s32 level = 0;
+			for ( ; idx < num; idx ++ )
+			{
+				Token tok = tokens.Arr[ idx ];
+				if ( tok.Type == Tok_Statement_End || tok.Type == Tok_BraceCurly_Open || tok.Type == Tok_BraceCurly_Close )
+					return false;
+
+				if ( tok.Text.Ptr[ 0 ] == '<' )
+					level ++;
+
+				if ( tok.Text.Ptr[ 0 ] == '>' )
+					level --;
+				if ( tok.Text.Len > 1 && tok.Text.Ptr[ 0 ] == '>' && tok.Text.Ptr[ 1 ] == '>' )
+					level --;
+
+				if ( level <= 0 )
+				{
+					idx ++;
+					break;
+				}
+			}
+		}
+
+		if ( idx >= num || tokens.Arr[ idx ].Type != Tok_Access_StaticSymbol )
+			return false;
+
+		idx ++;
+	}
+	return idx < num && tokens.Arr[ idx ].Type == Tok_Decl_Operator;
+}
+
+internal
 Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 {
 	Code result = { nullptr };
@@ -2267,6 +2289,7 @@ CodeOperator parse_operator_after_ret_type(
 		while ( left && currtok.Type == Tok_Identifier )
 		{
 			eat( Tok_Identifier );
+			parse_template_args( & nspace );
 
 			if ( currtok.Type == Tok_Access_StaticSymbol )
 				eat( Tok_Access_StaticSymbol );
@@ -2681,30 +2704,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		return InvalidCode;
 	}
 
-	bool found_operator = false;
-	s32  idx            = _ctx->parser.Tokens.Idx;
-
-	for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
-	{
-		Token tok = _ctx->parser.Tokens.Arr[ idx ];
-
-		if ( tok.Type == Tok_Identifier )
-		{
-			idx++;
-			tok = _ctx->parser.Tokens.Arr[ idx ];
-			if ( tok.Type == Tok_Access_StaticSymbol )
-				continue;
-
-			break;
-		}
-
-		if ( tok.Type == Tok_Decl_Operator )
-			found_operator = true;
-
-		break;
-	}
-
-	if ( found_operator )
+	if ( parser_is_operator_ahead() )
 	{
 		// Dealing with an operator overload
 		result = cast(Code, parse_operator_after_ret_type( ModuleFlag_None, attributes, specifiers, type ));
@@ -4615,7 +4615,8 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 		while ( left && currtok.Type == Tok_Identifier )
 		{
 			eat( Tok_Identifier );
-			// <Specifiers> <Qualifier>
+			parse_template_args( & name );
+			// <Specifiers> <Qualifier> <Template Args>
 
 			if ( currtok.Type == Tok_Access_StaticSymbol )
 				eat( Tok_Access_StaticSymbol );
@@ -4834,30 +4835,7 @@ CodeTemplate parser_parse_template()
 		// Possible user Defined operator casts
 		if (is_in_global_nspace)
 		{
-			bool found_operator_cast_outside_class_implmentation = false;
-			s32  idx = _ctx->parser.Tokens.Idx;
-
-			for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
-			{
-				Token tok = _ctx->parser.Tokens.Arr[ idx ];
-
-				if ( tok.Type == Tok_Identifier )
-				{
-					idx++;
-					tok = _ctx->parser.Tokens.Arr[ idx ];
-					if ( tok.Type == Tok_Access_StaticSymbol )
-						continue;
-
-					break;
-				}
-
-				if ( tok.Type == Tok_Decl_Operator )
-					found_operator_cast_outside_class_implmentation = true;
-
-				break;
-			}
-
-			if ( found_operator_cast_outside_class_implmentation ) {
+			if ( parser_is_operator_ahead() ) {
 				definition = cast(Code, parser_parse_operator_cast( specifiers ));
 				parser_keep_attributes( definition, attributes );
 				// <Attributes> <Specifiers> <Name> :: operator <Type> () { ... }
-- 
2.43.0


From cdac25f4b0e5e1319f14cc46b252c34e599abebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:35 +0000
Subject: [PATCH 254/256] fix: variables with many that follow them are
 compared without one frame of the stack for each

---
 base/components/ast.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 962ba0b..03dbb4a 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -1146,17 +1146,27 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Variable:
 		{
-			check_member_val( ModuleFlags );
-			check_member_val( VarParenthesizedInit );
-			check_member_str( Name );
-			check_member_ast( ValueType );
-			check_member_ast( BitfieldSize );
-			check_member_ast( Value );
-			check_member_ast( Attributes );
-			check_member_ast( Specs );
-			check_member_ast( NextVar );
+			for (;;)
+			{
+				check_member_val( ModuleFlags );
+				check_member_val( VarParenthesizedInit );
+				check_member_str( Name );
+				check_member_ast( ValueType );
+				check_member_ast( BitfieldSize );
+				check_member_ast( Value );
+				check_member_ast( Attributes );
+				check_member_ast( Specs );
 
-			return true;
+				// The variables that follow both of them are compared next
+				if ( ! self->NextVar || ! other->NextVar || self->NextVar->Type != CT_Variable || other->NextVar->Type != CT_Variable )
+				{
+					check_member_ast( NextVar );
+					return true;
+				}
+
+				self  = self->NextVar;
+				other = other->NextVar;
+			}
 		}
 
 		case CT_Class_Body:
-- 
2.43.0


From 68fbcaa55676d8c5542f8918aa488c25963d4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:46 +0000
Subject: [PATCH 255/256] fix: the children of a node are only followed below
 when they have moved

---
 base/dependencies/parsing.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 08067e1..98568e9 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -303,10 +303,14 @@ ADT_Node* adt_alloc_at( ADT_Node* parent, ssize index )
 
 	ADT_Node o = { 0 };
 	o.parent   = parent;
+
+	ADT_Node* nodes = parent->nodes;
+	ssize     num   = array_num(parent->nodes);
 	if ( ! array_append_at( parent->nodes, o, index ) )
 		return NULL;
 
-	_adt_relink( parent );
+	if ( nodes != parent->nodes || index < num )
+		_adt_relink( parent );
 
 	ADT_Node* node = & parent->nodes[index];
 	return node;
-- 
2.43.0


From ec987575ac8622352d499176ea2e280e8e721b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:19 +0000
Subject: [PATCH 256/256] fix: the search for constructors outside of their
 class ends with the declaration of an operator

---
 base/components/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 8816d7b..dfd297b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2040,6 +2040,12 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			return result;
 		}
 
+		if ( nav.Type == Tok_Decl_Operator )
+		{
+			// What follows is the name of an operator ( which may be < ), not of a constructor
+			return result;
+		}
+
 		if ( nav.Text.Ptr[0] == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
-- 
2.43.0

