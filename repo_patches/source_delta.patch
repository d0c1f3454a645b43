From 16ecf541710f7893726554d38abf97548be4c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 01/26] fix: name of class template specialization with empty
 parameter pack lost its opening bracket

---
 source/class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 2963d6d..c861cea 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -59,7 +59,8 @@ string template_specialization(clang::CXXRecordDecl const *C)
 			// if( t->getTemplateArgs()[i].ArgKind() == TemplateArgument::ArgKind::Integral ) outs() << " template arg:" << t->getTemplateArgs()[i].<< "\n";
 			// outs() << expresion_to_string( t->getTemplateArgs()[i].getAsExpr() ) << "\n";
 		}
-		templ.back() = '>';
+		if( templ.back() == ',' ) templ.back() = '>';
+		else templ += '>'; // no template arguments, for example: empty parameter pack
 	}
 
 	fix_boolean_types(templ);
-- 
2.43.0


From fda5558cb91ce8cb2408515ba04a07c63763ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 02/26] fix: inherited constructors that are not accessible or
 are skipped by config were bound

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index c861cea..0d615a2 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1348,7 +1348,7 @@ void ClassBinder::bind(Context &context)
 					for( auto s = u->shadow_begin(); s != u->shadow_end(); ++s ) {
 						if( UsingShadowDecl *us = dyn_cast<UsingShadowDecl>(*s) ) {
 							if( CXXConstructorDecl *t = dyn_cast<CXXConstructorDecl>(us->getTargetDecl()) ) {
-								if( is_bindable(t) ) {
+								if( t->getAccess() == AS_public and is_bindable(t) and !is_skipping_requested(t, Config::get()) ) {
 									ConstructorBindingInfo CBI = {C, t, trampoline, qualified_name, trampoline_name, context};
 
 									if( t->isCopyConstructor() /*and  not copy_constructor_processed*/ ) {
-- 
2.43.0


From 791976ee38ddf6d62c1d556454b6b571d1fbbf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 03/26] fix: skip directives were ignored for nested classes

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 0d615a2..7a76564 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1221,7 +1221,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			// innerC seems to be a forward declaration
 			innerC = innerC->getDefinition();
 		}
-		if( is_bindable(innerC) ) {
+		if( is_bindable(innerC) and !is_skipping_requested(innerC, Config::get()) ) {
 			// c += "\t// Binding " + C->getNameAsString() + ";\n";
 			ClassBinder b(innerC);
 			b.bind(context);
-- 
2.43.0


From 66c426b7e61f9f8a619c217e6a313f1e5bcd4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 04/26] fix: generated files and functions of different headers
 could share the name

---
 source/context.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 901750a..6ab10b0 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -330,6 +330,7 @@ void Context::generate(Config const &config)
 	vector<string> binding_function_names;
 
 	std::map<string, int> file_names;
+	std::set<string> function_names;
 	std::map<string, int> namespace_entrance;
 
 	string root_module_file_name = config.root_module + ".cpp";
@@ -345,19 +346,22 @@ void Context::generate(Config const &config)
 	for( uint i = 0; i < binders.size(); ++i ) {
 		if( binders[i]->code().empty() ) continue;
 
-		string np, file_name;
+		string np, file_name, function_name;
 
-		if( O_flat ) {
-			np = config.root_module + "_";
-			file_name = np + std::to_string(file_names[np]);
-		}
-		else {
-			np = file_name_prefix_for_binder(binders[i]);
-			file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
-		}
-		++file_names[np];
+		do {
+			if( O_flat ) {
+				np = config.root_module + "_";
+				file_name = np + std::to_string(file_names[np]);
+			}
+			else {
+				np = file_name_prefix_for_binder(binders[i]);
+				file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
+			}
+			++file_names[np];
 
-		string function_name = "bind_" + replace_(file_name, "/", "_");
+			function_name = "bind_" + replace_(file_name, "/", "_");
+			// 'a/b' and 'a_b', or 'a_1' and second file for 'a', must not share the name and none of the files could overwrite file of root module
+		} while( ( not O_single_file and file_name == config.root_module ) or not function_names.insert(function_name).second );
 		file_name += ".cpp";
 
 		sources.push_back(file_name);
-- 
2.43.0


From 9d73e8729be81ea31db69d336da3431a6ff05bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:46 +0000
Subject: [PATCH 05/26] fix: zero max-file-size made code generation run
 forever

---
 source/context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index 6ab10b0..0e8fd8b 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -396,7 +396,8 @@ void Context::generate(Config const &config)
 			if( namespace_entrance[namespace_] == 0 ) code += "\n\t{}(M(\"{}\"));\n"_format(add_on_binder_for_namespaces.at(namespace_), namespace_);
 		}
 
-		for( ; code.size() < config.maximum_file_length and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
+		uint const first = i; // at least one binder per file, otherwise we will never finish if requested file size is too small
+		for( ; ( i == first or code.size() < config.maximum_file_length ) and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
 			// outs() << "Binding: " << string(*binders[i]) << "\n";
 			//  if( ClassBinder * CB = dynamic_cast<ClassBinder*>( binders[i].get() ) ) {
 			//  	std::vector<clang::CXXRecordDecl const *> const dependencies = CB->dependencies();
-- 
2.43.0


From 7ae73f1842f833dad052335bee1c0405032d884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:13 +0000
Subject: [PATCH 06/26] fix: prefix with spaces or other shell characters was
 passed unquoted to the shell

---
 source/util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/util.cpp b/source/util.cpp
index 2b425a5..3c68e58 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -22,6 +22,8 @@
 #include <clang/AST/ExprCXX.h>
 #include <clang/Basic/SourceManager.h>
 
+#include <llvm/Support/FileSystem.h>
+
 //#include <experimental/filesystem>
 #include <cctype>
 #include <cstdlib>
@@ -134,8 +136,7 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 	for( auto &d : dirs ) path += "/" + d;
 
 	// std::experimental::filesystem::create_directories(path);
-	string command_line = "mkdir -p " + path;
-	if (system(command_line.c_str()) != 0) throw std::runtime_error("ERROR: Command \"" + command_line + "\" failed");
+	if( std::error_code ec = sys::fs::create_directories(path) ) throw std::runtime_error("ERROR: Can not create directory " + path + ": " + ec.message());
 
 	string full_file_name = prefix + '/' + file_name;
 	std::ifstream f(full_file_name);
-- 
2.43.0


From 50313381fe442536af96e29b285148e840ddfe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:18 +0000
Subject: [PATCH 07/26] fix: failures to write generated files were not
 reported

---
 source/context.cpp | 7 +++++++
 source/util.cpp    | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/source/context.cpp b/source/context.cpp
index 0e8fd8b..9af1249 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -491,10 +491,17 @@ void Context::generate(Config const &config)
 	else {
 		std::ofstream f(root_module_prefix + ".sources");
 		for( auto &s : sources ) f << s << "\n";
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".sources");
 
 		std::ofstream namespaces_file_handle(root_module_prefix + ".modules");
 		namespaces_file_handle << modules;
+		namespaces_file_handle.close();
+		if( namespaces_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".modules");
 	}
+
+	root_module_file_handle.close();
+	if( root_module_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_full_file_name);
 }
 
 /// generate unique trace line containing `info` to insert into the code
diff --git a/source/util.cpp b/source/util.cpp
index 3c68e58..d7e5207 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -147,6 +147,8 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 		std::ofstream f(full_file_name);
 		if( f.fail() ) throw std::runtime_error("ERROR: Can not open file " + full_file_name + " for writing...");
 		f << code;
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + full_file_name);
 	}
 	else {
 		if( O_verbose ) outs() << "File " << full_file_name << " is up-to-date, skipping...\n";
-- 
2.43.0


From cfe6512af990f7b907972849f295a8e08dfb3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:00 +0000
Subject: [PATCH 08/26] fix: namespace directives applied to unrelated
 namespaces which name begins with the same text

---
 source/config.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 4c70aa9..2b02cd4 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -256,6 +256,13 @@ void Config::read(string const &file_name)
 }
 
 
+/// check if namespace is given parent namespace or one of its descendants, everything is within an empty (global) namespace
+static bool is_within_namespace(string const &namespace_, string const &parent)
+{
+	return parent.empty() or namespace_ == parent or begins_with(namespace_, parent + "::");
+}
+
+
 bool Config::is_namespace_binding_requested(string const &namespace_) const
 {
 	bool to_bind_flag = false, to_skip_flag = false;
@@ -263,7 +270,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 
 	for( auto &n : namespaces_to_bind ) {
 		if( n.size() == 0 ) to_bind_flag = true;
-		if( begins_with(namespace_, n) ) {
+		if( is_within_namespace(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -272,7 +279,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_within_namespace(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
@@ -297,7 +304,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	string to_bind, to_skip;
 
 	for( auto &n : namespaces_to_bind ) {
-		if( begins_with(namespace_, n) ) {
+		if( is_within_namespace(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -306,7 +313,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_within_namespace(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
-- 
2.43.0


From e55597d3dbc7d925e3e952f28817ab46bf4c0d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:15 +0000
Subject: [PATCH 09/26] fix: enum and field directives were ignored for members
 of templates with several arguments

---
 source/config.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 2b02cd4..f060ca6 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -391,14 +391,20 @@ bool Config::is_class_skipping_requested(string const &class__) const
 }
 
 
-bool Config::is_field_skipping_requested(string const &field_) const
+bool Config::is_field_skipping_requested(string const &field__) const
 {
+	string field_{field__};
+	field_.erase(std::remove(field_.begin(), field_.end(), ' '), field_.end());
+
 	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field_) != fields_to_skip.end();
 }
 
 
-bool Config::is_enum_binding_requested(string const &enum_) const
+bool Config::is_enum_binding_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_bind.begin(), enums_to_bind.end(), enum_);
 
 	if( bind != enums_to_bind.end() ) return true;
@@ -407,8 +413,11 @@ bool Config::is_enum_binding_requested(string const &enum_) const
 }
 
 
-bool Config::is_enum_skipping_requested(string const &enum_) const
+bool Config::is_enum_skipping_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_skip.begin(), enums_to_skip.end(), enum_);
 
 	if( bind != enums_to_skip.end() ) return true;
-- 
2.43.0


From 24c2ee2a0afd4a096175f23db0c2c57c871929e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:45 +0000
Subject: [PATCH 10/26] fix: names that contain _Bool as part of longer
 identifier were altered

---
 source/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/util.cpp b/source/util.cpp
index d7e5207..164d49a 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -203,7 +203,7 @@ void fix_boolean_types(string &type)
 	static string const B("_Bool");
 	size_t i = 0;
 	while( (i = type.find(B, i)) != string::npos ) {
-		if( (i == 0 or (!std::isalpha(type[i - 1]) and !std::isdigit(type[i - 1]))) and (i + B.size() == type.size() or (!std::isalpha(type[i + B.size()]) and !std::isdigit(type[i + B.size()]))) )
+		if( (i == 0 or (!std::isalnum(type[i - 1]) and type[i - 1] != '_')) and (i + B.size() == type.size() or (!std::isalnum(type[i + B.size()]) and type[i + B.size()] != '_')) )
 			type.replace(i, B.size(), "bool");
 		++i;
 	}
-- 
2.43.0


From c27a4ef5be25e9cf42b0aefae26f32f39d937213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:41 +0000
Subject: [PATCH 11/26] fix: look through typedefs of pointers and references
 when deciding on the pointee

---
 source/type.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index ab52d34..97801f9 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -45,9 +45,9 @@ namespace binder {
 /// check if user requested binding for the given QualType
 bool is_binding_requested(clang::QualType const &qt, Config const &config)
 {
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_binding_requested(pt->getPointeeType(), config);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_binding_requested(pt->getPointeeType(), config);
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_binding_requested(rt->getPointeeType(), config);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_binding_requested(rt->getPointeeType(), config);
 
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) return is_binding_requested(r, config);
 
@@ -58,9 +58,9 @@ bool is_binding_requested(clang::QualType const &qt, Config const &config)
 // check if user requested skipping for the given declaration
 bool is_skipping_requested(QualType const &qt, Config const &config)
 {
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_skipping_requested(pt->getPointeeType(), config);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_skipping_requested(pt->getPointeeType(), config);
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_skipping_requested(rt->getPointeeType(), config);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_skipping_requested(rt->getPointeeType(), config);
 
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) return is_skipping_requested(r, config);
 
@@ -379,8 +379,8 @@ void add_relevant_includes(QualType const &qt, /*const ASTContext &context,*/ In
 {
 	// QualType qt = qt.getDesugaredType(context);
 	// outs() << "add_relevant_includes(qt): " << qt.getAsString() << "\n";
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) add_relevant_includes(pt->getPointeeType(), includes, level);
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) add_relevant_includes(rt->getPointeeType(), includes, level);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) add_relevant_includes(pt->getPointeeType(), includes, level);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) add_relevant_includes(rt->getPointeeType(), includes, level);
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) add_relevant_includes(r, includes, level);
 	if( EnumDecl *e = dyn_cast_or_null<EnumDecl>(qt->getAsTagDecl()) ) add_relevant_includes(e, includes, level);
 }
@@ -394,7 +394,7 @@ bool is_bindable(QualType const &qt)
 	r &= !qt->isFunctionPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
 		 !qt->isArrayType(); // and  !qt->isConstantArrayType()  and  !qt->isIncompleteArrayType()  and  !qt->isVariableArrayType()  and  !qt->isDependentSizedArrayType()
 
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) {
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) {
 		QualType pqt = pt->getPointeeType();
 
 		if( pqt->isPointerType() ) return false; // refuse to bind 'value**...' types
@@ -410,7 +410,7 @@ bool is_bindable(QualType const &qt)
 		r &= is_bindable(pt->getPointeeType() /*.getCanonicalType()*/);
 	}
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) {
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) {
 		QualType pqt = rt->getPointeeType();
 		// outs() << "#### " << pqt.getAsString() << "\n";
 
@@ -448,9 +448,9 @@ void request_bindings(clang::QualType const &qt, Context &context)
 			if( td->isCompleteDefinition() or dyn_cast<ClassTemplateSpecializationDecl>(td) ) context.request_bindings(typename_from_type_decl(td));
 		}
 
-		if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
 
-		if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
 	}
 }
 
-- 
2.43.0


From b7ecaf30ac98f5cac3adfada4831b0c30c0a8c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:41 +0000
Subject: [PATCH 12/26] fix: give trampolines the exception specification of
 the method they override

---
 source/class.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 7a76564..2561114 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -761,11 +761,13 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				string python_name = python_function_name(*m);
 
 				string exception_specification;
-				if( FunctionProtoType const *fpt = dyn_cast<FunctionProtoType>(m->getType().getTypePtr()) ) {
-					if( fpt->getExceptionSpecType() & clang::ExceptionSpecificationType::EST_BasicNoexcept ) exception_specification = "noexcept ";
-					if( fpt->getExceptionSpecType() &
-						(clang::ExceptionSpecificationType::EST_DynamicNone | clang::ExceptionSpecificationType::EST_Dynamic | clang::ExceptionSpecificationType::EST_MSAny) )
-						exception_specification = "throw() ";
+				if( FunctionProtoType const *fpt = m->getType()->getAs<FunctionProtoType>() ) {
+					clang::ExceptionSpecificationType est = fpt->getExceptionSpecType();
+					if( est == clang::EST_DynamicNone or est == clang::EST_Dynamic ) exception_specification = "throw() ";
+					else if( est != clang::EST_None and est != clang::EST_MSAny ) exception_specification = "noexcept ";
+#if( LLVM_VERSION_MAJOR >= 7 )
+					if( est == clang::EST_NoexceptFalse ) exception_specification = "";
+#endif
 				}
 
 				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), m->isConst() ? " const" : "", exception_specification);
-- 
2.43.0


From 4dd9759a7e2e9817ab274696d2b9bb5e6263625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:02 +0000
Subject: [PATCH 13/26] fix: bind fields read-only when their class, named
 through a typedef or template, can not be assigned

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 2561114..fa3cbc4 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -125,7 +125,7 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 
 bool is_field_assignable(FieldDecl const *f)
 {
-	if( RecordType const *r = dyn_cast<RecordType>(f->getType()) ) {
+	if( RecordType const *r = f->getType()->getAs<RecordType>() ) {
 		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
 			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
-- 
2.43.0


From ced34c967d6bddd87948e13c1e8d9949898e4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:20 +0000
Subject: [PATCH 14/26] fix: bind fields of classes with const or reference
 data members read-only, they can not be assigned

---
 source/class.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index fa3cbc4..8696e43 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -131,6 +131,13 @@ bool is_field_assignable(FieldDecl const *f)
 				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
 				if( m->isCopyAssignmentOperator() and (m->getAccess() != AS_public or m->isDeleted()) ) return false;
 			}
+
+			// implicit operator= is deleted when some of the data members are const or references
+			if( C->hasDefinition() and !C->hasUserDeclaredCopyAssignment() ) {
+				for( auto m = C->field_begin(); m != C->field_end(); ++m ) {
+					if( m->getType().isConstQualified() or m->getType()->isReferenceType() or !is_field_assignable(*m) ) return false;
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 4b5f74183ac83dbc05d381670f9938ea2077f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:30 +0000
Subject: [PATCH 15/26] fix: emit std::nullptr_t with its namespace once

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index 97801f9..fb82f77 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -508,7 +508,7 @@ string standard_name_raw(string const &type)
 
 		make_pair("class std::__thread_id", "std::thread::id"), make_pair("std::__thread_id", "std::thread::id"),
 
-		make_pair("nullptr_t", "std::nullptr_t"),
+		make_pair("nullptr_t", "std::nullptr_t"), make_pair("std::std::nullptr_t", "std::nullptr_t"), // some versions of Clang do print namespace of nullptr_t
 
 		// make_pair("const class ", "const "),
 		// make_pair("const struct ", "const "),
-- 
2.43.0


From da2f6def23a3e59e0cb1f23a0681ba6244cf6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:30 +0000
Subject: [PATCH 16/26] fix: do not bind bit-fields, there is no pointer to
 them

---
 source/class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 8696e43..8a466e1 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -153,6 +153,8 @@ bool is_bindable(FieldDecl *f)
 
 	if( f->isAnonymousStructOrUnion() ) return false;
 
+	if( f->isBitField() ) return false; // there are no pointers to bit-fields
+
 	if( !is_bindable(f->getType()) ) return false;
 
 	return true;
-- 
2.43.0


From ab91ffa67141269d3fd76b28c3329553ce78e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:09 +0000
Subject: [PATCH 17/26] fix: name the template arguments when a bound function
 template is called from a lambda

A lambda that binds a function template without its default arguments
called it as f(a0), leaving the template arguments to deduction; for a
template whose arguments can not be deduced the generated code did not
compile, and for one where deduction picks other arguments it called
another specialization.
---
 source/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function.cpp b/source/function.cpp
index 62b46c5..75e3202 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -408,10 +408,10 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 			// string object = class_qualified_name( m->getParent() ) + (m->isConst() ? " const" : "") + " &o" + ( args_to_bind ? ", " : "" );
 			string object = class_qualified_name(parent ? parent : m->getParent()) + (m->isConst() ? " const" : "") + " &o" +
 							(args_to_bind ? ", " : ""); // forcing object type to be of parent class so member function with lifted access could be used
-			function = "[]({}{}) -> {} {{ return o.{}({}); }}"_format(object, args.first, return_type, F->getNameAsString(), args.second);
+			function = "[]({}{}) -> {} {{ return o.{}{}({}); }}"_format(object, args.first, return_type, F->getNameAsString(), template_specialization(F), args.second);
 		}
 		else {
-			function = "[]({}) -> {} {{ return {}({}); }}"_format(args.first, return_type, function_qualified_name, args.second);
+			function = "[]({}) -> {} {{ return {}{}({}); }}"_format(args.first, return_type, function_qualified_name, template_specialization(F), args.second);
 		}
 	}
 
-- 
2.43.0


From 9963dadd3a721b56141078f049e7683256b68ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:37 +0000
Subject: [PATCH 18/26] fix: names made from template arguments were not always
 identifiers

A specialization whose arguments hold characters such as '-', '(', '[' or
a quote, for example A<-1> or A<int[3]>, was given a name with these
characters in it: its call-back structure did not compile and its Python
class could not be written in Python.
---
 source/util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/util.cpp b/source/util.cpp
index 164d49a..f07eb64 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -22,6 +22,7 @@
 #include <clang/AST/ExprCXX.h>
 #include <clang/Basic/SourceManager.h>
 
+#include <llvm/ADT/StringExtras.h>
 #include <llvm/Support/FileSystem.h>
 
 //#include <experimental/filesystem>
@@ -277,7 +278,8 @@ string mangle_type_name(string const &name, bool mark_template)
 		if( c == ' ' or c == '<' or c == '>' or c == ',' or c == ':' ) {
 			if( r.empty() or r.back() != '_' ) r.push_back('_');
 		}
-		else r.push_back(c);
+		else if( std::isalnum(static_cast<unsigned char>(c)) or c == '_' or c == '*' or c == '&' or (c & 0x80) ) r.push_back(c);
+		else r += "_x" + llvm::utohexstr(c) + '_'; // '-', '(' or '[' could not be part of identifier
 
 		if( c == '<' or c == '>' or c == ',' ) template_ = true;
 	}
-- 
2.43.0


From 7d87360b99846cc203f87128c79eb078924ac448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:07 +0000
Subject: [PATCH 19/26] fix: a class may derive from a nested class: order
 binders by the outermost class

---
 source/context.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index 9af1249..5e4db3e 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -277,6 +277,13 @@ void Context::bind(Config const &config)
 	}
 }
 
+/// find class which binder provide bindings for the given class: nested classes are binded by the binder of the outermost class
+static CXXRecordDecl const *outermost_class(CXXRecordDecl const *C)
+{
+	auto outer = dyn_cast<CXXRecordDecl>(C->getDeclContext());
+	return outer ? outermost_class(outer) : C;
+}
+
 /// sort vector of binders by dependency so python imports could work
 void Context::sort_binders()
 {
@@ -291,7 +298,8 @@ void Context::sort_binders()
 		for( auto b = binders.begin(); b != binders.end(); ++b ) {
 			if( CXXRecordDecl const *C = dyn_cast<CXXRecordDecl const >((*b)->named_decl()) ) { // right not only query dependency if we dealing with class
 				std::vector<CXXRecordDecl const *> const dependencies = (*b)->dependencies();
-				for( auto &c : dependencies ) {
+				for( auto &d : dependencies ) {
+					CXXRecordDecl const *c = outermost_class(d);
 					if( !is_forward_needed(c) ) continue;
 					// outs() << "Pushing forward binding for " << class_qualified_name(c) << "...\n";
 					auto e = find_if(b, binders.end(), [&c](BinderOP const &p) -> bool { return dyn_cast<CXXRecordDecl const >(p->named_decl()) == c; });
-- 
2.43.0


From 0fed1603d4e10ebf2ef2c3ad83d7fcaae7c86de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 20/26] fix: headers needed by the bindings of nested classes
 are included

---
 source/class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/class.cpp b/source/class.cpp
index 8a466e1..8b545c4 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1239,6 +1239,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += b.code();
 			c += '\n';
 			prefix_code_ += b.prefix_code();
+			prefix_includes_.insert(prefix_includes_.end(), b.prefix_includes_.begin(), b.prefix_includes_.end());
 		}
 	});
 
-- 
2.43.0


From f852a8dcb2b6c2d78ce2e87a14195fbc2e89f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:25 +0000
Subject: [PATCH 21/26] fix: std::multiset with another comparator or allocator
 is not named as a multiset of pointers

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index fb82f77..6135051 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -626,7 +626,7 @@ string simplify_std_class_name_raw(string const &type)
 			make_pair("forward_list<(.*), *std::allocator<\\1 *> *>", "forward_list<\\1>"),
 			make_pair("map<(.*),(.*), *std::less<\\1 *>, *std::allocator<std::pair<const \\1, \\2 *> *> *>", "map<\\1,\\2>"),
 
-			make_pair("multiset<(.*), *std::less<(.*)>, *std::allocator<(.*)>>", "multiset<\\1 *>"),
+			make_pair("multiset<(.*), *std::less<\\1 *>, *std::allocator<\\1 *> *>", "multiset<\\1>"),
 			make_pair("multimap<(.*),(.*), *std::less<\\1>, *std::allocator<std::pair<const \\1, \\2 *> *> *>", "multimap<\\1,\\2>"),
 
 			// LLVM-3.7
-- 
2.43.0


From 8d184d52576a708064a53664cd79e03b8d64a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:02 +0000
Subject: [PATCH 22/26] fix: do not replace methods that can not be overridden
 with implementation of base class in call-back structs

---
 source/class.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 8b545c4..0670482 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -819,6 +819,9 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				prefix_includes_.push_back(*m);
 			}
 		}
+		else if( m->size_overridden_methods() ) { // mark methods that we can not override as 'binded', otherwise they will be overridden by implementation from one of the base classes
+			binded.insert(m->getNameAsString() + '(' + std::get<0>(function_arguments_for_py_overload(*m)) + (m->isConst() ? ") const" : ")"));
+		}
 	}
 
 	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
-- 
2.43.0


From 57a1866dc019406d60f67199615d397cb8c94688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:24 +0000
Subject: [PATCH 23/26] fix: do not bind unary operator& as __and__

---
 source/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function.cpp b/source/function.cpp
index 75e3202..3017364 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -53,7 +53,7 @@ string cpp_python_operator(const FunctionDecl & F) {
 		{"operator%", {"__mod__"}}, //
 		{"operator~", {"__invert__"}}, //
 		{"operator|", {"__or__"}}, //
-		{"operator&", {"__and__"}}, //
+		{"operator&", {"", "__and__"}}, // unary form (address of) have no Python equivalent
 		{"operator^", {"__xor__"}}, //
 		{"operator<<", {"__lshift__"}}, //
 		{"operator>>", {"__rshift__"}}, //
-- 
2.43.0


From 92433fd3fcab85c2349cb53dc390628cecba8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:24 +0000
Subject: [PATCH 24/26] fix: do not bind functions that take or return pointers
 to members

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index 6135051..999e5c8 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -391,7 +391,7 @@ bool is_bindable(QualType const &qt)
 {
 	bool r = true;
 
-	r &= !qt->isFunctionPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
+	r &= !qt->isFunctionPointerType() and !qt->isMemberPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
 		 !qt->isArrayType(); // and  !qt->isConstantArrayType()  and  !qt->isIncompleteArrayType()  and  !qt->isVariableArrayType()  and  !qt->isDependentSizedArrayType()
 
 	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) {
-- 
2.43.0


From 7e8af6c5746317a077849372439ce85f918b2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:39 +0000
Subject: [PATCH 25/26] fix: keep & qualifier of methods, do not bind volatile
 and && qualified methods

---
 source/class.cpp    | 2 +-
 source/function.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 0670482..349efb9 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -779,7 +779,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 #endif
 				}
 
-				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), m->isConst() ? " const" : "", exception_specification);
+				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), string(m->isConst() ? " const" : "") + (m->getRefQualifier() == RQ_LValue ? " &" : ""), exception_specification);
 
 				string member_function_name = namespace_from_named_decl(C);
 				if ( member_function_name.length() > 0 ) member_function_name += "::";
diff --git a/source/function.cpp b/source/function.cpp
index 3017364..e5b2f22 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -252,6 +252,7 @@ string function_pointer_type(FunctionDecl const *F)
 	if( auto m = dyn_cast<CXXMethodDecl>(F) ) {
 		prefix = m->isStatic() ? "" : class_qualified_name(cast<CXXRecordDecl>(F->getParent())) + "::";
 		maybe_const = m->isConst() ? " const" : "";
+		if( m->getRefQualifier() == RQ_LValue ) maybe_const += " &";
 	}
 
 	//r += standard_name(F->getReturnType().getCanonicalType().getAsString());
@@ -523,6 +524,10 @@ bool is_bindable_raw(FunctionDecl const *F)
 		if( !isa<CXXMethodDecl>(F) or (cpp_python_operator(*F).size() == 0) ) return false;
 	}
 
+	if( auto m = dyn_cast<CXXMethodDecl>(F) ) {
+		if( m->isVolatile() or m->getRefQualifier() == RQ_RValue ) return false; // Pybind11 can not call methods that require volatile or temporary object
+	}
+
 	r &= F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate /*and  !F->isOverloadedOperator()*/ and !isa<CXXConversionDecl>(F) and !F->isDeleted();
 
 	QualType rt(F->getReturnType());
-- 
2.43.0


From 13d99e5f2dec52281107ce8a2df86d9482134a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:40 +0000
Subject: [PATCH 26/26] fix: do not override variadic methods in call-back
 structs

---
 source/class.cpp    | 4 ++--
 source/function.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 349efb9..dfc6f6c 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -659,9 +659,9 @@ bool is_callback_structure_constructible(CXXRecordDecl const *C)
 	if( C->isAbstract() ) {
 		for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 #if( LLVM_VERSION_MAJOR >= 18 )
-			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
+			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or !is_overloadable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
 #else
-			if( m->isPure() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
+			if( m->isPure() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or !is_overloadable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
 #endif
 		}
 
diff --git a/source/function.cpp b/source/function.cpp
index e5b2f22..d64945e 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -577,8 +577,8 @@ bool is_bindable(FunctionDecl const *F)
 /// check if methods could be overload in Python
 bool is_overloadable(CXXMethodDecl const *M)
 {
-	// Pybind11 now allow returning a reference to primitive types or string so for now always return true
-	return true;
+	// Pybind11 now allow returning a reference to primitive types or string so only variadic methods could not be overloaded
+	return !M->isVariadic();
 
 	/*
 	QualType qt = M->getReturnType().getCanonicalType();
-- 
2.43.0

