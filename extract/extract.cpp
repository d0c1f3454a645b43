// Fact extractor: parses binder translation units with clang 14 and writes, as JSON, a resolved and
// simplified tree for every function of the repository (all callees, fields and overloads resolved by clang).
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace js = llvm::json;
using std::string;

static string Root;    // directory whose functions are extracted
static string OutFile;

struct Ex {
	ASTContext &X;
	SourceManager &SM;
	PrintingPolicy PP;
	std::map<string, int> types;
	js::Array typetab;
	std::map<Decl const *, string> varids;
	int nvar = 0;
	js::Array functions, classes, globals;
	std::set<string> done_f, done_c, done_g;

	Ex(ASTContext &x) : X(x), SM(x.getSourceManager()), PP(x.getLangOpts())
	{
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.Bool = true;
	}

	string tystr(QualType q)
	{
		if( q.isNull() ) return "";
		q = q.getNonReferenceType().getCanonicalType().getUnqualifiedType();
		return q.getAsString(PP);
	}
	int ty(QualType q)
	{
		string s = tystr(q);
		auto it = types.find(s);
		if( it != types.end() ) return it->second;
		int n = (int)typetab.size();
		types[s] = n;
		typetab.push_back(s);
		return n;
	}
	string file(SourceLocation l)
	{
		l = SM.getExpansionLoc(l);
		return SM.getFilename(l).str();
	}
	int line(SourceLocation l) { return (int)SM.getExpansionLineNumber(l); }
	bool in_repo(SourceLocation l)
	{
		if( l.isInvalid() ) return false;
		string f = file(l);
		if( f.compare(0, Root.size(), Root) ) return false;
		if( f.find("/fmt/") != string::npos ) return false;
		return true;
	}

	string qname(NamedDecl const *d)
	{
		string s;
		llvm::raw_string_ostream os(s);
		d->printQualifiedName(os, PP);
		os.flush();
		return s;
	}
	// qualified name without template arguments and without inline namespaces
	string sname(NamedDecl const *d)
	{
		string s;
		if( auto r = dyn_cast<CXXRecordDecl>(d) ) s = r->isLambda() ? "(lambda)" : r->getNameAsString();
		else if( isa<CXXConstructorDecl>(d) ) s = cast<CXXConstructorDecl>(d)->getParent()->getNameAsString();
		else if( isa<CXXConversionDecl>(d) ) s = "operator " + tystr(cast<CXXConversionDecl>(d)->getConversionType());
		else s = d->getNameAsString();
		for( DeclContext const *c = d->getDeclContext(); c; c = c->getParent() ) {
			if( auto ns = dyn_cast<NamespaceDecl>(c) ) {
				if( ns->isInline() || ns->isAnonymousNamespace() ) continue;
				s = ns->getNameAsString() + "::" + s;
			}
			else if( auto r = dyn_cast<CXXRecordDecl>(c) ) s = (r->isLambda() ? string("(lambda)") : r->getNameAsString()) + "::" + s;
			else if( auto e = dyn_cast<EnumDecl>(c) ) {
				if( e->isScoped() ) s = e->getNameAsString() + "::" + s;
			}
		}
		return s;
	}
	string fkey(FunctionDecl const *f)
	{
		string s = qname(f) + "(";
		bool first = true;
		for( auto p : f->parameters() ) {
			if( !first ) s += ", ";
			first = false;
			s += p->getType().getCanonicalType().getAsString(PP);
		}
		s += ")";
		if( auto m = dyn_cast<CXXMethodDecl>(f) )
			if( m->isConst() ) s += " const";
		if( auto ta = f->getTemplateSpecializationArgs() ) {
			s += " [";
			for( unsigned i = 0; i < ta->size(); ++i ) {
				llvm::raw_string_ostream os(s);
				ta->get(i).print(PP, os, true);
				os << ";";
			}
			s += "]";
		}
		return s;
	}
	string varid(ValueDecl const *d)
	{
		d = cast<ValueDecl>(d->getCanonicalDecl());
		auto it = varids.find(d);
		if( it != varids.end() ) return it->second;
		string id = d->getNameAsString() + "#" + std::to_string(++nvar);
		varids[d] = id;
		return id;
	}


	js::Array callparams(FunctionDecl const *f)
	{ // per parameter: "r" non-const lvalue reference, "c" const reference, "v" value, "p" pointer to non-const
		js::Array a;
		for( auto p : f->parameters() ) {
			QualType t = p->getType();
			if( t->isLValueReferenceType() ) a.push_back(t.getNonReferenceType().isConstQualified() ? "c" : "r");
			else if( t->isRValueReferenceType() ) a.push_back("x");
			else if( t->isPointerType() ) a.push_back(t->getPointeeType().isConstQualified() ? "p" : "P");
			else a.push_back("v");
		}
		return a;
	}

	js::Object node(char const *k, Expr const *e)
	{
		js::Object o;
		o["k"] = k;
		if( e ) {
			o["l"] = line(e->getExprLoc());
			o["t"] = ty(e->getType());
		}
		return o;
	}

	void callee_info(js::Object &o, FunctionDecl const *f)
	{
		FunctionDecl const *d = f;
		o["fn"] = sname(f);
		o["pm"] = callparams(f);
		o["rt"] = ty(f->getReturnType());
		if( f->getReturnType()->isReferenceType() ) o["rr"] = f->getReturnType().getNonReferenceType().isConstQualified() ? 2 : 1;
		if( f->isVariadic() ) o["vr"] = true;
		if( f->isNoReturn() ) o["nr"] = true;
		FunctionDecl const *def = nullptr;
		if( d->hasBody(def) && def && in_repo(def->getLocation()) ) o["rp"] = true; // defined in repo in this TU
		else if( in_repo(d->getLocation()) ) o["rp"] = true;
		if( o.get("rp") ) o["fk"] = fkey(f);
		if( auto m = dyn_cast<CXXMethodDecl>(f) ) {
			if( m->isVirtual() ) o["vi"] = true;
			if( m->isConst() ) o["cm"] = true;
			if( m->isStatic() ) o["st"] = true;
		}
		string fnn = sname(f);
		if( auto ta = fnn.compare(0, 4, "fmt:") == 0 ? nullptr : f->getTemplateSpecializationArgs() ) {
			js::Array a;
			for( unsigned i = 0; i < ta->size(); ++i ) {
				string s;
				llvm::raw_string_ostream os(s);
				ta->get(i).print(PP, os, true);
				os.flush();
				a.push_back(s);
			}
			o["ta"] = std::move(a);
		}
		if( auto c = dyn_cast<CXXConversionDecl>(f) ) { (void)c; o["cv"] = true; }
	}

	js::Value lam(LambdaExpr const *l)
	{
		js::Object o = node("lambda", l);
		CXXMethodDecl const *call = l->getCallOperator();
		Stmt const *body = l->getBody();
		if( l->isGenericLambda() ) {
			if( auto ft = call->getDescribedFunctionTemplate() ) {
				for( auto s : ft->specializations() ) {
					if( s->hasBody() ) { call = cast<CXXMethodDecl>(s); body = s->getBody(); break; }
				}
			}
		}
		js::Array caps;
		for( auto const &c : l->captures() ) {
			js::Object co;
			if( c.capturesThis() ) co["this"] = true;
			else if( c.capturesVariable() ) {
				co["v"] = varid(c.getCapturedVar());
				co["ref"] = c.getCaptureKind() == LCK_ByRef;
			}
			caps.push_back(std::move(co));
		}
		// init captures
		js::Array inits;
		unsigned i = 0;
		for( auto it = l->capture_init_begin(); it != l->capture_init_end(); ++it, ++i ) {
			auto const &c = *(l->capture_begin() + i);
			if( c.capturesVariable() && l->isInitCapture(&c) ) {
				js::Object io;
				io["v"] = varid(c.getCapturedVar());
				io["e"] = expr(*it);
				inits.push_back(std::move(io));
			}
		}
		o["caps"] = std::move(caps);
		if( inits.size() ) o["inits"] = std::move(inits);
		o["params"] = params(call);
		o["body"] = stmt(body);
		o["lid"] = "lambda@" + std::to_string(line(l->getBeginLoc())) + ":" + std::to_string(SM.getExpansionColumnNumber(l->getBeginLoc()));
		return js::Value(std::move(o));
	}

	js::Array params(FunctionDecl const *f)
	{
		js::Array ps;
		for( auto p : f->parameters() ) {
			js::Object po;
			po["v"] = varid(p);
			po["n"] = p->getNameAsString();
			po["t"] = ty(p->getType());
			QualType t = p->getType();
			if( t->isReferenceType() ) po["ref"] = t.getNonReferenceType().isConstQualified() ? 2 : 1;
			if( t->isPointerType() ) po["ptr"] = true;
			if( p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() ) po["def"] = expr(p->getDefaultArg());
			ps.push_back(std::move(po));
		}
		return ps;
	}

	js::Array exprs(llvm::ArrayRef<Expr *> es)
	{
		js::Array a;
		for( auto e : es ) a.push_back(expr(e));
		return a;
	}

	js::Value other(Stmt const *s)
	{
		js::Object o;
		o["k"] = "other";
		o["cls"] = s->getStmtClassName();
		o["l"] = line(s->getBeginLoc());
		if( auto e = dyn_cast<Expr>(s) ) o["t"] = ty(e->getType());
		js::Array ch;
		for( auto c : s->children() )
			if( c ) {
				if( auto e = dyn_cast<Expr>(c) ) ch.push_back(expr(e));
				else ch.push_back(stmt(c));
			}
		o["ch"] = std::move(ch);
		return js::Value(std::move(o));
	}

	js::Value expr(Expr const *e)
	{
		if( !e ) return js::Value(nullptr);
		// transparent nodes
		if( auto x = dyn_cast<FullExpr>(e) ) return expr(x->getSubExpr());
		if( auto x = dyn_cast<ParenExpr>(e) ) return expr(x->getSubExpr());
		if( auto x = dyn_cast<MaterializeTemporaryExpr>(e) ) return expr(x->getSubExpr());
		if( auto x = dyn_cast<CXXBindTemporaryExpr>(e) ) return expr(x->getSubExpr());
		if( auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e) ) return expr(x->getReplacement());
		if( auto x = dyn_cast<CXXDefaultArgExpr>(e) ) {
			js::Value v = expr(x->getExpr());
			if( auto o = v.getAsObject() ) (*o)["defarg"] = true;
			return v;
		}
		if( auto x = dyn_cast<CXXDefaultInitExpr>(e) ) return expr(x->getExpr());
		if( auto x = dyn_cast<CXXStdInitializerListExpr>(e) ) return expr(x->getSubExpr());
		if( auto x = dyn_cast<ChooseExpr>(e) ) return expr(x->getChosenSubExpr());
		if( auto x = dyn_cast<GenericSelectionExpr>(e) ) return expr(x->getResultExpr());
		if( auto x = dyn_cast<CastExpr>(e) ) {
			switch( x->getCastKind() ) {
			case CK_PointerToBoolean:
			case CK_IntegralToBoolean:
			case CK_FloatingToBoolean:
			case CK_MemberPointerToBoolean: {
				js::Object o = node("tobool", e);
				o["e"] = expr(x->getSubExpr());
				return js::Value(std::move(o));
			}
			case CK_NullToPointer: return js::Value(node("null", e));
			case CK_ToVoid: {
				js::Object o = node("cast", e);
				o["e"] = expr(x->getSubExpr());
				o["to"] = "void";
				return js::Value(std::move(o));
			}
			default: break;
			}
			if( isa<ExplicitCastExpr>(x) && x->getCastKind() != CK_ConstructorConversion && x->getCastKind() != CK_UserDefinedConversion && x->getCastKind() != CK_NoOp ) {
				js::Object o = node("cast", e);
				o["e"] = expr(x->getSubExpr());
				return js::Value(std::move(o));
			}
			return expr(x->getSubExpr());
		}
		Expr::EvalResult R;
		if( auto x = dyn_cast<clang::StringLiteral>(e) ) {
			js::Object o = node("str", e);
			if( x->getCharByteWidth() == 1 ) o["v"] = llvm::json::isUTF8(x->getString()) ? x->getString().str() : llvm::json::fixUTF8(x->getString());
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<IntegerLiteral>(e) ) {
			js::Object o = node("int", e);
			o["v"] = (int64_t)x->getValue().getLimitedValue(INT64_MAX);
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CharacterLiteral>(e) ) {
			js::Object o = node("chr", e);
			o["v"] = (int64_t)x->getValue();
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CXXBoolLiteralExpr>(e) ) {
			js::Object o = node("bool", e);
			o["v"] = x->getValue();
			return js::Value(std::move(o));
		}
		if( isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e) ) return js::Value(node("null", e));
		if( isa<CXXThisExpr>(e) ) return js::Value(node("this", e));
		if( auto x = dyn_cast<DeclRefExpr>(e) ) {
			ValueDecl const *d = x->getDecl();
			if( auto ec = dyn_cast<EnumConstantDecl>(d) ) {
				js::Object o = node("enum", e);
				o["n"] = sname(ec);
				o["v"] = ec->getInitVal().getExtValue();
				return js::Value(std::move(o));
			}
			if( auto f = dyn_cast<FunctionDecl>(d) ) {
				js::Object o = node("fref", e);
				callee_info(o, f);
				return js::Value(std::move(o));
			}
			js::Object o = node("var", e);
			if( auto v = dyn_cast<VarDecl>(d) ) {
				if( v->hasGlobalStorage() && !v->isStaticLocal() ) {
					o["g"] = sname(v);
					if( in_repo(v->getLocation()) ) global(v->getDefinition() ? v->getDefinition() : v);
				}
				else {
					o["v"] = varid(v);
					if( v->getType()->isReferenceType() ) o["isref"] = true;
				}
				o["n"] = v->getNameAsString();
				return js::Value(std::move(o));
			}
			if( auto b = dyn_cast<BindingDecl>(d) ) {
				o["v"] = varid(b);
				o["n"] = b->getNameAsString();
				return js::Value(std::move(o));
			}
			o["v"] = varid(d);
			o["n"] = d->getNameAsString();
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<MemberExpr>(e) ) {
			if( auto f = dyn_cast<FieldDecl>(x->getMemberDecl()) ) {
				js::Object o = node("mem", e);
				o["n"] = f->getNameAsString();
				o["c"] = sname(f->getParent());
				o["b"] = expr(x->getBase());
				o["arrow"] = x->isArrow();
				return js::Value(std::move(o));
			}
			if( auto v = dyn_cast<VarDecl>(x->getMemberDecl()) ) {
				js::Object o = node("var", e);
				o["g"] = sname(v);
				o["n"] = v->getNameAsString();
				return js::Value(std::move(o));
			}
			if( auto ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl()) ) {
				js::Object o = node("enum", e);
				o["n"] = sname(ec);
				o["v"] = ec->getInitVal().getExtValue();
				return js::Value(std::move(o));
			}
			return other(e);
		}
		if( auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e) ) {
			js::Object o = node("int", e);
			if( e->EvaluateAsInt(R, X) ) o["v"] = R.Val.getInt().getExtValue();
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<UserDefinedLiteral>(e) ) {
			js::Object o = node("call", e);
			if( auto f = x->getDirectCallee() ) callee_info(o, f);
			o["udl"] = true;
			if( x->getLiteralOperatorKind() == UserDefinedLiteral::LOK_Template ) {
				string lit;
				if( auto f = x->getDirectCallee() )
					if( auto ta = f->getTemplateSpecializationArgs() )
						for( unsigned i = 0; i < ta->size(); ++i )
							if( ta->get(i).getKind() == TemplateArgument::Pack )
								for( auto const &c : ta->get(i).pack_elements() )
									if( c.getKind() == TemplateArgument::Integral ) lit.push_back((char)c.getAsIntegral().getExtValue());
				o["v"] = llvm::json::isUTF8(lit) ? lit : llvm::json::fixUTF8(lit);
			}
			else if( auto l = dyn_cast<clang::StringLiteral>(x->getCookedLiteral()) ) o["v"] = l->getString().str();
			js::Array a;
			for( auto arg : x->arguments() ) a.push_back(expr(arg));
			o["a"] = std::move(a);
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CXXMemberCallExpr>(e) ) {
			js::Object o = node("call", e);
			if( auto f = x->getMethodDecl() ) callee_info(o, f);
			else return other(e);
			o["o"] = expr(x->getImplicitObjectArgument());
			if( auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()) ) {
				o["arrow"] = me->isArrow();
				if( me->hasQualifier() ) o["nonvirt"] = true;
			}
			js::Array a;
			for( auto arg : x->arguments() ) a.push_back(expr(arg));
			o["a"] = std::move(a);
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CXXOperatorCallExpr>(e) ) {
			js::Object o = node("opcall", e);
			if( auto f = x->getDirectCallee() ) callee_info(o, f);
			o["op"] = getOperatorSpelling(x->getOperator());
			js::Array a;
			for( auto arg : x->arguments() ) a.push_back(expr(arg));
			o["a"] = std::move(a);
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CallExpr>(e) ) {
			js::Object o = node("call", e);
			if( auto f = x->getDirectCallee() ) callee_info(o, f);
			else o["ce"] = expr(x->getCallee());
			js::Array a;
			for( auto arg : x->arguments() ) a.push_back(expr(arg));
			o["a"] = std::move(a);
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CXXConstructExpr>(e) ) {
			js::Object o = node("ctor", e);
			CXXConstructorDecl *cd = x->getConstructor();
			o["c"] = sname(cd->getParent());
			o["cm"] = cd->isCopyOrMoveConstructor();
			o["list"] = x->isListInitialization();
			callee_info(o, cd);
			js::Array a;
			for( auto arg : x->arguments() ) a.push_back(expr(arg));
			o["a"] = std::move(a);
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<InitListExpr>(e) ) {
			js::Object o = node("ilist", e);
			InitListExpr const *sf = x->isSemanticForm() ? x : x->getSemanticForm();
			if( !sf ) sf = x;
			js::Array a;
			for( auto i : sf->inits() ) a.push_back(expr(i));
			o["a"] = std::move(a);
			if( auto rt = e->getType()->getAsCXXRecordDecl() ) {
				js::Array fs;
				for( auto f : rt->fields() ) fs.push_back(f->getNameAsString());
				o["fields"] = std::move(fs);
				o["c"] = sname(rt);
			}
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<LambdaExpr>(e) ) return lam(x);
		if( auto x = dyn_cast<UnaryOperator>(e) ) {
			js::Object o = node("un", e);
			o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
			o["post"] = x->isPostfix();
			o["e"] = expr(x->getSubExpr());
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<BinaryOperator>(e) ) {
			js::Object o = node("bin", e);
			o["op"] = x->getOpcodeStr().str();
			o["a"] = js::Array{expr(x->getLHS()), expr(x->getRHS())};
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<ConditionalOperator>(e) ) {
			js::Object o = node("cond", e);
			o["c"] = expr(x->getCond());
			o["a"] = expr(x->getTrueExpr());
			o["b"] = expr(x->getFalseExpr());
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<ArraySubscriptExpr>(e) ) {
			js::Object o = node("idx", e);
			o["b"] = expr(x->getBase());
			o["i"] = expr(x->getIdx());
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CXXThrowExpr>(e) ) {
			js::Object o = node("throw", e);
			o["e"] = expr(x->getSubExpr());
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CXXNewExpr>(e) ) {
			js::Object o = node("new", e);
			o["nt"] = ty(x->getAllocatedType());
			o["e"] = expr(x->getConstructExpr() ? (Expr const *)x->getConstructExpr() : x->getInitializer());
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CXXDeleteExpr>(e) ) {
			js::Object o = node("delete", e);
			o["e"] = expr(x->getArgument());
			return js::Value(std::move(o));
		}
		if( auto x = dyn_cast<CXXScalarValueInitExpr>(e) ) { (void)x; return js::Value(node("zero", e)); }
		if( auto x = dyn_cast<ImplicitValueInitExpr>(e) ) { (void)x; return js::Value(node("zero", e)); }
		return other(e);
	}

	js::Value vardecl(VarDecl const *v)
	{
		js::Object o;
		o["v"] = varid(v);
		o["n"] = v->getNameAsString();
		o["t"] = ty(v->getType());
		o["l"] = line(v->getLocation());
		if( v->isStaticLocal() ) o["static"] = true;
		if( v->getType().getNonReferenceType().isConstQualified() ) o["const"] = true;
		if( v->getType()->isReferenceType() ) o["ref"] = v->getType().getNonReferenceType().isConstQualified() ? 2 : 1;
		if( v->getInit() ) o["i"] = expr(v->getInit());
		if( auto d = dyn_cast<DecompositionDecl>(v) ) {
			js::Array b;
			for( auto bd : d->bindings() ) b.push_back(varid(bd));
			o["bind"] = std::move(b);
		}
		return js::Value(std::move(o));
	}

	js::Value stmt(Stmt const *s)
	{
		if( !s ) return js::Value(nullptr);
		if( auto e = dyn_cast<Expr>(s) ) {
			js::Object o;
			o["k"] = "expr";
			o["l"] = line(s->getBeginLoc());
			o["e"] = expr(e);
			return js::Value(std::move(o));
		}
		js::Object o;
		o["l"] = line(s->getBeginLoc());
		if( auto x = dyn_cast<CompoundStmt>(s) ) {
			o["k"] = "block";
			js::Array a;
			for( auto c : x->body() ) a.push_back(stmt(c));
			o["s"] = std::move(a);
		}
		else if( auto x = dyn_cast<DeclStmt>(s) ) {
			o["k"] = "decl";
			js::Array a;
			for( auto d : x->decls() )
				if( auto v = dyn_cast<VarDecl>(d) ) a.push_back(vardecl(v));
			o["d"] = std::move(a);
		}
		else if( auto x = dyn_cast<IfStmt>(s) ) {
			o["k"] = "if";
			if( x->getInit() ) o["init"] = stmt(x->getInit());
			if( x->getConditionVariable() ) o["var"] = vardecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["then"] = stmt(x->getThen());
			if( x->getElse() ) o["else"] = stmt(x->getElse());
		}
		else if( auto x = dyn_cast<ForStmt>(s) ) {
			o["k"] = "for";
			if( x->getInit() ) o["init"] = stmt(x->getInit());
			if( x->getCond() ) o["c"] = expr(x->getCond());
			if( x->getInc() ) o["inc"] = expr(x->getInc());
			o["body"] = stmt(x->getBody());
		}
		else if( auto x = dyn_cast<CXXForRangeStmt>(s) ) {
			o["k"] = "forr";
			o["var"] = vardecl(x->getLoopVariable());
			o["r"] = expr(x->getRangeInit());
			o["body"] = stmt(x->getBody());
		}
		else if( auto x = dyn_cast<WhileStmt>(s) ) {
			o["k"] = "while";
			if( x->getConditionVariable() ) o["var"] = vardecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["body"] = stmt(x->getBody());
		}
		else if( auto x = dyn_cast<DoStmt>(s) ) {
			o["k"] = "do";
			o["c"] = expr(x->getCond());
			o["body"] = stmt(x->getBody());
		}
		else if( auto x = dyn_cast<ReturnStmt>(s) ) {
			o["k"] = "return";
			if( x->getRetValue() ) o["e"] = expr(x->getRetValue());
		}
		else if( isa<BreakStmt>(s) ) o["k"] = "break";
		else if( isa<ContinueStmt>(s) ) o["k"] = "continue";
		else if( isa<NullStmt>(s) ) o["k"] = "null";
		else if( auto x = dyn_cast<SwitchStmt>(s) ) {
			o["k"] = "switch";
			if( x->getInit() ) o["init"] = stmt(x->getInit());
			if( x->getConditionVariable() ) o["var"] = vardecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["body"] = stmt(x->getBody());
		}
		else if( auto x = dyn_cast<CaseStmt>(s) ) {
			o["k"] = "case";
			o["e"] = expr(x->getLHS());
			o["s"] = stmt(x->getSubStmt());
		}
		else if( auto x = dyn_cast<DefaultStmt>(s) ) {
			o["k"] = "default";
			o["s"] = stmt(x->getSubStmt());
		}
		else if( auto x = dyn_cast<CXXTryStmt>(s) ) {
			o["k"] = "try";
			o["body"] = stmt(x->getTryBlock());
			js::Array a;
			for( unsigned i = 0; i < x->getNumHandlers(); ++i ) {
				js::Object h;
				if( x->getHandler(i)->getExceptionDecl() ) h["var"] = vardecl(x->getHandler(i)->getExceptionDecl());
				h["body"] = stmt(x->getHandler(i)->getHandlerBlock());
				a.push_back(std::move(h));
			}
			o["h"] = std::move(a);
		}
		else if( auto x = dyn_cast<AttributedStmt>(s) ) return stmt(x->getSubStmt());
		else if( auto x = dyn_cast<LabelStmt>(s) ) return stmt(x->getSubStmt());
		else return other(s);
		return js::Value(std::move(o));
	}

	void global(VarDecl const *v)
	{
		string n = sname(v);
		if( !done_g.insert(n).second ) return;
		if( !v->getInit() && v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly ) { done_g.erase(n); return; }
		js::Object o;
		o["n"] = n;
		o["t"] = ty(v->getType());
		o["l"] = line(v->getLocation());
		o["f"] = file(v->getLocation());
		o["const"] = v->getType().isConstQualified();
		if( v->getInit() ) o["i"] = expr(v->getInit());
		globals.push_back(std::move(o));
	}

	void function(FunctionDecl const *f)
	{
		if( !f->isThisDeclarationADefinition() || !f->hasBody() || f->isDependentContext() ) return;
		if( f->isImplicit() || f->isDefaulted() ) return;
		if( auto m = dyn_cast<CXXMethodDecl>(f) )
			if( m->getParent()->isLambda() ) return;
		string key = fkey(f);
		if( !done_f.insert(key).second ) return;
		js::Object o;
		o["fk"] = key;
		o["fn"] = sname(f);
		o["f"] = file(f->getLocation());
		o["l"] = line(f->getLocation());
		o["rt"] = ty(f->getReturnType());
		if( f->getReturnType()->isReferenceType() ) o["rr"] = f->getReturnType().getNonReferenceType().isConstQualified() ? 2 : 1;
		o["params"] = params(f);
		if( auto m = dyn_cast<CXXMethodDecl>(f) ) {
			o["cls"] = sname(m->getParent());
			if( m->isStatic() ) o["st"] = true;
			if( m->isVirtual() ) o["vi"] = true;
			js::Array ov;
			for( auto b : m->overridden_methods() ) ov.push_back(fkey(b));
			o["ov"] = std::move(ov);
			if( auto c = dyn_cast<CXXConstructorDecl>(f) ) {
				js::Array in;
				for( auto i : c->inits() ) {
					js::Object io;
					if( i->isAnyMemberInitializer() ) io["n"] = i->getAnyMember()->getNameAsString();
					else if( i->isBaseInitializer() ) io["base"] = true;
					io["e"] = expr(i->getInit());
					in.push_back(std::move(io));
				}
				o["inits"] = std::move(in);
			}
		}
		o["body"] = stmt(f->getBody());
		functions.push_back(std::move(o));
	}

	void record(CXXRecordDecl const *c)
	{
		if( !c->isThisDeclarationADefinition() || c->isLambda() || c->isDependentContext() ) return;
		string n = sname(c);
		if( !done_c.insert(n).second ) return;
		js::Object o;
		o["n"] = n;
		o["f"] = file(c->getLocation());
		o["l"] = line(c->getLocation());
		js::Array fs;
		for( auto f : c->fields() ) {
			js::Object fo;
			fo["n"] = f->getNameAsString();
			fo["t"] = ty(f->getType());
			fo["l"] = line(f->getLocation());
			fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected";
			if( f->hasInClassInitializer() ) fo["i"] = expr(f->getInClassInitializer());
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		js::Array bs;
		for( auto const &b : c->bases() )
			if( auto r = b.getType()->getAsCXXRecordDecl() ) bs.push_back(sname(r));
		o["bases"] = std::move(bs);
		js::Array ms;
		for( auto m : c->methods() ) {
			js::Object mo;
			mo["fk"] = fkey(m);
			mo["n"] = m->getNameAsString();
			mo["vi"] = m->isVirtual();
			mo["pure"] = m->isPure();
			ms.push_back(std::move(mo));
		}
		o["methods"] = std::move(ms);
		classes.push_back(std::move(o));
	}
};

class V : public RecursiveASTVisitor<V>
{
public:
	Ex &E;
	V(Ex &e) : E(e) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool TraverseDecl(Decl *d)
	{
		if( d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) ) {
			if( d->getLocation().isValid() && !E.in_repo(d->getLocation()) ) return true;
		}
		return RecursiveASTVisitor<V>::TraverseDecl(d);
	}
	bool VisitFunctionDecl(FunctionDecl *f)
	{
		if( E.in_repo(f->getLocation()) ) E.function(f);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *c)
	{
		if( E.in_repo(c->getLocation()) ) E.record(c);
		return true;
	}
	bool VisitVarDecl(VarDecl *v)
	{
		if( v->hasGlobalStorage() && !v->isStaticLocal() && E.in_repo(v->getLocation()) && !v->isInvalidDecl() && !v->getDeclContext()->isDependentContext() ) E.global(v);
		return true;
	}
};

class C : public ASTConsumer
{
public:
	void HandleTranslationUnit(ASTContext &x) override
	{
		Ex e(x);
		V v(e);
		v.TraverseDecl(x.getTranslationUnitDecl());
		js::Object o;
		o["errors"] = x.getDiagnostics().hasErrorOccurred();
		o["functions"] = std::move(e.functions);
		o["classes"] = std::move(e.classes);
		o["globals"] = std::move(e.globals);
		o["types"] = std::move(e.typetab);
		std::error_code ec;
		llvm::raw_fd_ostream os(OutFile, ec);
		os << js::Value(std::move(o));
	}
};
class A : public ASTFrontendAction
{
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<C>(); }
};

int main(int argc, const char **argv)
{ // extract ROOT OUT FILE -- flags
	if( argc < 5 ) return 2;
	Root = argv[1];
	OutFile = argv[2];
	string src = argv[3];
	std::vector<string> flags;
	for( int i = 5; i < argc; ++i ) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {src});
	return tool.run(tooling::newFrontendActionFactory<A>().get()) ? 3 : 0;
}
