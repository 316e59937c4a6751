// Lowers every function of the analysed repository that a translation unit defines (member functions,
// lambdas, template instantiations, constructors with their initialisers) from clang's resolved AST into
// a compact JSON form for the Python analyses.  usage: extract <root> <out.json> -- <clang args> file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/FileManager.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root, OutPath;

namespace {
class Lower
{
public:
	ASTContext &C;
	SourceManager &SM;
	ASTNameGenerator NG;
	std::map<const void *, int> declIds;
	std::map<const void *, int> typeIds;
	json::Array types;
	json::Object functions, records, enums, globals;
	std::set<const FunctionDecl *> seenFn;
	std::set<const CXXRecordDecl *> seenRec;
	std::set<const EnumDecl *> seenEnum;
	std::deque<const FunctionDecl *> work;
	json::Array unsupported;
	PrintingPolicy PP;

	explicit Lower(ASTContext &c) : C(c), SM(c.getSourceManager()), NG(c), PP(c.getPrintingPolicy())
	{
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.PrintCanonicalTypes = true;
		PP.Bool = true;
		PP.SuppressUnwrittenScope = false;
		PP.SuppressInlineNamespace = true;
	}

	int id(const void *p)
	{
		auto it = declIds.find(p);
		if (it != declIds.end())
			return it->second;
		int n = declIds.size() + 1;
		declIds[p] = n;
		return n;
	}

	std::string fileOf(SourceLocation l)
	{
		l = SM.getExpansionLoc(l);
		if (l.isInvalid())
			return "";
		auto f = SM.getFileEntryRefForID(SM.getFileID(l));
		if (!f)
			return "";
		llvm::SmallString<256> p(f->getFileEntry().tryGetRealPathName());
		if (p.empty())
			p = f->getName();
		return std::string(p);
	}
	bool inRepo(SourceLocation l)
	{
		std::string f = fileOf(l);
		return f.rfind(Root + "/", 0) == 0;
	}
	json::Value loc(SourceLocation l)
	{
		l = SM.getExpansionLoc(l);
		if (l.isInvalid())
			return nullptr;
		std::string f = fileOf(l);
		if (f.rfind(Root + "/", 0) == 0)
			f = f.substr(Root.size() + 1);
		return json::Array{ f, (int64_t)SM.getExpansionLineNumber(l) };
	}

	std::string qual(const NamedDecl *d)
	{
		std::string s;
		llvm::raw_string_ostream os(s);
		d->printQualifiedName(os, PP);
		return os.str();
	}

	int type(QualType q)
	{
		if (q.isNull())
			return -1;
		q = q.getCanonicalType();
		auto it = typeIds.find(q.getAsOpaquePtr());
		if (it != typeIds.end())
			return it->second;
		int n = types.size();
		typeIds[q.getAsOpaquePtr()] = n;
		types.push_back(nullptr);
		json::Object o;
		o["s"] = q.getAsString(PP);
		if (q.isConstQualified())
			o["const"] = true;
		if (auto *r = q->getAs<ReferenceType>())
		{
			o["cat"] = q->isRValueReferenceType() ? "rref" : "ref";
			o["to"] = type(r->getPointeeType());
		}
		else if (auto *p = q->getAs<PointerType>())
		{
			o["cat"] = "ptr";
			o["to"] = type(p->getPointeeType());
		}
		else if (q->isBooleanType())
			o["cat"] = "bool";
		else if (q->isEnumeralType())
		{
			o["cat"] = "enum";
			auto *e = q->castAs<EnumType>()->getDecl();
			o["name"] = qual(e);
			emitEnum(e);
		}
		else if (q->isIntegerType())
		{
			o["cat"] = "int";
			o["uns"] = q->isUnsignedIntegerType();
			if (!q->isDependentType())
				o["bits"] = (int64_t)C.getTypeSize(q);
		}
		else if (q->isNullPtrType())
			o["cat"] = "null";
		else if (q->isVoidType())
			o["cat"] = "void";
		else if (auto *r = q->getAsCXXRecordDecl())
		{
			o["cat"] = "class";
			if (r->isLambda())
			{
				o["cat"] = "lambda";
				o["rec"] = id(r->getCanonicalDecl());
			}
			o["name"] = qual(r);
			if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
			{
				json::Array a;
				for (auto &ta : sp->getTemplateArgs().asArray())
				{
					if (ta.getKind() == TemplateArgument::Type)
						a.push_back(type(ta.getAsType()));
					else
						a.push_back(nullptr);
				}
				o["args"] = std::move(a);
			}
			emitRecord(r);
		}
		else if (q->isFunctionType() || q->isMemberFunctionPointerType())
			o["cat"] = "func";
		else
			o["cat"] = "other";
		types[n] = std::move(o);
		return n;
	}

	void emitEnum(const EnumDecl *e)
	{
		if (!(e = e->getDefinition()) || !seenEnum.insert(e).second || !inRepo(e->getLocation()))
			return;
		json::Array a;
		for (auto *k : e->enumerators())
			a.push_back(json::Array{ k->getName().str(), k->getInitVal().getExtValue() });
		enums[qual(e)] = std::move(a);
	}

	static std::string recKey(const CXXRecordDecl *r, Lower &l)
	{
		std::string s;
		return l.C.getRecordType(r).getCanonicalType().getAsString(l.PP);
	}

	void emitRecord(const CXXRecordDecl *r)
	{
		r = r->getDefinition();
		if (!r || r->isLambda() || r->isDependentContext() || !inRepo(r->getLocation()) || !seenRec.insert(r).second)
			return;
		json::Object o;
		std::string key = C.getRecordType(r).getCanonicalType().getAsString(PP);
		o["name"] = qual(r);
		o["loc"] = loc(r->getLocation());
		json::Array bases, fields, methods;
		for (auto &b : r->bases())
			bases.push_back(type(b.getType()));
		o["abstract"] = r->isAbstract();
		for (auto *f : r->fields())
		{
			json::Object fo;
			fo["name"] = f->getName().str();
			fo["t"] = type(f->getType());
			fo["mutable"] = f->isMutable();
			fo["loc"] = loc(f->getLocation());
			fo["static"] = false;
			if (f->hasInClassInitializer() && f->getInClassInitializer())
				fo["init"] = expr(f->getInClassInitializer());
			fields.push_back(std::move(fo));
		}
		for (auto *m : r->methods())
		{
			if (m->isImplicit() && !m->isDefaulted())
				continue;
			ref(m);
			methods.push_back(json::Object{ { "name", m->getNameAsString() },
											{ "f", fkey(m) },
											{ "access", m->getAccess() == AS_public ? "public" : "nonpublic" },
											{ "virtual", m->isVirtual() },
											{ "pure", m->isPureVirtual() },
											{ "implicit", m->isImplicit() },
											{ "deleted", m->isDeleted() } });
		}
		if (auto *d = r->getDestructor())
			o["dtor"] = fkey(d);
		o["bases"] = std::move(bases);
		o["fields"] = std::move(fields);
		o["methods"] = std::move(methods);
		records[key] = std::move(o);
	}

	bool isLocalFn(const FunctionDecl *f)
	{
		if (auto *m = dyn_cast<CXXMethodDecl>(f))
			if (m->getParent()->isLambda() || m->getParent()->isLocalClass())
				return true;
		return false;
	}

	std::string fkey(const FunctionDecl *f)
	{
		f = f->getCanonicalDecl();
		if (isLocalFn(f))
			return "@" + std::to_string(id(f));
		std::string s;
		if (isa<CXXDeductionGuideDecl>(f) || f->isDependentContext())
			return "?" + qual(f);
		s = NG.getName(f);
		if (f->getFormalLinkage() != Linkage::External && f->getFormalLinkage() != Linkage::Module)
			s += "@" + std::to_string(id(f));
		return s;
	}

	void ref(const FunctionDecl *f)
	{
		const FunctionDecl *d = nullptr;
		if (f->isDependentContext())
			return;
		if (!f->hasBody(d))
			d = nullptr;
		if (!d)
		{
			if (f->isDefaulted() && inRepo(f->getLocation()))
				d = f;
			else
				return;
		}
		if (!inRepo(d->getLocation()))
			return;
		if (seenFn.insert(d).second)
			work.push_back(d);
	}

	json::Value fnRef(const FunctionDecl *f)
	{
		ref(f);
		json::Object o;
		o["f"] = fkey(f);
		o["n"] = qual(f);
		if (auto *m = dyn_cast<CXXMethodDecl>(f))
		{
			if (m->isVirtual())
				o["virt"] = true;
			if (m->isStatic())
				o["static"] = true;
			if (m->isConst())
				o["cm"] = true;
			if (!m->getParent()->isLambda() && !m->getParent()->isDependentContext())
				o["cls"] = type(C.getRecordType(m->getParent()));
		}
		if (inRepo(f->getLocation()))
			o["repo"] = true;
		if (auto *ta = f->getTemplateSpecializationArgs())
		{
			json::Array a;
			for (auto &x : ta->asArray())
				if (x.getKind() == TemplateArgument::Type)
					a.push_back(type(x.getAsType()));
			if (!a.empty())
				o["ta"] = std::move(a);
		}
		json::Array pt;
		for (auto *p : f->parameters())
			pt.push_back(type(p->getType()));
		o["pt"] = std::move(pt);
		return json::Value(std::move(o));
	}

	json::Object base(const char *k, const Expr *e)
	{
		json::Object o;
		o["k"] = k;
		o["t"] = type(e->getType());
		o["l"] = loc(e->getExprLoc());
		if (e->isGLValue())
			o["lv"] = true;
		return o;
	}

	json::Array args(llvm::ArrayRef<const Expr *> as)
	{
		json::Array a;
		for (auto *x : as)
			a.push_back(expr(x));
		return a;
	}

	json::Value expr(const Expr *e)
	{
		if (!e)
			return nullptr;
		if (auto *x = dyn_cast<ParenExpr>(e))
			return expr(x->getSubExpr());
		if (auto *x = dyn_cast<FullExpr>(e))
			return expr(x->getSubExpr());
		if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
		{
			auto o = base("mat", e);
			o["e"] = expr(x->getSubExpr());
			if (x->getStorageDuration() != SD_FullExpression)
				o["ext"] = true;
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e))
			return expr(x->getSubExpr());
		if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
			return expr(x->getReplacement());
		if (auto *x = dyn_cast<CXXDefaultArgExpr>(e))
			return expr(x->getExpr());
		if (auto *x = dyn_cast<CXXDefaultInitExpr>(e))
			return expr(x->getExpr());
		if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e))
			return expr(x->getSemanticForm());
		if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
		{
			auto o = base("stdinit", e);
			o["e"] = expr(x->getSubExpr());
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<IntegerLiteral>(e))
		{
			auto o = base("int", e);
			llvm::SmallString<40> s;
			x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
			o["v"] = std::string(s);
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e))
		{
			auto o = base("bool", e);
			o["v"] = x->getValue();
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CharacterLiteral>(e))
		{
			auto o = base("int", e);
			o["v"] = std::to_string(x->getValue());
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<FloatingLiteral>(e))
		{
			auto o = base("float", e);
			o["v"] = x->getValueAsApproximateDouble();
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<clang::StringLiteral>(e))
		{
			auto o = base("str", e);
			std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : "?";
			o["v"] = json::isUTF8(s) ? s : json::fixUTF8(s);
			return json::Value(std::move(o));
		}
		if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
			return json::Value(base("null", e));
		if (isa<CXXThisExpr>(e))
			return json::Value(base("this", e));
		if (auto *x = dyn_cast<CallExpr>(e))
			if (auto *f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl()))
				if (f->isConstexpr() && !inRepo(f->getLocation()) && !e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->isPRValue())
				{
					Expr::EvalResult r;
					if (e->EvaluateAsRValue(r, C) && !r.HasSideEffects && r.Val.isInt())
					{
						auto o = base("int", e);
						llvm::SmallString<40> s;
						r.Val.getInt().toString(s, 10);
						o["v"] = std::string(s);
						return json::Value(std::move(o));
					}
				}
		if (auto *x = dyn_cast<UserDefinedLiteral>(e))
		{
			auto o = base("call", e);
			if (auto *f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl()))
				o["fn"] = fnRef(f);
			Expr::EvalResult r;
			o["args"] = args(llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<DeclRefExpr>(e))
			return declRef(x, x->getDecl());
		if (auto *x = dyn_cast<MemberExpr>(e))
		{
			auto *d = x->getMemberDecl();
			if (isa<FieldDecl>(d))
			{
				auto o = base("fld", e);
				o["b"] = expr(x->getBase());
				o["arrow"] = x->isArrow();
				o["n"] = d->getName().str();
				o["cls"] = type(C.getRecordType(cast<CXXRecordDecl>(cast<FieldDecl>(d)->getParent())));
				return json::Value(std::move(o));
			}
			if (auto *v = dyn_cast<VarDecl>(d))
				return declRef(x, v);
			if (auto *ec = dyn_cast<EnumConstantDecl>(d))
				return declRef(x, ec);
			if (auto *f = dyn_cast<FunctionDecl>(d))
			{
				auto o = base("fnref", e);
				o["fn"] = fnRef(f);
				o["b"] = expr(x->getBase());
				return json::Value(std::move(o));
			}
		}
		if (auto *x = dyn_cast<ImplicitCastExpr>(e))
			return castExpr(x);
		if (auto *x = dyn_cast<ExplicitCastExpr>(e))
			return castExpr(x);
		if (auto *x = dyn_cast<UnaryOperator>(e))
		{
			auto o = base("un", e);
			std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
			if (x->isPostfix())
				op = "post" + op;
			o["op"] = op;
			o["e"] = expr(x->getSubExpr());
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<BinaryOperator>(e))
		{
			auto o = base(x->isAssignmentOp() ? "asg" : "bin", e);
			o["op"] = x->getOpcodeStr().str();
			o["a"] = expr(x->getLHS());
			o["b"] = expr(x->getRHS());
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<ConditionalOperator>(e))
		{
			auto o = base("cond", e);
			o["c"] = expr(x->getCond());
			o["a"] = expr(x->getTrueExpr());
			o["b"] = expr(x->getFalseExpr());
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<ArraySubscriptExpr>(e))
		{
			auto o = base("sub", e);
			o["a"] = expr(x->getBase());
			o["b"] = expr(x->getIdx());
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXOperatorCallExpr>(e))
		{
			auto o = base("call", e);
			json::Array a = args(llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
			if (auto *f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl()))
			{
				o["fn"] = fnRef(f);
				if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic())
				{
					o["obj"] = a[0];
					json::Array rest;
					for (size_t i = 1; i < a.size(); ++i)
						rest.push_back(a[i]);
					a = std::move(rest);
				}
			}
			o["oper"] = getOperatorSpelling(x->getOperator());
			o["args"] = std::move(a);
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXMemberCallExpr>(e))
		{
			auto o = base("call", e);
			if (auto *f = x->getMethodDecl())
			{
				o["fn"] = fnRef(f);
				o["obj"] = expr(x->getImplicitObjectArgument());
				if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
				{
					if (me->isArrow())
						o["arrow"] = true;
					if (me->hasQualifier())
						o["nonvirt"] = true;
				}
			}
			else if (auto *b = dyn_cast<BinaryOperator>(x->getCallee()->IgnoreParens()); b && b->isPtrMemOp())
			{
				o["mp"] = expr(b->getRHS());
				o["obj"] = expr(b->getLHS());
				o["arrow"] = b->getOpcode() == BO_PtrMemI;
			}
			else
				o["callee"] = expr(x->getCallee());
			o["args"] = args(llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CallExpr>(e))
		{
			auto o = base("call", e);
			if (auto *f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl()))
				o["fn"] = fnRef(f);
			else
				o["callee"] = expr(x->getCallee());
			o["args"] = args(llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXConstructExpr>(e))
		{
			auto o = base("new_", e);
			auto *c = x->getConstructor();
			o["k"] = "ctor";
			o["fn"] = fnRef(c);
			o["copy"] = c->isCopyConstructor();
			o["move"] = c->isMoveConstructor();
			o["dflt"] = c->isDefaultConstructor();
			o["list"] = x->isListInitialization();
			o["args"] = args(llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e))
		{
			auto o = base("other", e);
			o["c"] = "CXXInheritedCtorInitExpr";
			(void)x;
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<LambdaExpr>(e))
		{
			auto o = base("lambda", e);
			json::Array caps;
			auto ci = x->capture_init_begin();
			for (auto &cap : x->captures())
			{
				json::Object co;
				if (cap.capturesThis())
				{
					co["this"] = true;
					co["byref"] = cap.getCaptureKind() == LCK_This;
				}
				else if (cap.capturesVariable())
				{
					auto *v = cap.getCapturedVar();
					co["d"] = id(v->getCanonicalDecl());
					co["n"] = v->getName().str();
					co["byref"] = cap.getCaptureKind() == LCK_ByRef;
					co["initcap"] = v->isInitCapture();
					co["vt"] = type(v->getType());
				}
				co["init"] = expr(*ci);
				++ci;
				caps.push_back(std::move(co));
			}
			o["caps"] = std::move(caps);
			auto *cls = x->getLambdaClass();
			json::Array ops;
			if (auto *ft = cls->getDependentLambdaCallOperator())
			{
				for (auto *s : ft->specializations())
				{
					ref(s);
					ops.push_back(fkey(s));
				}
			}
			else if (auto *op = cls->getLambdaCallOperator())
			{
				ref(op);
				ops.push_back(fkey(op));
			}
			o["ops"] = std::move(ops);
			o["mut"] = x->isMutable();
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<InitListExpr>(e))
		{
			if (x->isSemanticForm() == false && x->getSemanticForm())
				x = x->getSemanticForm();
			auto o = base("init", e);
			json::Array a;
			for (unsigned i = 0; i < x->getNumInits(); ++i)
				a.push_back(expr(x->getInit(i)));
			o["args"] = std::move(a);
			if (auto *r = x->getType()->getAsCXXRecordDecl())
			{
				json::Array fs;
				for (auto &b : r->bases())
				{
					(void)b;
					fs.push_back("<base>");
				}
				for (auto *f : r->fields())
					fs.push_back(f->getName().str());
				o["fields"] = std::move(fs);
			}
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXParenListInitExpr>(e))
		{
			auto o = base("init", e);
			json::Array a;
			for (auto *i : x->getInitExprs())
				a.push_back(expr(i));
			o["args"] = std::move(a);
			if (auto *r = x->getType()->getAsCXXRecordDecl())
			{
				json::Array fs;
				for (auto *f : r->fields())
					fs.push_back(f->getName().str());
				o["fields"] = std::move(fs);
			}
			return json::Value(std::move(o));
		}
		if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
			return json::Value(base("zero", e));
		if (auto *x = dyn_cast<CXXThrowExpr>(e))
		{
			auto o = base("throw", e);
			if (x->getSubExpr())
			{
				o["e"] = expr(x->getSubExpr());
				o["et"] = type(x->getSubExpr()->getType());
			}
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXNewExpr>(e))
		{
			auto o = base("new", e);
			o["at"] = type(x->getAllocatedType());
			if (x->hasInitializer())
				o["e"] = expr(x->getInitializer());
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<CXXDeleteExpr>(e))
		{
			auto o = base("delete", e);
			o["e"] = expr(x->getArgument());
			return json::Value(std::move(o));
		}
		if (auto *x = dyn_cast<OpaqueValueExpr>(e))
			return expr(x->getSourceExpr());
		if (auto *x = dyn_cast<ArrayInitLoopExpr>(e))
			return expr(x->getCommonExpr());
		Expr::EvalResult r;
		if (!e->isValueDependent() && e->isPRValue() && e->EvaluateAsRValue(r, C) && r.Val.isInt())
		{
			auto o = base("int", e);
			llvm::SmallString<40> s;
			r.Val.getInt().toString(s, 10);
			o["v"] = std::string(s);
			return json::Value(std::move(o));
		}
		auto o = base("other", e);
		o["c"] = e->getStmtClassName();
		json::Array ch;
		for (auto *c : e->children())
			if (auto *ce = dyn_cast_or_null<Expr>(c))
				ch.push_back(expr(ce));
		o["ch"] = std::move(ch);
		if (inRepo(e->getExprLoc()))
			unsupported.push_back(json::Array{ e->getStmtClassName(), loc(e->getExprLoc()) });
		return json::Value(std::move(o));
	}

	json::Value declRef(const Expr *e, const ValueDecl *d)
	{
		if (auto *f = dyn_cast<FunctionDecl>(d))
		{
			auto o = base("fnref", e);
			o["fn"] = fnRef(f);
			return json::Value(std::move(o));
		}
		if (auto *ec = dyn_cast<EnumConstantDecl>(d))
		{
			auto o = base("enum", e);
			o["n"] = qual(ec);
			o["c"] = ec->getName().str();
			if (auto *ed = dyn_cast<EnumDecl>(ec->getDeclContext()))
			{
				o["en"] = qual(ed);
				emitEnum(ed);
			}
			llvm::SmallString<40> s;
			ec->getInitVal().toString(s, 10);
			o["v"] = std::string(s);
			return json::Value(std::move(o));
		}
		if (auto *b = dyn_cast<BindingDecl>(d))
		{
			auto o = base("ref", e);
			o["d"] = id(b->getCanonicalDecl());
			o["n"] = b->getName().str();
			o["bind"] = true;
			return json::Value(std::move(o));
		}
		if (auto *f = dyn_cast<FieldDecl>(d))
		{
			auto o = base("mfield", e);
			o["n"] = f->getName().str();
			return json::Value(std::move(o));
		}
		auto o = base("ref", e);
		o["d"] = id(d->getCanonicalDecl());
		o["n"] = d->getName().str();
		if (auto *v = dyn_cast<VarDecl>(d))
		{
			o["vt"] = type(v->getType());
			if (v->hasGlobalStorage())
			{
				o["g"] = qual(v);
				if (v->isStaticLocal())
					o["g"] = qual(v) + "@static" + std::to_string(id(v->getCanonicalDecl()));
				if (v->getTLSKind() != VarDecl::TLS_None)
					o["g"] = o.getString("g")->str() + "@tls";
				o["q"] = qual(v);
				if (inRepo(v->getLocation()))
					emitGlobal(v, o.getString("g")->str());
				else
				{
					// a constant of the standard library, e.g. numeric_limits
					Expr::EvalResult r;
					if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsRValue(r, C) && r.Val.isInt())
					{
						llvm::SmallString<40> s;
						r.Val.getInt().toString(s, 10);
						o["cv"] = std::string(s);
					}
				}
				if (v->getTLSKind() != VarDecl::TLS_None)
					o["tls"] = true;
			}
		}
		return json::Value(std::move(o));
	}

	std::set<std::string> seenGlob;
	void emitGlobal(const VarDecl *v, std::string key)
	{
		const VarDecl *def = v->getDefinition();
		if (!def)
			def = v->getInitializingDeclaration();
		if (!def)
			return;
		if (!seenGlob.insert(key).second)
			return;
		json::Object o;
		o["t"] = type(def->getType());
		o["loc"] = loc(def->getLocation());
		o["constq"] = def->getType().isConstQualified();
		if (def->hasInit() && !def->getInit()->isValueDependent())
			o["init"] = expr(def->getInit());
		globals[key] = std::move(o);
	}

	json::Value castExpr(const CastExpr *x)
	{
		const Expr *s = x->getSubExpr();
		switch (x->getCastKind())
		{
		case CK_LValueToRValue:
		{
			auto o = base("load", x);
			o["e"] = expr(s);
			return json::Value(std::move(o));
		}
		case CK_IntegralCast:
		case CK_IntegralToFloating:
		case CK_FloatingToIntegral:
		{
			auto o = base("icast", x);
			o["e"] = expr(s);
			return json::Value(std::move(o));
		}
		case CK_IntegralToBoolean:
		case CK_PointerToBoolean:
		case CK_MemberPointerToBoolean:
		{
			auto o = base("tobool", x);
			o["e"] = expr(s);
			return json::Value(std::move(o));
		}
		case CK_NullToPointer:
		case CK_NullToMemberPointer:
			return json::Value(base("null", x));
		case CK_ToVoid:
		{
			auto o = base("void", x);
			o["e"] = expr(s);
			return json::Value(std::move(o));
		}
		case CK_Dynamic:
		{
			auto o = base("dyncast", x);
			o["e"] = expr(s);
			return json::Value(std::move(o));
		}
		default:
			return expr(s);
		}
	}

	json::Value varDecl(const VarDecl *v)
	{
		json::Object o;
		o["d"] = id(v->getCanonicalDecl());
		o["n"] = v->getName().str();
		o["t"] = type(v->getType());
		o["l"] = loc(v->getLocation());
		if (v->isStaticLocal())
			o["static"] = qual(v) + "@static" + std::to_string(id(v->getCanonicalDecl())) + (v->getTLSKind() != VarDecl::TLS_None ? "@tls" : "");
		if (v->getTLSKind() != VarDecl::TLS_None)
			o["tls"] = true;
		if (auto *dd = dyn_cast<DecompositionDecl>(v))
		{
			json::Array b;
			for (auto *x : dd->bindings())
			{
				json::Object bo;
				bo["d"] = id(x->getCanonicalDecl());
				bo["n"] = x->getName().str();
				bo["t"] = type(x->getType());
				if (auto *me = dyn_cast_or_null<MemberExpr>(x->getBinding() ? x->getBinding()->IgnoreImplicit() : nullptr))
					bo["fld"] = me->getMemberDecl()->getName().str();
				b.push_back(std::move(bo));
			}
			o["binds"] = std::move(b);
		}
		if (v->hasInit())
			o["init"] = expr(v->getInit());
		return json::Value(std::move(o));
	}

	json::Value stmt(const Stmt *s)
	{
		if (!s)
			return nullptr;
		json::Object o;
		o["l"] = loc(s->getBeginLoc());
		if (auto *x = dyn_cast<CompoundStmt>(s))
		{
			o["s"] = "block";
			json::Array a;
			for (auto *c : x->body())
				a.push_back(stmt(c));
			o["b"] = std::move(a);
			o["e"] = loc(x->getRBracLoc());
		}
		else if (auto *x = dyn_cast<DeclStmt>(s))
		{
			o["s"] = "decl";
			json::Array a;
			for (auto *d : x->decls())
				if (auto *v = dyn_cast<VarDecl>(d))
					a.push_back(varDecl(v));
			o["v"] = std::move(a);
		}
		else if (auto *x = dyn_cast<IfStmt>(s))
		{
			if (x->isConstexpr())
				if (auto nd = x->getNondiscardedCase(C))
				{
					if (*nd)
						return stmt(*nd);
					o["s"] = "null";
					return json::Value(std::move(o));
				}
			o["s"] = "if";
			if (x->getInit())
				o["init"] = stmt(x->getInit());
			if (x->getConditionVariable())
				o["cv"] = varDecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["a"] = stmt(x->getThen());
			if (x->getElse())
				o["b"] = stmt(x->getElse());
		}
		else if (auto *x = dyn_cast<WhileStmt>(s))
		{
			o["s"] = "while";
			if (x->getConditionVariable())
				o["cv"] = varDecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
		}
		else if (auto *x = dyn_cast<DoStmt>(s))
		{
			o["s"] = "do";
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
		}
		else if (auto *x = dyn_cast<ForStmt>(s))
		{
			o["s"] = "for";
			if (x->getInit())
				o["init"] = stmt(x->getInit());
			if (x->getCond())
				o["c"] = expr(x->getCond());
			if (x->getInc())
				o["inc"] = expr(x->getInc());
			o["b"] = stmt(x->getBody());
		}
		else if (auto *x = dyn_cast<CXXForRangeStmt>(s))
		{
			o["s"] = "range";
			if (x->getInit())
				o["init"] = stmt(x->getInit());
			o["r"] = expr(x->getRangeInit());
			o["v"] = varDecl(x->getLoopVariable());
			o["b"] = stmt(x->getBody());
		}
		else if (auto *x = dyn_cast<SwitchStmt>(s))
		{
			o["s"] = "switch";
			if (x->getInit())
				o["init"] = stmt(x->getInit());
			if (x->getConditionVariable())
				o["cv"] = varDecl(x->getConditionVariable());
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
		}
		else if (auto *x = dyn_cast<CaseStmt>(s))
		{
			o["s"] = "case";
			o["v"] = expr(x->getLHS());
			o["b"] = stmt(x->getSubStmt());
		}
		else if (auto *x = dyn_cast<DefaultStmt>(s))
		{
			o["s"] = "default";
			o["b"] = stmt(x->getSubStmt());
		}
		else if (auto *x = dyn_cast<ReturnStmt>(s))
		{
			o["s"] = "return";
			if (x->getRetValue())
				o["e"] = expr(x->getRetValue());
		}
		else if (isa<BreakStmt>(s))
			o["s"] = "break";
		else if (isa<ContinueStmt>(s))
			o["s"] = "continue";
		else if (isa<NullStmt>(s))
			o["s"] = "null";
		else if (auto *x = dyn_cast<AttributedStmt>(s))
			return stmt(x->getSubStmt());
		else if (auto *x = dyn_cast<LabelStmt>(s))
		{
			unsupported.push_back(json::Array{ "LabelStmt", loc(s->getBeginLoc()) });
			return stmt(x->getSubStmt());
		}
		else if (auto *x = dyn_cast<CXXTryStmt>(s))
		{
			o["s"] = "try";
			o["b"] = stmt(x->getTryBlock());
			json::Array h;
			for (unsigned i = 0; i < x->getNumHandlers(); ++i)
			{
				auto *c = x->getHandler(i);
				json::Object ho;
				if (c->getExceptionDecl())
				{
					ho["v"] = varDecl(c->getExceptionDecl());
					ho["t"] = type(c->getCaughtType().getNonReferenceType().getUnqualifiedType());
				}
				ho["b"] = stmt(c->getHandlerBlock());
				h.push_back(std::move(ho));
			}
			o["h"] = std::move(h);
		}
		else if (auto *x = dyn_cast<Expr>(s))
		{
			o["s"] = "expr";
			o["e"] = expr(x);
		}
		else
		{
			o["s"] = "other";
			o["c"] = s->getStmtClassName();
			unsupported.push_back(json::Array{ s->getStmtClassName(), loc(s->getBeginLoc()) });
		}
		return json::Value(std::move(o));
	}

	// bases of exception classes outside the repository, for catch matching
	void emitBases(const CXXRecordDecl *, int) {}

	void emitFn(const FunctionDecl *f)
	{
		json::Object o;
		o["n"] = qual(f);
		o["bn"] = f->getNameAsString();
		o["l"] = loc(f->getLocation());
		o["rt"] = type(f->getReturnType());
		json::Array ps;
		for (auto *p : f->parameters())
			ps.push_back(json::Object{ { "d", id(p->getCanonicalDecl()) }, { "n", p->getName().str() }, { "t", type(p->getType()) } });
		o["p"] = std::move(ps);
		if (auto *ft = f->getType()->getAs<FunctionProtoType>())
			if (!isUnresolvedExceptionSpec(ft->getExceptionSpecType()) && ft->isNothrow())
				o["noexcept"] = true;
		if (auto *m = dyn_cast<CXXMethodDecl>(f))
		{
			if (m->getParent()->isLambda())
			{
				o["lambda"] = true;
			}
			else
			{
				o["cls"] = type(C.getRecordType(m->getParent()));
				o["clsn"] = qual(m->getParent());
				o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
			}
			o["const"] = m->isConst();
			o["static"] = m->isStatic();
			o["virt"] = m->isVirtual();
			json::Array ov;
			for (auto *b : m->overridden_methods())
				ov.push_back(fkey(b));
			if (!ov.empty())
				o["ov"] = std::move(ov);
		}
		if (auto *c = dyn_cast<CXXConstructorDecl>(f))
		{
			o["kind"] = "ctor";
			json::Array in;
			for (auto *i : c->inits())
			{
				json::Object io;
				if (i->isAnyMemberInitializer())
					io["fld"] = i->getAnyMember()->getName().str();
				else if (i->isBaseInitializer())
					io["base"] = type(QualType(i->getBaseClass(), 0));
				else
					io["deleg"] = true;
				io["written"] = i->isWritten();
				io["e"] = expr(i->getInit());
				in.push_back(std::move(io));
			}
			o["inits"] = std::move(in);
		}
		if (isa<CXXDestructorDecl>(f))
			o["kind"] = "dtor";
		if (f->isDefaulted())
			o["defaulted"] = true;
		if (f->hasBody() && f->getBody())
			o["b"] = stmt(f->getBody());
		functions[fkey(f)] = std::move(o);
	}

	void run()
	{
		while (!work.empty())
		{
			auto *f = work.front();
			work.pop_front();
			emitFn(f);
		}
	}
};

class V : public RecursiveASTVisitor<V>
{
public:
	Lower &L;
	explicit V(Lower &l) : L(l) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool VisitFunctionDecl(FunctionDecl *f)
	{
		if (f->isThisDeclarationADefinition() && !f->isDependentContext() && L.inRepo(f->getLocation()) && !f->isDeleted())
			L.ref(f);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *r)
	{
		if (r->isThisDeclarationADefinition() && !r->isDependentContext())
			L.emitRecord(r);
		return true;
	}
	bool VisitVarDecl(VarDecl *v)
	{
		if (v->hasGlobalStorage() && !v->isStaticLocal() && !v->getDeclContext()->isDependentContext() && L.inRepo(v->getLocation()) && v->isThisDeclarationADefinition())
			L.emitGlobal(v, L.qual(v));
		return true;
	}
};

class Con : public ASTConsumer
{
public:
	void HandleTranslationUnit(ASTContext &c) override
	{
		if (c.getDiagnostics().hasErrorOccurred())
			return;
		Lower l(c);
		V v(l);
		v.TraverseDecl(c.getTranslationUnitDecl());
		l.run();
		json::Object o;
		o["types"] = std::move(l.types);
		o["functions"] = std::move(l.functions);
		o["records"] = std::move(l.records);
		o["enums"] = std::move(l.enums);
		o["globals"] = std::move(l.globals);
		o["unsupported"] = std::move(l.unsupported);
		std::error_code ec;
		llvm::raw_fd_ostream os(OutPath, ec);
		os << json::Value(std::move(o));
	}
};
class Act : public ASTFrontendAction
{
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(); }
};
} // namespace

int main(int argc, char **argv)
{
	if (argc < 5)
		return 2;
	Root = argv[1];
	OutPath = argv[2];
	std::vector<std::string> args;
	std::string file = argv[argc - 1];
	for (int i = 4; i < argc - 1; ++i)
		args.push_back(argv[i]);
	clang::tooling::FixedCompilationDatabase db(".", args);
	clang::tooling::ClangTool tool(db, { file });
	return tool.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
