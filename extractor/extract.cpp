// Resolved-AST extractor: parses translation units with clang and writes, for every function
// whose body lies under the source root, a compact resolved syntax tree as JSON.
// The analyses in ../lib work on that output.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat), llvm::cl::init("/repo"));
static llvm::cl::opt<std::string> Extra("extra-root", llvm::cl::desc("second source root"), llvm::cl::cat(Cat), llvm::cl::init(""));
static llvm::cl::opt<std::string> Out("out", llvm::cl::desc("output"), llvm::cl::cat(Cat), llvm::cl::init("-"));

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
	ASTContext& Ctx;
	SourceManager& SM;
	PrintingPolicy PP;
	json::Array functions;
	json::Array records;
	json::Array enums;
	json::Array globals;
	std::map<const Decl*, int64_t> ids;
	std::set<const Decl*> done;
	std::vector<const FunctionDecl*> lambdaQueue;

	explicit Dumper(ASTContext& c) : Ctx(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
		PP.SuppressTagKeyword = true;
		PP.SuppressUnwrittenScope = true;
		PP.FullyQualifiedName = true;
		PP.TerseOutput = true;
	}

	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldVisitLambdaBody() const { return true; }

	int64_t id(const Decl* d) {
		d = d->getCanonicalDecl();
		auto it = ids.find(d);
		if (it != ids.end()) return it->second;
		int64_t n = (int64_t)ids.size() + 1;
		ids[d] = n;
		return n;
	}

	bool inRoot(SourceLocation l, std::string* file = nullptr, unsigned* line = nullptr) {
		if (l.isInvalid()) return false;
		l = SM.getExpansionLoc(l);
		auto p = SM.getPresumedLoc(l);
		if (p.isInvalid()) return false;
		llvm::StringRef f = p.getFilename();
		bool ok = f.starts_with(Root) || (!Extra.empty() && f.starts_with(Extra));
		if (file) *file = f.str();
		if (line) *line = p.getLine();
		return ok;
	}
	unsigned line(SourceLocation l) {
		if (l.isInvalid()) return 0;
		auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
		return p.isInvalid() ? 0 : p.getLine();
	}
	std::string ty(QualType t) {
		if (t.isNull()) return "";
		return t.getCanonicalType().getAsString(PP);
	}
	std::string qname(const NamedDecl* d) {
		std::string s;
		llvm::raw_string_ostream os(s);
		d->printQualifiedName(os, PP);
		os.flush();
		return s;
	}

	void constInfo(const ValueDecl* v, json::Object& o) {
		if (auto* ec = dyn_cast<EnumConstantDecl>(v)) {
			llvm::SmallString<32> s;
			ec->getInitVal().toString(s, 10);
			o["ev"] = std::string(s);
		}
	}

	json::Value expr(const Expr* e) { return stmt(e); }

	// Skips nodes that carry no information for the analyses.
	const Stmt* strip(const Stmt* s) {
		while (s) {
			if (auto* e = dyn_cast<ExprWithCleanups>(s)) { s = e->getSubExpr(); continue; }
			if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
			if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
			if (auto* e = dyn_cast<ParenExpr>(s)) { s = e->getSubExpr(); continue; }
			if (auto* e = dyn_cast<ConstantExpr>(s)) { s = e->getSubExpr(); continue; }
			if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { s = e->getReplacement(); continue; }
			if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) { s = e->getExpr(); continue; }
			if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) { s = e->getExpr(); continue; }
			if (auto* e = dyn_cast<AttributedStmt>(s)) { s = e->getSubStmt(); continue; }
			if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) { s = e->getSubExpr(); continue; }
			if (auto* e = dyn_cast<CXXFunctionalCastExpr>(s)) {
				if (e->getCastKind() == CK_ConstructorConversion || e->getCastKind() == CK_NoOp || e->getCastKind() == CK_UserDefinedConversion) { s = e->getSubExpr(); continue; }
			}
			if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
				switch (e->getCastKind()) {
					case CK_IntegralCast: case CK_FloatingCast: case CK_IntegralToFloating: case CK_FloatingToIntegral:
					case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
						break;
					default: s = e->getSubExpr(); continue;
				}
			}
			break;
		}
		return s;
	}

	json::Value stmt(const Stmt* s) {
		s = strip(s);
		if (!s) return nullptr;
		json::Object o;
		json::Array c;
		o["k"] = s->getStmtClassName();
		o["l"] = (int64_t)line(s->getBeginLoc());
		auto add = [&](const Stmt* x) { c.push_back(stmt(x)); };

		if (auto* e = dyn_cast<Expr>(s)) {
			o["t"] = ty(e->getType());
			if (e->isLValue()) o["lv"] = true;
			if (!e->isValueDependent() && !e->isTypeDependent() && !isa<InitListExpr>(e) && e->isPRValue()
				&& (e->getType()->isIntegralOrEnumerationType()) && !isa<LambdaExpr>(e)) {
				Expr::EvalResult r;
				if (e->EvaluateAsInt(r, Ctx, Expr::SE_NoSideEffects)) {
					llvm::SmallString<32> sv;
					r.Val.getInt().toString(sv, 10);
					o["cv"] = std::string(sv);
				}
			}
		}

		if (auto* x = dyn_cast<DeclRefExpr>(s)) {
			auto* d = x->getDecl();
			o["n"] = d->getNameAsString();
			o["id"] = id(d);
			o["dk"] = d->getDeclKindName();
			if (isa<FunctionDecl>(d) || isa<EnumConstantDecl>(d) || (isa<VarDecl>(d) && !cast<VarDecl>(d)->isLocalVarDeclOrParm()))
				o["q"] = qname(d);
			if (auto* sl = crcString(x)) o["str"] = sl->getBytes();
			if (auto* v = dyn_cast<VarDecl>(d)) {
				if (v->isConstexpr() && !o.get("cv") && !x->isValueDependent() && !x->isTypeDependent() && v->getType()->isIntegralOrEnumerationType()) {
					Expr::EvalResult r;
					if (x->EvaluateAsInt(r, Ctx, Expr::SE_NoSideEffects)) {
						llvm::SmallString<32> sv;
						r.Val.getInt().toString(sv, 10);
						o["cv"] = std::string(sv);
					}
				}
				if (v->getType()->isArrayType() == false) {
					if (auto* init = v->getAnyInitializer()) {
						if (v->getType().isConstQualified() || v->isConstexpr()) {
							if (!v->isLocalVarDeclOrParm() || v->isConstexpr())
								if (auto* sl = findString(init)) o["sv"] = sl->getBytes();
						}
					}
				}
			}
			constInfo(d, o);
		} else if (auto* x = dyn_cast<MemberExpr>(s)) {
			auto* d = x->getMemberDecl();
			o["n"] = d->getNameAsString();
			o["id"] = id(d);
			o["q"] = qname(d);
			o["dk"] = d->getDeclKindName();
			if (x->isArrow()) o["arrow"] = true;
			add(x->getBase());
		} else if (auto* x = dyn_cast<CXXOperatorCallExpr>(s)) {
			o["op"] = getOperatorSpelling(x->getOperator());
			callee(x, o);
			for (auto* a : x->arguments()) add(a);
		} else if (auto* x = dyn_cast<CXXMemberCallExpr>(s)) {
			callee(x, o);
			auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
			if (me) { o["n"] = me->getMemberDecl()->getNameAsString(); if (me->isArrow()) o["arrow"] = true; }
			c.push_back(stmt(x->getImplicitObjectArgument()));
			for (auto* a : x->arguments()) add(a);
		} else if (auto* x = dyn_cast<CallExpr>(s)) {
			callee(x, o);
			if (!x->getDirectCallee()) { o["fn"] = stmt(x->getCallee()); }
			for (auto* a : x->arguments()) add(a);
		} else if (auto* x = dyn_cast<CXXConstructExpr>(s)) {
			auto* d = x->getConstructor();
			o["q"] = qname(d->getParent());
			o["id"] = id(d);
			if (d->isCopyConstructor()) o["ck"] = "copy";
			else if (d->isMoveConstructor()) o["ck"] = "move";
			else if (d->isDefaultConstructor()) o["ck"] = "default";
			if (x->isListInitialization()) o["list"] = true;
			for (auto* a : x->arguments()) add(a);
		} else if (auto* x = dyn_cast<CXXDeleteExpr>(s)) {
			add(x->getArgument());
		} else if (auto* x = dyn_cast<CXXNewExpr>(s)) {
			o["at"] = ty(x->getAllocatedType());
			o["array"] = x->isArray();
			json::Array pl;
			for (auto* p : x->placement_arguments()) pl.push_back(stmt(p));
			o["place"] = std::move(pl);
			o["size"] = x->isArray() && x->getArraySize() ? stmt(*x->getArraySize()) : json::Value(nullptr);
			o["init"] = x->getInitializer() ? stmt(x->getInitializer()) : json::Value(nullptr);
		} else if (auto* x = dyn_cast<StringLiteral>(s)) {
			std::string b = x->getBytes().str();
			if (!json::isUTF8(b)) b = json::fixUTF8(b);
			o["v"] = b;
		} else if (auto* x = dyn_cast<CharacterLiteral>(s)) {
			o["v"] = (int64_t)x->getValue();
		} else if (auto* x = dyn_cast<IntegerLiteral>(s)) {
			llvm::SmallString<32> sv; x->getValue().toString(sv, 10, false);
			o["v"] = std::string(sv);
		} else if (auto* x = dyn_cast<FloatingLiteral>(s)) {
			o["v"] = x->getValue().convertToDouble();
		} else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) {
			o["v"] = x->getValue();
		} else if (auto* x = dyn_cast<UnaryOperator>(s)) {
			o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
			o["post"] = x->isPostfix();
			add(x->getSubExpr());
		} else if (auto* x = dyn_cast<BinaryOperator>(s)) {
			o["op"] = x->getOpcodeStr();
			add(x->getLHS()); add(x->getRHS());
		} else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(s)) {
			return stmt(x->getSemanticForm());
		} else if (auto* x = dyn_cast<CastExpr>(s)) {
			o["ck"] = x->getCastKindName();
			add(x->getSubExpr());
		} else if (auto* x = dyn_cast<LambdaExpr>(s)) {
			auto* op = x->getCallOperator();
			json::Array ops;
			if (auto* ft = op->getDescribedFunctionTemplate()) {
				for (auto* sp : ft->specializations()) { ops.push_back(id(sp)); lambdaQueue.push_back(sp); }
				o["generic"] = true;
			} else { ops.push_back(id(op)); lambdaQueue.push_back(op); }
			o["ops"] = std::move(ops);
			json::Array caps;
			auto ci = x->capture_init_begin();
			for (auto& cap : x->captures()) {
				json::Object co;
				co["kind"] = cap.capturesThis() ? "this" : (cap.capturesVariable() ? (cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy") : "vla");
				if (cap.capturesVariable()) {
					co["id"] = id(cap.getCapturedVar()); co["n"] = cap.getCapturedVar()->getNameAsString();
					if (auto* vd = dyn_cast<VarDecl>(cap.getCapturedVar())) if (vd->isInitCapture()) co["init"] = stmt(vd->getInit());
				}
				caps.push_back(std::move(co));
				++ci;
			}
			o["caps"] = std::move(caps);
		} else if (auto* x = dyn_cast<DeclStmt>(s)) {
			for (auto* d : x->decls()) c.push_back(decl(d));
		} else if (auto* x = dyn_cast<IfStmt>(s)) {
			if (x->isConstexpr()) o["constexpr"] = true;
			o["init"] = stmt(x->getInit());
			o["var"] = x->getConditionVariable() ? decl(x->getConditionVariable()) : json::Value(nullptr);
			o["cond"] = stmt(x->getCond());
			o["then"] = stmt(x->getThen());
			o["else"] = stmt(x->getElse());
			if (x->isConstexpr()) {
				Expr::EvalResult r;
				if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt(r, Ctx)) o["cc"] = r.Val.getInt() != 0;
			}
		} else if (auto* x = dyn_cast<ForStmt>(s)) {
			o["init"] = stmt(x->getInit());
			o["cond"] = stmt(x->getCond());
			o["inc"] = stmt(x->getInc());
			o["body"] = stmt(x->getBody());
		} else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
			o["range"] = stmt(x->getRangeInit());
			o["init"] = stmt(x->getInit());
			o["var"] = x->getLoopVariable() ? decl(x->getLoopVariable()) : json::Value(nullptr);
			o["body"] = stmt(x->getBody());
		} else if (auto* x = dyn_cast<WhileStmt>(s)) {
			o["cond"] = stmt(x->getCond());
			o["var"] = x->getConditionVariable() ? decl(x->getConditionVariable()) : json::Value(nullptr);
			o["body"] = stmt(x->getBody());
		} else if (auto* x = dyn_cast<DoStmt>(s)) {
			o["cond"] = stmt(x->getCond());
			o["body"] = stmt(x->getBody());
		} else if (auto* x = dyn_cast<SwitchStmt>(s)) {
			o["init"] = stmt(x->getInit());
			o["cond"] = stmt(x->getCond());
			o["body"] = stmt(x->getBody());
			o["ct"] = ty(x->getCond()->IgnoreImpCasts()->getType());
		} else if (auto* x = dyn_cast<CaseStmt>(s)) {
			o["val"] = stmt(x->getLHS());
			Expr::EvalResult r;
			if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, Ctx)) {
				llvm::SmallString<32> sv; r.Val.getInt().toString(sv, 10); o["cv"] = std::string(sv);
			}
			if (auto* sl = crcString(x->getLHS())) o["str"] = sl->getBytes();
			add(x->getSubStmt());
		} else if (auto* x = dyn_cast<DefaultStmt>(s)) {
			add(x->getSubStmt());
		} else if (auto* x = dyn_cast<ReturnStmt>(s)) {
			if (x->getRetValue()) add(x->getRetValue());
		} else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
			o["trait"] = (int64_t)x->getKind();
			o["arg"] = x->isArgumentType() ? ty(x->getArgumentType()) : ty(x->getArgumentExpr()->getType());
		} else if (auto* x = dyn_cast<InitListExpr>(s)) {
			auto* sem = x->isSemanticForm() ? x : x->getSemanticForm();
			if (!sem) sem = x;
			o["q"] = ty(x->getType());
			if (auto* rt = x->getType()->getAsCXXRecordDecl()) {
				json::Array f;
				for (auto& b : rt->bases()) { (void)b; f.push_back(""); }
				for (auto* fd : rt->fields()) f.push_back(qname(fd));
				o["fields"] = std::move(f);
			}
			for (auto* i : sem->inits()) add(i);
		} else {
			for (auto* ch : s->children()) if (ch) add(ch);
		}
		if (!c.empty()) o["c"] = std::move(c);
		return o;
	}

	const StringLiteral* findString(const Stmt* s) {
		if (!s) return nullptr;
		if (auto* sl = dyn_cast<StringLiteral>(s)) return sl;
		for (auto* ch : s->children()) if (auto* r = findString(ch)) return r;
		return nullptr;
	}
	// force_consteval<crc32c("X")> : the literal is in the variable template specialization's argument as written.
	const StringLiteral* crcString(const Expr* e) {
		struct V : RecursiveASTVisitor<V> {
			Dumper* D; const StringLiteral* r = nullptr;
			bool VisitDeclRefExpr(DeclRefExpr* x) {
				for (auto& a : x->template_arguments())
					if (a.getArgument().getKind() == TemplateArgument::Expression)
						if (auto* s = D->findString(a.getArgument().getAsExpr())) r = s;
				if (!r) if (auto* vs = dyn_cast<VarTemplateSpecializationDecl>(x->getDecl()))
					if (auto* args = vs->getTemplateArgsInfo())
						for (auto& a : args->arguments())
							if (a.getArgument().getKind() == TemplateArgument::Expression)
								if (auto* s = D->findString(a.getArgument().getAsExpr())) r = s;
				return true;
			}
			bool VisitStringLiteral(StringLiteral* x) { if (!r) r = x; return true; }
		} v;
		v.D = this;
		v.TraverseStmt(const_cast<Expr*>(e));
		return v.r;
	}

	// children that are bound to references or pointers the callee may write through
	void refs(const CallExpr* x, json::Object& o) {
		const FunctionProtoType* t = nullptr;
		int off = 0;
		if (auto* d = x->getDirectCallee()) {
			t = d->getType()->getAs<FunctionProtoType>();
			if (isa<CXXMemberCallExpr>(x) || (isa<CXXOperatorCallExpr>(x) && isa<CXXMethodDecl>(d) && !cast<CXXMethodDecl>(d)->isStatic())) off = 1;
		} else {
			auto ct = x->getCallee()->getType();
			if (auto* pt = ct->getAs<PointerType>()) ct = pt->getPointeeType();
			t = ct->getAs<FunctionProtoType>();
		}
		if (!t) return;
		json::Array a;
		for (unsigned i = 0; i < t->getNumParams(); ++i) {
			auto pt = t->getParamType(i);
			if ((pt->isLValueReferenceType() || pt->isPointerType()) && !pt->getPointeeType().isConstQualified()) a.push_back((int64_t)(i + off));
		}
		if (!a.empty()) o["ref"] = std::move(a);
	}
	void callee(const CallExpr* x, json::Object& o) {
		refs(x, o);
		if (auto* d = x->getDirectCallee()) {
			o["q"] = qname(d);
			o["id"] = id(d);
			if (!o.get("n")) o["n"] = d->getNameAsString();
			if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
				if (m->isConst()) o["const"] = true;
				if (m->isVirtual()) o["virtual"] = true;
				if (m->getParent()->isLambda()) o["lambda"] = true;
				if (isa<CXXConversionDecl>(d)) o["conv"] = true;
			}
			if (d->isNoReturn()) o["noreturn"] = true;
			std::string f; unsigned ln;
			if (inRoot(d->getLocation(), &f, &ln)) o["inroot"] = true;
			if (auto* ta = d->getTemplateSpecializationArgs()) {
				json::Array a;
				for (auto& t : ta->asArray()) {
					std::string sv; llvm::raw_string_ostream os(sv);
					if (t.getKind() == TemplateArgument::Type) os << ty(t.getAsType());
					else t.print(PP, os, true);
					os.flush(); a.push_back(sv);
				}
				o["ta"] = std::move(a);
			}
		}
	}

	json::Value decl(const Decl* d) {
		json::Object o;
		o["k"] = std::string(d->getDeclKindName());
		o["l"] = (int64_t)line(d->getLocation());
		if (auto* v = dyn_cast<VarDecl>(d)) {
			o["n"] = v->getNameAsString();
			o["id"] = id(v);
			o["t"] = ty(v->getType());
			if (v->isStaticLocal()) o["static"] = true;
			if (v->isConstexpr()) o["cx"] = true;
			if (v->hasInit()) {
				o["init"] = stmt(v->getInit());
				o["is"] = (int64_t)v->getInitStyle();
			}
			if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
				json::Array b;
				for (auto* bd : dd->bindings()) {
					json::Object bo; bo["n"] = bd->getNameAsString(); bo["id"] = id(bd);
					if (bd->getBinding()) bo["e"] = stmt(bd->getBinding());
					if (auto* hv = bd->getHoldingVar()) { bo["hid"] = id(hv); if (hv->getInit()) bo["he"] = stmt(hv->getInit()); }
					b.push_back(std::move(bo));
				}
				o["bind"] = std::move(b);
			}
		} else if (auto* n = dyn_cast<NamedDecl>(d)) {
			o["n"] = n->getNameAsString();
		}
		return o;
	}

	void function(const FunctionDecl* fd) {
		if (!fd->doesThisDeclarationHaveABody() && !(fd->isDefaulted() && fd->getBody())) return;
		if (fd->isDependentContext()) return;
		if (!done.insert(fd).second) return;
		std::string file; unsigned ln = 0;
		if (!inRoot(fd->getLocation(), &file, &ln)) {
			// instantiations keep the pattern's location; lambdas too
			return;
		}
		json::Object o;
		o["id"] = id(fd);
		o["q"] = qname(fd);
		o["n"] = fd->getNameAsString();
		o["file"] = file; o["l"] = (int64_t)ln;
		o["end"] = (int64_t)line(fd->getEndLoc());
		o["ret"] = ty(fd->getReturnType());
		if (auto* fpt = fd->getType()->getAs<FunctionProtoType>()) o["noexcept"] = fpt->isNothrow();
		if (fd->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
		if (fd->isDefaulted()) o["defaulted"] = true;
		if (fd->isTemplateInstantiation()) o["inst"] = true;
		if (fd->isConstexpr()) o["cx"] = true;
		if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
			o["rec"] = qname(m->getParent());
			o["rect"] = ty(Ctx.getRecordType(m->getParent()));
			if (m->isStatic()) o["static"] = true;
			if (m->isConst()) o["const"] = true;
			if (m->getParent()->isLambda()) o["lambda"] = true;
			o["acc"] = (int64_t)m->getAccess();
			if (m->isCopyAssignmentOperator()) o["smf"] = "copy=";
			if (m->isMoveAssignmentOperator()) o["smf"] = "move=";
			json::Array ov;
			for (auto* b : m->overridden_methods()) ov.push_back(qname(b));
			if (!ov.empty()) o["overrides"] = std::move(ov);
		}
		if (auto* ctor = dyn_cast<CXXConstructorDecl>(fd)) {
			o["ctor"] = true;
			if (ctor->isCopyConstructor()) o["smf"] = "copy";
			if (ctor->isMoveConstructor()) o["smf"] = "move";
			if (ctor->isDefaultConstructor()) o["smf"] = "default";
			json::Array inits;
			for (auto* i : ctor->inits()) {
				json::Object io;
				io["l"] = (int64_t)line(i->getSourceLocation());
				if (i->isAnyMemberInitializer()) { io["q"] = qname(i->getAnyMember()); io["id"] = id(i->getAnyMember()); io["n"] = i->getAnyMember()->getNameAsString(); }
				else if (i->isDelegatingInitializer()) io["deleg"] = true;
				else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
				io["written"] = i->isWritten();
				io["e"] = stmt(i->getInit());
				inits.push_back(std::move(io));
			}
			o["inits"] = std::move(inits);
		}
		if (isa<CXXDestructorDecl>(fd)) o["dtor"] = true;
		if (auto* ta = fd->getTemplateSpecializationArgs()) {
			json::Array a;
			for (auto& t : ta->asArray()) { std::string sv; llvm::raw_string_ostream os(sv);
				if (t.getKind() == TemplateArgument::Type) os << ty(t.getAsType()); else t.print(PP, os, true);
				os.flush(); a.push_back(sv); }
			o["ta"] = std::move(a);
		}
		json::Array ps;
		for (auto* p : fd->parameters()) {
			json::Object po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType());
			ps.push_back(std::move(po));
		}
		o["params"] = std::move(ps);
		o["body"] = stmt(fd->getBody());
		functions.push_back(std::move(o));
	}

	bool VisitFunctionDecl(FunctionDecl* fd) { function(fd); drain(); return true; }
	void drain() {
		while (!lambdaQueue.empty()) { auto* f = lambdaQueue.back(); lambdaQueue.pop_back(); const FunctionDecl* def = nullptr; if (f->hasBody(def) && def) function(def); }
	}

	bool VisitCXXRecordDecl(CXXRecordDecl* r) {
		if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
		std::string file; unsigned ln;
		if (!inRoot(r->getLocation(), &file, &ln)) return true;
		json::Object o;
		o["q"] = qname(r); o["t"] = ty(Ctx.getRecordType(r)); o["file"] = file; o["l"] = (int64_t)ln; o["id"] = id(r);
		if (r->isUnion()) o["union"] = true;
		json::Array fs;
		for (auto* f : r->fields()) {
			json::Object fo; fo["n"] = f->getNameAsString(); fo["id"] = id(f); fo["q"] = qname(f); fo["t"] = ty(f->getType()); fo["l"] = (int64_t)line(f->getLocation());
			if (f->isMutable()) fo["mut"] = true;
			if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = stmt(f->getInClassInitializer());
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		json::Array bs;
		for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
		o["bases"] = std::move(bs);
		records.push_back(std::move(o));
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e) {
		if (!e->isThisDeclarationADefinition()) return true;
		std::string file; unsigned ln;
		if (!inRoot(e->getLocation(), &file, &ln)) return true;
		json::Object o; o["q"] = qname(e); o["file"] = file; o["l"] = (int64_t)ln;
		json::Array es;
		for (auto* c : e->enumerators()) { json::Object eo; eo["n"] = c->getNameAsString(); llvm::SmallString<32> sv; c->getInitVal().toString(sv, 10); eo["v"] = std::string(sv); es.push_back(std::move(eo)); }
		o["e"] = std::move(es);
		enums.push_back(std::move(o));
		return true;
	}
	bool VisitVarDecl(VarDecl* v) {
		if (!v->hasGlobalStorage() || v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
		if (v->getDeclContext()->isDependentContext() || isa<VarTemplatePartialSpecializationDecl>(v)) return true;
		if (v->getType()->isDependentType()) return true;
		std::string file; unsigned ln;
		if (!inRoot(v->getLocation(), &file, &ln)) return true;
		if (!done.insert(v).second) return true;
		json::Object o; o["q"] = qname(v); o["n"] = v->getNameAsString(); o["id"] = id(v); o["t"] = ty(v->getType()); o["file"] = file; o["l"] = (int64_t)ln;
		o["const"] = v->getType().isConstQualified() || v->isConstexpr() || (v->getType()->isArrayType() && Ctx.getBaseElementType(v->getType()).isConstQualified());
		o["cx"] = v->isConstexpr();
		o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
		o["local"] = v->isStaticLocal();
		if (auto* i = v->getAnyInitializer()) if (!i->isValueDependent() && !isa<VarTemplateSpecializationDecl>(v)) o["init"] = stmt(i);
		globals.push_back(std::move(o));
		drain();
		return true;
	}
};

class Consumer : public ASTConsumer {
public:
	void HandleTranslationUnit(ASTContext& ctx) override {
		if (ctx.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "extract: translation unit has errors\n"; }
		Dumper d(ctx);
		d.TraverseDecl(ctx.getTranslationUnitDecl());
		json::Object o;
		o["functions"] = std::move(d.functions);
		o["records"] = std::move(d.records);
		o["enums"] = std::move(d.enums);
		o["globals"] = std::move(d.globals);
		std::error_code ec;
		llvm::raw_fd_ostream os(Out, ec);
		os << json::Value(std::move(o));
	}
};
class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char** argv) {
	auto op = CommonOptionsParser::create(argc, argv, Cat);
	if (!op) { llvm::errs() << op.takeError(); return 2; }
	ClangTool tool(op->getCompilations(), op->getSourcePathList());
	return tool.run(newFrontendActionFactory<Action>().get());
}
