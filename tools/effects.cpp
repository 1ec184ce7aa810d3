// Lists, for every declaration inside a directory, the constructs through which
// code can have an effect outside of its arguments: variables with static or
// thread storage duration, mutable fields, casts that drop const, references to
// variables defined elsewhere, calls of functions, inline assembly.
// usage: effects DIR file.cpp [compiler flags...]; one tab separated fact per line:
//   KIND \t file:line \t enclosing function \t detail...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/MemoryBuffer.h>
#include <set>
using namespace clang;

static std::string dir;
static std::set<std::string> out;
static unsigned decls, bodies;

struct V : RecursiveASTVisitor<V> {
	using B = RecursiveASTVisitor<V>;
	ASTContext& C; SourceManager& S; std::vector<const FunctionDecl*> fn;
	V(ASTContext& c) : C(c), S(c.getSourceManager()) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }

	std::string where(SourceLocation l) {
		auto p = S.getPresumedLoc(S.getExpansionLoc(l));
		if(p.isInvalid()) return "";
		std::string f = p.getFilename();
		if(f.compare(0, dir.size(), dir) != 0) return "";
		return f.substr(dir.size()) + ":" + std::to_string(p.getLine());
	}
	bool inside(SourceLocation l) { return !where(l).empty(); }
	void emit(const char* k, SourceLocation l, std::string d) {
		auto w = where(l);
		if(w.empty()) return;
		std::string f = "-";
		if(!fn.empty()) f = fn.back()->getQualifiedNameAsString();
		for(auto* s : {&f, &d}) for(auto& c : *s) if(c == '\n' || (c == '\t' && s == &f)) c = ' ';
		out.insert(std::string(k) + "\t" + w + "\t" + f + "\t" + d);
	}

	// can the object change after its initialization (through the variable itself)?
	std::string changeable(QualType t) {
		if(t->isReferenceType()) {
			auto p = t->getPointeeType();
			return changeable(p).empty() ? "" : "reference to changeable object";
		}
		if(auto* a = C.getAsArrayType(t)) return changeable(a->getElementType());
		if(!t.isConstQualified()) return "not const";
		if(t->isPointerType()) {
			auto p = t->getPointeeType();
			if(p->isFunctionType() || p.isConstQualified()) return "";
			return "const pointer to changeable object";
		}
		if(auto* r = t->getAsCXXRecordDecl()) {
			if(r->hasDefinition() && r->hasMutableFields()) return "has mutable fields";
			auto n = r->getQualifiedNameAsString();
			if(n == "std::unique_ptr" || n == "std::shared_ptr" || n == "std::reference_wrapper")
				return "const handle of changeable object";
		}
		return "";
	}

	struct Uses : RecursiveASTVisitor<Uses> {
		std::set<const Decl*> own; std::string bad;
		bool VisitVarDecl(VarDecl* v) { own.insert(v); return true; }
		bool VisitDeclRefExpr(DeclRefExpr* e) {
			auto* v = dyn_cast<VarDecl>(e->getDecl());
			if(v && !own.count(v) && (isa<ParmVarDecl>(v) || v->hasLocalStorage()) && !e->isNonOdrUse()) {
				if(v->isConstexpr()) return true;
				bad = v->getNameAsString();
			}
			return true;
		}
		bool VisitCXXThisExpr(CXXThisExpr*) { if(bad.empty()) bad = "this"; return true; }
		// operands that are not evaluated
		bool TraverseUnaryExprOrTypeTraitExpr(UnaryExprOrTypeTraitExpr*) { return true; }
		bool TraverseCXXNoexceptExpr(CXXNoexceptExpr*) { return true; }
		bool TraverseTypeLoc(TypeLoc) { return true; }
	};

	bool TraverseDecl(Decl* d) {
		if(!d) return true;
		// foreign code at namespace scope has no interest, but a namespace or an
		// instantiation of foreign templates does not contain code of ours either
		if(!isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) && fn.empty()
				&& d->getLocation().isValid() && d->getLexicalDeclContext()->isFileContext() && !inside(d->getLocation()))
			return true;
		auto* f = dyn_cast<FunctionDecl>(d);
		if(f) fn.push_back(f);
		bool r = B::TraverseDecl(d);
		if(f) fn.pop_back();
		return r;
	}

	bool VisitDecl(Decl* d) { if(inside(d->getLocation())) ++decls; return true; }
	bool VisitFunctionDecl(FunctionDecl* f) {
		if(f->doesThisDeclarationHaveABody() && inside(f->getLocation())) ++bodies;
		return true;
	}
	bool VisitVarDecl(VarDecl* v) {
		if(isa<ParmVarDecl>(v) || !v->hasGlobalStorage()) return true;
		if(v->isConstexpr()) { emit("CONSTEXPR", v->getLocation(), v->getQualifiedNameAsString()); return true; }
		auto t = v->getType();
		std::string how = v->getTLSKind() != VarDecl::TLS_None ? "thread storage" : "static storage";
		std::string c = changeable(t);
		std::string uses;
		if(v->isStaticLocal() && v->hasInit()) { Uses u; u.TraverseStmt(v->getInit()); uses = u.bad; }
		emit("STATIC", v->getLocation(), v->getQualifiedNameAsString() + "\t" + t.getAsString() + "\t" + how + "\t" + c + "\t" + uses);
		return true;
	}
	bool VisitFieldDecl(FieldDecl* f) {
		if(f->isMutable()) emit("MUTABLE", f->getLocation(), f->getQualifiedNameAsString() + "\t" + f->getType().getAsString());
		return true;
	}
	bool VisitLambdaExpr(LambdaExpr*) { return true; }

	static bool drops(QualType from, QualType to) {
		while(true) {
			if(from.isNull() || to.isNull() || from->isDependentType() || to->isDependentType()) return false;
			if(!((from->isPointerType() && to->isPointerType()))) return false;
			from = from->getPointeeType(); to = to->getPointeeType();
			if(from.isConstQualified() && !to.isConstQualified() && !to->isFunctionType()) return true;
		}
	}
	// the cast takes back the const that the function itself added: it got everything as not const and
	// casts the result of a call (of its const overload, usually)
	static bool handsOut(QualType t) {
		auto p = t->isReferenceType() || t->isPointerType() ? t->getPointeeType() : QualType();
		if(!p.isNull()) return !p.isConstQualified() && !p->isPointerType();
		return t->isArithmeticType() || t->isEnumeralType();
	}
	bool ownConst(const Expr* e) {
		if(fn.empty()) return false;
		auto* f = fn.back();
		auto* m = dyn_cast<CXXMethodDecl>(f);
		if(m && m->getParent()->isLambda()) return false;
		bool any = false;
		if(m && !m->isStatic()) { if(m->isConst()) return false; any = true; }
		for(auto* p : f->parameters()) {
			if(!handsOut(p->getType())) return false;
			if(!p->getType()->isArithmeticType() && !p->getType()->isEnumeralType()) any = true;
		}
		if(!any) return false;
		for(unsigned n = 0; n < 4; ++n) {
			e = e->IgnoreParenCasts();
			if(isa<CallExpr>(e)) return true;
			auto* r = dyn_cast<DeclRefExpr>(e);
			auto* v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr;
			if(!v || !v->hasLocalStorage() || isa<ParmVarDecl>(v) || !v->getInit()) return false;
			e = v->getInit();
		}
		return false;
	}
	bool VisitExplicitCastExpr(ExplicitCastExpr* e) {
		auto from = e->getSubExpr()->getType(), to = e->getTypeAsWritten();
		std::string s = e->getStmtClassName();
		if(isa<CXXConstCastExpr>(e)) {
			// adding const is harmless
			auto p = to->isReferenceType() || to->isPointerType() ? to->getPointeeType() : to;
			if(!p->isDependentType() && p.isConstQualified()) return true;
			if(ownConst(e->getSubExpr())) return true;
			emit("CONSTCAST", e->getBeginLoc(), to.getAsString());
			return true;
		}
		if(isa<CStyleCastExpr>(e) || isa<CXXFunctionalCastExpr>(e)) {
			if(to->isReferenceType()) {
				if(!from.isNull() && !from->isDependentType() && !to->isDependentType() && from.isConstQualified() && !to->getPointeeType().isConstQualified()
						&& e->isLValue() && to->isLValueReferenceType() && !from->isScalarType())
					emit("CONSTCAST", e->getBeginLoc(), from.getAsString() + " to " + to.getAsString());
			} else if(drops(from, to)) emit("CONSTCAST", e->getBeginLoc(), from.getAsString() + " to " + to.getAsString());
		}
		return true;
	}
	bool VisitDeclRefExpr(DeclRefExpr* e) {
		if(auto* v = dyn_cast<VarDecl>(e->getDecl())) {
			if(v->hasGlobalStorage() && !v->isConstexpr() && !inside(v->getLocation()) && !changeable(v->getType()).empty())
				emit("FOREIGN", e->getBeginLoc(), v->getQualifiedNameAsString());
		} else if(auto* f = dyn_cast<FunctionDecl>(e->getDecl())) {
			if(!inside(f->getLocation())) emit("CALL", e->getBeginLoc(), f->getQualifiedNameAsString());
		}
		return true;
	}
	bool VisitMemberExpr(MemberExpr* e) {
		if(auto* f = dyn_cast<FunctionDecl>(e->getMemberDecl()))
			if(!inside(f->getLocation())) emit("CALL", e->getMemberLoc(), f->getQualifiedNameAsString());
		return true;
	}
	bool VisitCXXConstructExpr(CXXConstructExpr* e) {
		if(!inside(e->getConstructor()->getLocation()) && inside(e->getBeginLoc()))
			emit("CALL", e->getBeginLoc(), e->getConstructor()->getQualifiedNameAsString());
		return true;
	}
	bool VisitOverloadExpr(OverloadExpr* e) {
		for(auto* d : e->decls())
			if(!inside(d->getLocation())) emit("CALL", e->getNameLoc(), d->getQualifiedNameAsString());
		return true;
	}
	bool VisitAsmStmt(AsmStmt* s) { emit("ASM", s->getBeginLoc(), ""); return true; }
};

struct Co : ASTConsumer {
	void HandleTranslationUnit(ASTContext& c) override {
		if(c.getDiagnostics().hasErrorOccurred()) return;
		V v(c); v.TraverseDecl(c.getTranslationUnitDecl());
	}
};
struct A : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Co>(); }
};

int main(int argc, char** argv) {
	if(argc < 3) return 2;
	dir = argv[1];
	if(dir.back() != '/') dir += '/';
	auto b = llvm::MemoryBuffer::getFile(argv[2]);
	if(!b) return 2;
	std::vector<std::string> args(argv + 3, argv + argc);
	if(!tooling::runToolOnCodeWithArgs(std::make_unique<A>(), (*b)->getBuffer(), args, argv[2])) return 3;
	printf("TOTAL\t%u\t%u\n", decls, bodies);
	for(auto& s : out) puts(s.c_str());
}
