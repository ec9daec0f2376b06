// Dumps the type-checked syntax tree of everything declared under a root
// directory (default /repo) as JSON: function bodies (template instantiations,
// lambdas, constructors with their initialisers included), records, globals
// and enumerations, with resolved callees and canonical types.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Dumper {
	ASTContext &C;
	SourceManager &SM;
	ASTNameGenerator NG;
	PrintingPolicy PP;
	json::Object Functions, Records, Globals, Enums;
	json::Array Decls;
	std::map<const FunctionDecl *, bool> SeenF;
	std::vector<const FunctionDecl *> WorkF;
	std::set<const RecordDecl *> SeenR;
	std::vector<const CXXRecordDecl *> WorkR;
	std::set<const VarDecl *> SeenG;
	std::map<const Decl *, int> Ids;
	int NextId = 1;
	std::map<std::string, int> NameUse;
	std::map<const FunctionDecl *, std::string> FKeys;

	explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), NG(C), PP(C.getLangOpts())
	{
		PP.SuppressTagKeyword = true;
		PP.PrintCanonicalTypes = true;
		PP.SuppressInlineNamespace = true;
		PP.AnonymousTagLocations = true;
	}

	int id(const Decl *D)
	{
		D = D->getCanonicalDecl();
		auto it = Ids.find(D);
		if (it != Ids.end()) return it->second;
		return Ids[D] = NextId++;
	}

	bool inRoot(SourceLocation L)
	{
		if (L.isInvalid()) return false;
		L = SM.getExpansionLoc(L);
		auto F = SM.getFilename(L);
		llvm::SmallString<256> R;
		if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L)))
			R = FE->getFileEntry().tryGetRealPathName();
		if (R.empty()) R = F;
		for (auto &P : Roots) if (R.str().starts_with(P)) return true;
		return false;
	}
	std::string file(SourceLocation L)
	{
		if (L.isInvalid()) return "";
		L = SM.getExpansionLoc(L);
		if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
			auto R = FE->getFileEntry().tryGetRealPathName();
			if (!R.empty()) return R.str();
		}
		return SM.getFilename(L).str();
	}
	int line(SourceLocation L)
	{
		if (L.isInvalid()) return 0;
		return (int)SM.getExpansionLineNumber(L);
	}
	std::string type(QualType T)
	{
		if (T.isNull()) return "";
		return T.getCanonicalType().getAsString(PP);
	}
	// Qualified name without template arguments and inline namespaces.
	std::string qname(const NamedDecl *D)
	{
		std::vector<std::string> parts;
		std::string own = D->getDeclName().getAsString();
		if (isa<CXXConstructorDecl>(D)) own = cast<CXXConstructorDecl>(D)->getParent()->getNameAsString();
		if (isa<CXXDestructorDecl>(D)) own = "~" + cast<CXXDestructorDecl>(D)->getParent()->getNameAsString();
		if (own.empty()) own = "(anon)";
		parts.push_back(own);
		for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent()) {
			if (auto N = dyn_cast<NamespaceDecl>(DC)) {
				if (N->isInline()) continue;
				parts.push_back(N->isAnonymousNamespace() ? "(anon)" : N->getNameAsString());
			} else if (auto R = dyn_cast<RecordDecl>(DC)) {
				std::string n = R->getNameAsString();
				parts.push_back(n.empty() ? "(anon)" : n);
			} else if (auto F = dyn_cast<FunctionDecl>(DC)) {
				parts.push_back(F->getDeclName().getAsString());
			}
		}
		std::string s;
		for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
			if (!s.empty()) s += "::";
			s += *it;
		}
		return s;
	}

	std::string fkey(const FunctionDecl *F)
	{
		F = F->getCanonicalDecl();
		auto it = FKeys.find(F);
		if (it != FKeys.end()) return it->second;
		std::string n;
		if (!isa<CXXDeductionGuideDecl>(F) && !F->isDependentContext()) n = NG.getName(F);
		bool local = F->getParentFunctionOrMethod() != nullptr;
		if (auto M = dyn_cast<CXXMethodDecl>(F))
			if (M->getParent()->isLambda() || M->getParent()->isLocalClass()) local = true;
		if (n.empty() || local) n += "#" + std::to_string(id(F));
		return FKeys[F] = n;
	}

	void needF(const FunctionDecl *F)
	{
		if (!F) return;
		const FunctionDecl *Def = nullptr;
		if (F->isTemplated()) return;
		if (!F->hasBody(Def)) {
			// implicitly-defined members: report nothing.
			return;
		}
		if (Def->isTemplated()) return;
		if (!inRoot(Def->getLocation())) return;
		if (SeenF[Def->getCanonicalDecl()]) return;
		SeenF[Def->getCanonicalDecl()] = true;
		WorkF.push_back(Def);
	}
	void needR(const CXXRecordDecl *R)
	{
		if (!R) return;
		R = R->getDefinition();
		if (!R || R->isDependentContext()) return;
		if (!inRoot(R->getLocation())) return;
		if (!SeenR.insert(R).second) return;
		WorkR.push_back(R);
	}
	void needT(QualType T)
	{
		if (T.isNull()) return;
		T = T.getCanonicalType();
		while (true) {
			if (T->isPointerType() || T->isReferenceType()) T = T->getPointeeType();
			else if (auto A = T->getAsArrayTypeUnsafe()) T = A->getElementType();
			else break;
		}
		if (auto R = T->getAsCXXRecordDecl()) {
			needR(R);
			if (auto S = dyn_cast<ClassTemplateSpecializationDecl>(R))
				for (auto &A : S->getTemplateArgs().asArray())
					if (A.getKind() == TemplateArgument::Type) needT(A.getAsType());
		}
	}

	json::Object fref(const FunctionDecl *F)
	{
		needF(F);
		json::Object O;
		O["fn"] = fkey(F);
		O["q"] = qname(F);
		if (F->isNoReturn()) O["noreturn"] = true;
		if (auto M = dyn_cast<CXXMethodDecl>(F)) {
			O["method"] = true;
			if (M->isStatic()) O["static"] = true;
			if (M->isVirtual()) O["virtual"] = true;
			if (M->isConst()) O["const"] = true;
			O["cls"] = type(C.getRecordType(M->getParent()));
			if (M->getParent()->isLambda()) O["lambda"] = true;
			if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
			if (M->isMoveAssignmentOperator()) O["moveassign"] = true;
			if (M->isImplicit() || M->isDefaulted()) O["implicit"] = true;
			needR(M->getParent());
		}
		json::Array P;
		for (auto *p : F->parameters()) P.push_back(type(p->getType()));
		O["pt"] = std::move(P);
		O["rt"] = type(F->getReturnType());
		if (auto *TA = F->getTemplateSpecializationArgs()) {
			json::Array A;
			for (auto &a : TA->asArray()) {
				std::string s; llvm::raw_string_ostream os(s);
				a.print(PP, os, true); os.flush(); A.push_back(s);
			}
			O["ta"] = std::move(A);
		}
		O["inroot"] = inRoot(F->getLocation());
		return O;
	}

	void base(json::Object &O, const Stmt *S)
	{
		O["l"] = line(S->getBeginLoc());
		SourceLocation B = S->getBeginLoc();
		if (B.isMacroID()) {
			SourceLocation L = B; StringRef name;
			while (L.isMacroID()) {
				name = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
				if (name == "assert") break;
				L = SM.getImmediateMacroCallerLoc(L);
			}
			if (name == "assert") O["macro"] = "assert";
		}
	}
	json::Array kids(const Stmt *S)
	{
		json::Array A;
		for (auto *c : S->children()) A.push_back(stmt(c));
		return A;
	}

	json::Value var(const VarDecl *V)
	{
		json::Object O;
		O["id"] = id(V);
		O["name"] = V->getNameAsString();
		O["t"] = type(V->getType());
		O["l"] = line(V->getLocation());
		needT(V->getType());
		if (V->isStaticLocal()) O["static"] = true;
		if (V->isConstexpr() || V->getType().isConstQualified()) O["const"] = true;
		if (V->getType()->isReferenceType()) O["ref"] = true;
		if (auto *I = V->getInit()) {
			O["init"] = stmt(I);
			O["style"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list";
		}
		return O;
	}

	const Expr *strip(const Expr *E)
	{
		while (E) {
			if (auto P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
			else if (auto P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
			else if (auto P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
			else if (auto P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
			else if (auto P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
			else if (auto P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
			else if (auto P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
			else if (auto P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
			else if (auto P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
			else break;
		}
		return E;
	}

	json::Value stmt(const Stmt *S)
	{
		if (!S) return nullptr;
		if (auto E = dyn_cast<Expr>(S)) S = strip(E);
		json::Object O;
		base(O, S);
		if (auto E = dyn_cast<Expr>(S)) {
			O["t"] = type(E->getType());
			if (E->isLValue()) O["lv"] = true;
			Expr::EvalResult R;
			if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() &&
			    !isa<IntegerLiteral>(E) && E->isPRValue() && E->EvaluateAsInt(R, C) && !R.HasSideEffects)
				O["cv"] = llvm::toString(R.Val.getInt(), 10);
		}
#define K(n) O["k"] = n
		if (auto X = dyn_cast<CompoundStmt>(S)) { K("Compound"); O["c"] = kids(X); }
		else if (auto X = dyn_cast<DeclStmt>(S)) {
			K("Decl");
			json::Array A;
			for (auto *D : X->decls()) {
				if (auto V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
				else if (auto R = dyn_cast<CXXRecordDecl>(D)) needR(R);
				else if (auto R = dyn_cast<EnumDecl>(D)) enumd(R);
			}
			O["d"] = std::move(A);
		}
		else if (auto X = dyn_cast<IfStmt>(S)) {
			K("If"); O["init"] = stmt(X->getInit());
			if (X->getConditionVariable()) O["cvar"] = var(X->getConditionVariable());
			O["cond"] = stmt(X->getCond()); O["then"] = stmt(X->getThen()); O["else"] = stmt(X->getElse());
		}
		else if (auto X = dyn_cast<WhileStmt>(S)) {
			K("While"); 
			if (X->getConditionVariable()) O["cvar"] = var(X->getConditionVariable());
			O["cond"] = stmt(X->getCond()); O["body"] = stmt(X->getBody());
		}
		else if (auto X = dyn_cast<DoStmt>(S)) { K("Do"); O["cond"] = stmt(X->getCond()); O["body"] = stmt(X->getBody()); }
		else if (auto X = dyn_cast<ForStmt>(S)) {
			K("For"); O["init"] = stmt(X->getInit()); O["cond"] = stmt(X->getCond());
			O["inc"] = stmt(X->getInc()); O["body"] = stmt(X->getBody());
		}
		else if (auto X = dyn_cast<CXXForRangeStmt>(S)) {
			K("ForRange"); O["range"] = stmt(X->getRangeInit()); O["var"] = var(X->getLoopVariable());
			O["body"] = stmt(X->getBody());
		}
		else if (auto X = dyn_cast<SwitchStmt>(S)) { K("Switch"); O["cond"] = stmt(X->getCond()); O["body"] = stmt(X->getBody()); }
		else if (auto X = dyn_cast<CaseStmt>(S)) { K("Case"); O["v"] = stmt(X->getLHS()); O["sub"] = stmt(X->getSubStmt()); }
		else if (auto X = dyn_cast<DefaultStmt>(S)) { K("Default"); O["sub"] = stmt(X->getSubStmt()); }
		else if (isa<BreakStmt>(S)) K("Break");
		else if (isa<ContinueStmt>(S)) K("Continue");
		else if (isa<NullStmt>(S)) K("Null");
		else if (auto X = dyn_cast<ReturnStmt>(S)) { K("Return"); O["e"] = stmt(X->getRetValue()); }
		else if (auto X = dyn_cast<CXXTryStmt>(S)) {
			K("Try"); O["body"] = stmt(X->getTryBlock());
			json::Array H;
			for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
				json::Object h; 
				if (auto *ED = X->getHandler(i)->getExceptionDecl()) h["var"] = var(ED);
				h["body"] = stmt(X->getHandler(i)->getHandlerBlock());
				H.push_back(std::move(h));
			}
			O["h"] = std::move(H);
		}
		else if (auto X = dyn_cast<LabelStmt>(S)) { K("Label"); O["sub"] = stmt(X->getSubStmt()); }
		// ---- expressions
		else if (auto X = dyn_cast<IntegerLiteral>(S)) { K("Int"); O["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType()); }
		else if (auto X = dyn_cast<FloatingLiteral>(S)) {
			K("Float");
			SourceLocation L = X->getLocation();
			std::string txt;
			L = SM.getSpellingLoc(L);
			unsigned n = Lexer::MeasureTokenLength(L, SM, C.getLangOpts());
			bool inv = false;
			const char *p = SM.getCharacterData(L, &inv);
			if (!inv) txt.assign(p, n);
			O["text"] = txt;
			O["d"] = X->getValueAsApproximateDouble();
		}
		else if (auto X = dyn_cast<CXXBoolLiteralExpr>(S)) { K("Bool"); O["v"] = X->getValue(); }
		else if (auto X = dyn_cast<CharacterLiteral>(S)) { K("Char"); O["v"] = (int64_t)X->getValue(); }
		else if (auto X = dyn_cast<clang::StringLiteral>(S)) { K("Str"); if (X->isOrdinary() || X->isUTF8()) O["v"] = json::fixUTF8(X->getString()); else O["v"] = ""; }
		else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) K("NullPtr");
		else if (isa<CXXThisExpr>(S)) K("This");
		else if (auto X = dyn_cast<PredefinedExpr>(S)) { (void)X; K("Str"); O["v"] = "__func__"; }
		else if (auto X = dyn_cast<DeclRefExpr>(S)) {
			const ValueDecl *D = X->getDecl();
			K("Ref");
			O["id"] = id(D); O["name"] = D->getNameAsString();
			if (auto F = dyn_cast<FunctionDecl>(D)) { O["kind"] = "fn"; O["ref"] = fref(F); }
			else if (auto E = dyn_cast<EnumConstantDecl>(D)) {
				O["kind"] = "enum"; O["v"] = llvm::toString(E->getInitVal(), 10); O["q"] = qname(E);
				if (auto ED = dyn_cast<EnumDecl>(E->getDeclContext())) O["eq"] = qname(ED);
			}
			else if (auto V = dyn_cast<VarDecl>(D)) {
				bool g = V->hasGlobalStorage();
				O["kind"] = isa<ParmVarDecl>(D) ? "param" : g ? (V->isStaticLocal() ? "slocal" : "global") : "local";
				if (g) { O["q"] = qname(V); global(V); }
				if (X->refersToEnclosingVariableOrCapture()) O["capture"] = true;
				needT(V->getType());
			}
			else { O["kind"] = "other"; O["q"] = qname(D); }
		}
		else if (auto X = dyn_cast<MemberExpr>(S)) {
			K("Member"); O["base"] = stmt(X->getBase()); O["arrow"] = X->isArrow();
			const ValueDecl *D = X->getMemberDecl();
			O["name"] = D->getNameAsString(); O["q"] = qname(D);
			if (auto F = dyn_cast<CXXMethodDecl>(D)) { O["kind"] = "method"; O["ref"] = fref(F); }
			else if (auto V = dyn_cast<VarDecl>(D)) { O["kind"] = "svar"; O["id"] = id(V); global(V); }
			else O["kind"] = "field";
		}
		else if (auto X = dyn_cast<CXXOperatorCallExpr>(S)) {
			K("OpCall"); O["op"] = getOperatorSpelling(X->getOperator());
			if (auto F = X->getDirectCallee()) O["ref"] = fref(F);
			json::Array A; for (auto *a : X->arguments()) A.push_back(stmt(a)); O["args"] = std::move(A);
		}
		else if (auto X = dyn_cast<CXXMemberCallExpr>(S)) {
			K("MCall");
			if (auto F = X->getMethodDecl()) O["ref"] = fref(F);
			if (auto M = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { O["arrow"] = M->isArrow(); O["qualified"] = M->hasQualifier(); O["nl"] = line(M->getMemberLoc()); }
			if (X->getImplicitObjectArgument()) O["obj"] = stmt(X->getImplicitObjectArgument());
			else O["callee"] = stmt(X->getCallee());
			json::Array A; for (auto *a : X->arguments()) A.push_back(stmt(a)); O["args"] = std::move(A);
		}
		else if (auto X = dyn_cast<CallExpr>(S)) {
			K("Call");
			if (auto F = X->getDirectCallee()) { O["ref"] = fref(F); if (unsigned b = F->getBuiltinID()) O["builtin"] = (int64_t)b; }
			O["callee"] = stmt(X->getCallee());
			json::Array A; for (auto *a : X->arguments()) A.push_back(stmt(a)); O["args"] = std::move(A);
		}
		else if (auto X = dyn_cast<CXXConstructExpr>(S)) {
			K("Construct"); O["ref"] = fref(X->getConstructor());
			O["copy"] = X->getConstructor()->isCopyOrMoveConstructor();
			O["implicitctor"] = X->getConstructor()->isImplicit() || X->getConstructor()->isDefaulted();
			O["zeroinit"] = X->requiresZeroInitialization();
			O["list"] = X->isListInitialization(); O["il"] = X->isStdInitListInitialization();
			needT(X->getType());
			json::Array A; for (auto *a : X->arguments()) A.push_back(stmt(a)); O["args"] = std::move(A);
		}
		else if (auto X = dyn_cast<InitListExpr>(S)) {
			K("InitList");
			json::Array A; for (auto *a : X->inits()) A.push_back(stmt(a)); O["args"] = std::move(A);
			if (X->hasArrayFiller()) O["filler"] = true;
			needT(X->getType());
		}
		else if (auto X = dyn_cast<ArrayInitLoopExpr>(S)) { K("ArrayInit"); O["e"] = stmt(X->getCommonExpr()->getSourceExpr()); }
		else if (auto X = dyn_cast<CastExpr>(S)) {
			K("Cast"); O["ck"] = X->getCastKindName(); O["e"] = stmt(X->getSubExpr());
			O["explicit"] = isa<ExplicitCastExpr>(X);
			if (auto F = dyn_cast_or_null<FunctionDecl>(X->getConversionFunction())) O["ref"] = fref(F);
		}
		else if (auto X = dyn_cast<UnaryOperator>(S)) { K("Un"); O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()); O["post"] = X->isPostfix(); O["e"] = stmt(X->getSubExpr()); }
		else if (auto X = dyn_cast<BinaryOperator>(S)) {
			K("Bin"); O["op"] = X->getOpcodeStr(); O["a"] = stmt(X->getLHS()); O["b"] = stmt(X->getRHS());
			if (auto CA = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = type(CA->getComputationResultType());
		}
		else if (auto X = dyn_cast<ConditionalOperator>(S)) { K("Cond"); O["cond"] = stmt(X->getCond()); O["a"] = stmt(X->getTrueExpr()); O["b"] = stmt(X->getFalseExpr()); }
		else if (auto X = dyn_cast<ArraySubscriptExpr>(S)) { K("Index"); O["a"] = stmt(X->getBase()); O["b"] = stmt(X->getIdx()); }
		else if (auto X = dyn_cast<LambdaExpr>(S)) {
			K("Lambda");
			needF(X->getCallOperator()); O["ref"] = fref(X->getCallOperator());
			// force the body: lambdas always live in root here
			json::Array A;
			auto *R = X->getLambdaClass();
			auto fi = R->field_begin();
			auto ci = X->capture_init_begin();
			for (auto &c : X->captures()) {
				json::Object o;
				if (c.capturesThis()) o["this"] = true;
				else if (c.capturesVariable()) { o["id"] = id(c.getCapturedVar()); o["name"] = c.getCapturedVar()->getNameAsString(); o["t"] = type(c.getCapturedVar()->getType());}
				o["byref"] = c.getCaptureKind() == LCK_ByRef;
				o["init"] = stmt(*ci);
				++ci; (void)fi;
				A.push_back(std::move(o));
			}
			O["captures"] = std::move(A);
		}
		else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) { K("ZeroInit"); needT(cast<Expr>(S)->getType()); }
		else if (auto X = dyn_cast<OpaqueValueExpr>(S)) { if (X->getSourceExpr()) return stmt(X->getSourceExpr()); K("Opaque"); }
		else if (auto X = dyn_cast<CXXThrowExpr>(S)) { K("Throw"); O["e"] = stmt(X->getSubExpr()); }
		else if (auto X = dyn_cast<CXXNewExpr>(S)) { K("New"); O["c"] = kids(X); }
		else if (auto X = dyn_cast<CXXDeleteExpr>(S)) { K("Delete"); O["c"] = kids(X); }
		else { K(S->getStmtClassName()); O["c"] = kids(S); }
		return O;
	}

	void global(const VarDecl *V)
	{
		V = V->getCanonicalDecl();
		if (V->getType()->isDependentType()) return;
		if (!SeenG.insert(V).second) return;
		json::Object O;
		O["q"] = qname(V); O["t"] = type(V->getType()); O["l"] = line(V->getLocation()); O["file"] = file(V->getLocation());
		O["name"] = V->getNameAsString();
		O["inroot"] = inRoot(V->getLocation());
		O["static"] = V->getStorageClass() == SC_Static; O["slocal"] = V->isStaticLocal();
		O["member"] = V->isStaticDataMember();
		O["constexpr"] = V->isConstexpr(); O["const"] = V->getType().isConstQualified();
		O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
		O["inline"] = V->isInline();
		O["linkage"] = V->isExternallyVisible() ? "ext" : "int";
		O["def"] = V->getDefinition() != nullptr;
		O["deffile"] = V->getDefinition() ? file(V->getDefinition()->getLocation()) : "";
		O["ref"] = V->getType()->isReferenceType();
		int i = id(V);
		Globals[std::to_string(i)] = nullptr;
		if (inRoot(V->getLocation())) {
			const VarDecl *D = V;
			if (auto *I = V->getAnyInitializer(D)) O["init"] = stmt(I);
		}
		Globals[std::to_string(i)] = std::move(O);
	}
	void enumd(const EnumDecl *E)
	{
		json::Object O; json::Object vals;
		for (auto *c : E->enumerators()) vals[c->getNameAsString()] = llvm::toString(c->getInitVal(), 10);
		O["q"] = qname(E); O["vals"] = std::move(vals); O["l"] = line(E->getLocation()); O["file"] = file(E->getLocation());
		Enums[qname(E) + "@" + std::to_string(line(E->getLocation()))] = std::move(O);
	}

	void func(const FunctionDecl *F)
	{
		json::Object O;
		O["q"] = qname(F); O["name"] = F->getDeclName().getAsString();
		O["file"] = file(F->getLocation()); O["l"] = line(F->getLocation());
		O["endl"] = line(F->getEndLoc());
		O["rt"] = type(F->getReturnType());
		O["inline"] = F->isInlined(); O["linkage"] = F->isExternallyVisible() ? "ext" : "int";
		O["static"] = F->getStorageClass() == SC_Static;
		O["template"] = F->isTemplateInstantiation();
		json::Array P;
		for (auto *p : F->parameters()) {
			json::Object o; o["id"] = id(p); o["name"] = p->getNameAsString(); o["t"] = type(p->getType());
			if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["def"] = stmt(p->getDefaultArg());
			needT(p->getType());
			P.push_back(std::move(o));
		}
		O["params"] = std::move(P);
		if (auto *TA = F->getTemplateSpecializationArgs()) {
			json::Array A;
			for (auto &a : TA->asArray()) {
				std::string s; llvm::raw_string_ostream os(s);
				a.print(PP, os, true); os.flush(); A.push_back(s);
			}
			O["ta"] = std::move(A);
			if (auto *PT = F->getPrimaryTemplate()) {
				json::Array N;
				for (auto *p : *PT->getTemplateParameters()) N.push_back(p->getNameAsString());
				O["tp"] = std::move(N);
			}
		}
		if (auto M = dyn_cast<CXXMethodDecl>(F)) {
			O["cls"] = type(C.getRecordType(M->getParent())); O["clsid"] = id(M->getParent());
			O["mstatic"] = M->isStatic(); O["const"] = M->isConst(); O["virtual"] = M->isVirtual();
			O["lambda"] = M->getParent()->isLambda();
			json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fkey(b)); O["overrides"] = std::move(ov);
			needR(M->getParent());
		}
		if (auto CD = dyn_cast<CXXConstructorDecl>(F)) {
			O["ctor"] = true;
			json::Array A;
			for (auto *I : CD->inits()) {
				json::Object o;
				if (I->isAnyMemberInitializer()) o["field"] = I->getAnyMember()->getNameAsString();
				else if (I->isBaseInitializer()) o["base"] = type(QualType(I->getBaseClass(), 0));
				else if (I->isDelegatingInitializer()) o["delegate"] = true;
				o["written"] = I->isWritten();
				o["l"] = line(I->getSourceLocation());
				o["init"] = stmt(I->getInit());
				A.push_back(std::move(o));
			}
			O["inits"] = std::move(A);
		}
		O["body"] = stmt(F->getBody());
		Functions[fkey(F)] = std::move(O);
	}

	void rec(const CXXRecordDecl *R)
	{
		json::Object O;
		O["q"] = qname(R); O["t"] = type(C.getRecordType(R)); O["file"] = file(R->getLocation()); O["l"] = line(R->getLocation());
		O["lambda"] = R->isLambda();
		json::Array Fs;
		for (auto *f : R->fields()) {
			json::Object o; o["name"] = f->getNameAsString(); o["t"] = type(f->getType()); o["l"] = line(f->getLocation());
			o["access"] = (int64_t)f->getAccess();
			if (auto *I = f->getInClassInitializer()) o["init"] = stmt(I);
			needT(f->getType());
			Fs.push_back(std::move(o));
		}
		O["fields"] = std::move(Fs);
		json::Array B;
		for (auto &b : R->bases()) { B.push_back(type(b.getType())); needT(b.getType()); }
		O["bases"] = std::move(B);
		json::Array M;
		for (auto *m : R->methods()) {
			json::Object o; o["fn"] = fkey(m); o["name"] = m->getDeclName().getAsString(); o["virtual"] = m->isVirtual(); o["pure"] = m->isPureVirtual();
			o["implicit"] = m->isImplicit(); o["defaulted"] = m->isDefaulted(); o["deleted"] = m->isDeleted();
			o["ctor"] = isa<CXXConstructorDecl>(m); o["hasbody"] = m->hasBody();
			o["access"] = (int64_t)m->getAccess();
			o["l"] = line(m->getLocation());
			if (m->isUserProvided() && !m->isTemplated()) needF(m);
			json::Array ov; for (auto *b : m->overridden_methods()) ov.push_back(fkey(b)); o["overrides"] = std::move(ov);
			M.push_back(std::move(o));
		}
		O["methods"] = std::move(M);
		O["implicit_default_ctor"] = R->hasDefaultConstructor() && !R->hasUserProvidedDefaultConstructor();
		O["user_ctor"] = R->hasUserDeclaredConstructor();
		O["aggregate"] = R->isAggregate();
		Records[O["t"].getAsString()->str() + "@" + std::to_string(id(R))] = std::move(O);
	}
};

struct Visitor : RecursiveASTVisitor<Visitor> {
	Dumper &D;
	explicit Visitor(Dumper &D) : D(D) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool VisitFunctionDecl(FunctionDecl *F)
	{
		if (!D.inRoot(F->getLocation())) return true;
		bool dep = F->isDependentContext();
		json::Object o;
		o["q"] = D.qname(F); o["fn"] = dep ? "" : D.fkey(F); o["file"] = D.file(F->getLocation()); o["l"] = D.line(F->getLocation());
		o["isdef"] = F->isThisDeclarationADefinition(); o["inline"] = F->isInlined();
		o["templated"] = dep || F->isTemplated(); o["inst"] = F->isTemplateInstantiation();
		o["linkage"] = dep ? "dep" : F->isExternallyVisible() ? "ext" : "int";
		o["member"] = isa<CXXMethodDecl>(F); o["implicit"] = F->isImplicit();
		o["deleted"] = F->isDeleted(); o["defaulted"] = F->isDefaulted(); o["pure"] = F->isPureVirtual();
		o["local"] = F->getParentFunctionOrMethod() != nullptr;
		json::Array P; for (auto *p : F->parameters()) P.push_back(D.type(p->getType())); o["pt"] = std::move(P);
		D.Decls.push_back(std::move(o));
		if (!dep) D.needF(F);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *R)
	{
		if (D.inRoot(R->getLocation()) && R->isThisDeclarationADefinition() && !R->isDependentContext()) D.needR(R);
		return true;
	}
	bool VisitVarDecl(VarDecl *V)
	{
		if (V->hasGlobalStorage() && D.inRoot(V->getLocation()) && !V->getDeclContext()->isDependentContext()) D.global(V);
		return true;
	}
	bool VisitEnumDecl(EnumDecl *E)
	{
		if (D.inRoot(E->getLocation()) && !E->isDependentContext()) D.enumd(E);
		return true;
	}
	// Do not descend into foreign declarations.
	bool TraverseDecl(Decl *X)
	{
		if (!X) return true;
		if (isa<TranslationUnitDecl>(X) || isa<NamespaceDecl>(X) || isa<LinkageSpecDecl>(X)) return RecursiveASTVisitor::TraverseDecl(X);
		if (!D.inRoot(X->getLocation())) return true;
		return RecursiveASTVisitor::TraverseDecl(X);
	}
};

struct Consumer : ASTConsumer {
	void HandleTranslationUnit(ASTContext &C) override
	{
		Dumper D(C);
		Visitor V(D);
		V.TraverseDecl(C.getTranslationUnitDecl());
		while (!D.WorkF.empty() || !D.WorkR.empty()) {
			if (!D.WorkF.empty()) { auto *F = D.WorkF.back(); D.WorkF.pop_back(); D.func(F); }
			else { auto *R = D.WorkR.back(); D.WorkR.pop_back(); D.rec(R); }
		}
		json::Object O;
		O["functions"] = std::move(D.Functions); O["records"] = std::move(D.Records);
		O["globals"] = std::move(D.Globals); O["enums"] = std::move(D.Enums); O["decls"] = std::move(D.Decls);
		O["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
		std::error_code EC;
		llvm::raw_fd_ostream out(OutFile, EC);
		out << json::Value(std::move(O));
	}
};
struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

// usage: extract OUT ROOT[,ROOT...] FILE flags...
int main(int argc, char **argv)
{
	if (argc < 4) return 2;
	OutFile = argv[1];
	std::string r = argv[2];
	size_t p = 0;
	while (p <= r.size()) { size_t q = r.find(',', p); if (q == std::string::npos) q = r.size(); Roots.push_back(r.substr(p, q - p)); p = q + 1; }
	std::vector<std::string> args = {"clang++"};
	for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
	args.push_back("-fsyntax-only");
	args.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
	args.push_back(argv[3]);
	llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
	tooling::ToolInvocation TI(args, std::make_unique<Action>(), FM.get());
	return TI.run() ? 0 : 1;
}
