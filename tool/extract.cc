// Source extractor: parses one translation unit with clang's front end and writes every
// non-dependent function whose code lives under a given root (plus class layouts) as JSON.
// No code is generated or run.
//   extract OUT.json ROOT -- file.cc clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::OStream;

static std::string gOut, gRoot;

namespace {

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C; SourceManager &SM; OStream &J; PrintingPolicy PP;
  std::map<const void*, int> ids; std::map<std::string, int> types; std::vector<std::string> typeList;
  std::vector<const FunctionDecl*> funcs; std::set<const FunctionDecl*> seen;
  std::vector<const CXXRecordDecl*> recs; std::set<const CXXRecordDecl*> seenRec;
  std::vector<const EnumDecl*> enums;
  std::vector<const VarDecl*> globals; std::set<const VarDecl*> seenG;
  Dumper(ASTContext &C, OStream &J): C(C), SM(C.getSourceManager()), J(J), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressScope = false; }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const Decl *D) { const void *k = D->getCanonicalDecl(); auto it = ids.find(k); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[k] = n; return n; }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = types.find(s); if (it != types.end()) return it->second;
    int n = typeList.size(); types[s] = n; typeList.push_back(s); return n;
  }
  std::string fileOf(SourceLocation L) { auto P = SM.getPresumedLoc(SM.getExpansionLoc(L)); if (P.isInvalid()) return ""; llvm::SmallString<256> p(P.getFilename()); return std::string(p); }
  int lineOf(SourceLocation L) { auto P = SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isInvalid() ? 0 : (int)P.getLine(); }
  bool inRoot(SourceLocation L) { std::string f = fileOf(L); return f.compare(0, gRoot.size(), gRoot) == 0; }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream o(s); D->printQualifiedName(o, PP); return o.str(); }
  std::string clsName(const CXXRecordDecl *R) { if (!R) return ""; if (R->isLambda()) return "lambda"; return qn(R); }

  // ---------------------------------------------------------------- collection
  void addFunc(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *D = nullptr; if (!F->hasBody(D)) return;
    if (D->isDependentContext() || D->isTemplated()) return;
    if (!inRoot(D->getLocation())) return;
    if (seen.insert(D).second) funcs.push_back(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { addFunc(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    if (seenRec.insert(R).second) recs.push_back(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) { if (E->isComplete() && inRoot(E->getLocation()) && !E->isDependentContext()) enums.push_back(E); return true; }
  bool VisitVarDecl(VarDecl *V) {
    noteStatic(V);
    if (V->hasGlobalStorage() && !V->getDeclContext()->isDependentContext() && !V->isTemplated() && !V->isLocalVarDecl() && inRoot(V->getLocation()) && V->hasInit() && !V->isInvalidDecl())
      if (seenG.insert(V->getCanonicalDecl()).second) globals.push_back(V);
    return true;
  }

  // ---------------------------------------------------------------- objects that exist once per program
  std::vector<const VarDecl*> statics; std::set<const void*> seenS;
  struct Use { const VarDecl *V; const FunctionDecl *F; int ln; bool locked, unsure, read; }; std::vector<Use> writes;
  bool noteStatic(const VarDecl *V) {
    if (!V || !V->hasGlobalStorage() || V->isInvalidDecl() || V->getDeclContext()->isDependentContext() || V->isTemplated() || !inRoot(V->getLocation())) return false;
    if (seenS.insert(V->getCanonicalDecl()).second) statics.push_back(V);
    return true;
  }
  // hands out (a reference to) a part without changing anything itself
  bool access(const CXXMethodDecl *M) {
    std::string n = M->getNameAsString(), c = qn(M->getParent());
    if (c.find("map") != std::string::npos && n == "operator[]") return false;
    for (auto *k : {"operator[]", "at", "begin", "end", "find", "data", "front", "back", "get", "operator*", "operator->", "value"}) if (n == k) return true;
    return false;
  }
  void noteUse(const Expr *E, const VarDecl *V) {
    if (!noteStatic(V)) return; bool konst = V->getType().isConstQualified(); if (konst && V->getType().getCanonicalType().getAsString(PP).find('*') == std::string::npos && V->getType().getCanonicalType().getAsString(PP).find("_ptr<") == std::string::npos) return;
    DynTypedNode N = DynTypedNode::create(*E); bool write = false, decided = false, locked = false, unsure = false; const FunctionDecl *F = nullptr;
    for (int depth = 0; depth < 200; depth++) {
      auto P = C.getParents(N); if (P.empty()) break;
      DynTypedNode M = P[0];
      if (auto *D = M.get<FunctionDecl>()) { F = D; if (!(isa<CXXMethodDecl>(D) && cast<CXXMethodDecl>(D)->getParent()->isLambda())) break; N = M; continue; }
      if (auto *K = M.get<CallExpr>()) if (auto *G = K->getDirectCallee()) if (G->getNameAsString() == "call_once") locked = true;
      if (auto *D = M.get<VarDecl>()) if (D->isStaticLocal() || D->isFileVarDecl()) locked = true;      // an initialiser runs once
      if (auto *B = M.get<CompoundStmt>()) for (auto *S : B->body()) if (auto *DS = dyn_cast<DeclStmt>(S)) for (auto *x : DS->decls()) if (auto *L = dyn_cast<VarDecl>(x)) {
        std::string s = L->getType().getCanonicalType().getAsString(PP);
        for (auto *k : {"lock_guard", "unique_lock", "scoped_lock", "shared_lock"}) if (s.find(k) != std::string::npos) locked = true;
      }
      if (!decided) {
        if (auto *X = M.get<ImplicitCastExpr>()) {
          auto k = X->getCastKind();
          if (k == CK_LValueToRValue) decided = true;
          else if (k == CK_NoOp) { if (X->getType().isConstQualified()) decided = true; }
          else if (k != CK_ArrayToPointerDecay && k != CK_UncheckedDerivedToBase && k != CK_DerivedToBase) { unsure = true; decided = true; }
        }
        else if (M.get<ParenExpr>() || M.get<ArraySubscriptExpr>()) ;
        else if (auto *X = M.get<MemberExpr>()) { if (auto *Fn = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) { if (!access(Fn)) { decided = true; write = !Fn->isConst() && !Fn->isStatic(); } } }
        else if (auto *X = M.get<CXXMemberCallExpr>()) { if (X->getCallee() != N.get<Expr>()) { decided = true; unsure = true; } }      // goes on with what an accessor returned
        else if (auto *X = M.get<BinaryOperator>()) { decided = true; if (X->isAssignmentOp() && N.get<Expr>() == X->getLHS()) write = true; else unsure = !X->isAssignmentOp() && X->getOpcode() != BO_Comma; }
        else if (auto *X = M.get<UnaryOperator>()) { decided = true; if (X->isIncrementDecrementOp()) write = true; else unsure = true; }
        else if (auto *X = M.get<CXXOperatorCallExpr>()) {
          decided = true; auto *Fn = X->getDirectCallee(); auto *Me = dyn_cast_or_null<CXXMethodDecl>(Fn);
          if (Me && X->getNumArgs() && N.get<Expr>() == X->getArg(0)) { if (access(Me)) decided = false; else write = !Me->isConst(); } else unsure = true;
        }
        else if (M.get<Expr>() || M.get<VarDecl>()) { decided = true; unsure = true; }
      }
      N = M;
    }
    writes.push_back({V, F, lineOf(E->getBeginLoc()), locked, unsure && !write, !write && !unsure});
  }
  bool VisitDeclRefExpr(DeclRefExpr *E) { noteUse(E, dyn_cast<VarDecl>(E->getDecl())); return true; }
  bool VisitMemberExpr(MemberExpr *E) { noteUse(E, dyn_cast<VarDecl>(E->getMemberDecl())); return true; }

  // ---------------------------------------------------------------- statements
  void attrI(const char *k, int64_t v) { J.attribute(k, v); }
  void stmtAttr(const char *k, const Stmt *S) { J.attributeBegin(k); stmt(S); J.attributeEnd(); }
  void exprAttr(const char *k, const Expr *E) { J.attributeBegin(k); expr(E); J.attributeEnd(); }
  void varDecl(const VarDecl *V) {
    J.object([&] {
      attrI("id", id(V)); J.attribute("n", V->getNameAsString()); attrI("t", ty(V->getType())); attrI("ln", lineOf(V->getLocation()));
      if (V->hasGlobalStorage() && !V->isLocalVarDecl()) J.attribute("qn", qn(V));
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->isConstexpr()) J.attribute("constexpr", true);
      if (V->hasInit()) { exprAttr("init", V->getInit()); J.attribute("style", V->getInitStyle() == VarDecl::ListInit ? "list" : V->getInitStyle() == VarDecl::CallInit ? "call" : "c"); }
      if (auto *D = dyn_cast<DecompositionDecl>(V)) { J.attributeArray("bind", [&] { for (auto *B : D->bindings()) J.object([&] { attrI("id", id(B)); J.attribute("n", B->getNameAsString()); if (B->getBinding()) exprAttr("e", B->getBinding()); }); }); }
    });
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *A = dyn_cast<AttributedStmt>(S)) { stmt(A->getSubStmt()); return; }
    if (auto *L = dyn_cast<LabelStmt>(S)) { stmt(L->getSubStmt()); return; }
    J.object([&] {
      attrI("ln", lineOf(S->getBeginLoc()));
      if (auto *B = dyn_cast<CompoundStmt>(S)) { J.attribute("k", "block"); J.attributeArray("s", [&] { for (auto *x : B->body()) stmt(x); }); }
      else if (auto *D = dyn_cast<DeclStmt>(S)) { J.attribute("k", "decl"); J.attributeArray("v", [&] { for (auto *x : D->decls()) if (auto *V = dyn_cast<VarDecl>(x)) varDecl(V); }); }
      else if (auto *I = dyn_cast<IfStmt>(S)) {
        J.attribute("k", "if"); if (I->getInit()) stmtAttr("init", I->getInit());
        if (I->getConditionVariableDeclStmt()) stmtAttr("cv", I->getConditionVariableDeclStmt());
        if (I->isConstexpr()) J.attribute("constexpr", true);
        exprAttr("c", I->getCond()); stmtAttr("a", I->getThen()); stmtAttr("b", I->getElse());
      }
      else if (auto *F = dyn_cast<ForStmt>(S)) { J.attribute("k", "for"); stmtAttr("init", F->getInit()); if (F->getConditionVariableDeclStmt()) stmtAttr("cv", F->getConditionVariableDeclStmt()); exprAttr("c", F->getCond()); exprAttr("inc", F->getInc()); stmtAttr("body", F->getBody()); }
      else if (auto *W = dyn_cast<WhileStmt>(S)) { J.attribute("k", "while"); if (W->getConditionVariableDeclStmt()) stmtAttr("cv", W->getConditionVariableDeclStmt()); exprAttr("c", W->getCond()); stmtAttr("body", W->getBody()); }
      else if (auto *D = dyn_cast<DoStmt>(S)) { J.attribute("k", "do"); exprAttr("c", D->getCond()); stmtAttr("body", D->getBody()); }
      else if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
        J.attribute("k", "rangefor"); J.attributeBegin("v"); varDecl(R->getLoopVariable()); J.attributeEnd();
        exprAttr("range", R->getRangeInit()); stmtAttr("body", R->getBody());
      }
      else if (auto *X = dyn_cast<SwitchStmt>(S)) { J.attribute("k", "switch"); if (X->getInit()) stmtAttr("init", X->getInit()); exprAttr("c", X->getCond()); stmtAttr("body", X->getBody()); }
      else if (auto *X = dyn_cast<CaseStmt>(S)) { J.attribute("k", "case"); exprAttr("e", X->getLHS()); stmtAttr("s", X->getSubStmt()); }
      else if (auto *X = dyn_cast<DefaultStmt>(S)) { J.attribute("k", "default"); stmtAttr("s", X->getSubStmt()); }
      else if (auto *X = dyn_cast<ReturnStmt>(S)) { J.attribute("k", "return"); if (X->getRetValue()) exprAttr("e", X->getRetValue()); }
      else if (isa<BreakStmt>(S)) J.attribute("k", "break");
      else if (isa<ContinueStmt>(S)) J.attribute("k", "continue");
      else if (isa<NullStmt>(S)) J.attribute("k", "null");
      else if (auto *T = dyn_cast<CXXTryStmt>(S)) { J.attribute("k", "try"); stmtAttr("body", T->getTryBlock()); J.attributeArray("h", [&] { for (unsigned i = 0; i < T->getNumHandlers(); i++) stmt(T->getHandler(i)->getHandlerBlock()); }); }
      else if (auto *E = dyn_cast<Expr>(S)) { J.attribute("k", "expr"); exprAttr("e", E); }
      else { J.attribute("k", "unknown"); J.attribute("cls", S->getStmtClassName()); }
    });
  }

  // ---------------------------------------------------------------- expressions
  void calleeAttrs(const FunctionDecl *F) {
    addFunc(F);
    if (auto *P = F->getTemplateInstantiationPattern()) (void)P;
    const FunctionDecl *D = F; F->hasBody(D); if (!D) D = F;
    attrI("f", id(F)); J.attribute("fn", qn(F)); J.attribute("bn", F->getNameAsString());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { J.attribute("cls", clsName(M->getParent())); if (M->isConst()) J.attribute("cm", true); if (M->isStatic()) J.attribute("sm", true); }
    J.attributeArray("pt", [&] { for (auto *P : F->parameters()) J.value(ty(P->getType())); });
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J.attributeArray("ta", [&] { for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream o(s); A.print(PP, o, true); J.value(o.str()); } });
    }
  }
  void args(llvm::ArrayRef<const Expr*> A) { J.attributeArray("a", [&] { for (auto *x : A) expr(x); }); }
  void expr(const Expr *E) {
    if (!E) { J.value(nullptr); return; }
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast: case CK_FloatingCast:
        case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_ArrayToPointerDecay: break;
        case CK_NullToPointer: J.object([&]{ J.attribute("k", "null"); attrI("ln", lineOf(E->getBeginLoc())); attrI("t", ty(E->getType())); }); return;
        default: return expr(X->getSubExpr());
      }
      J.object([&] { J.attribute("k", "cast"); J.attribute("ck", X->getCastKindName()); J.attribute("impl", true); attrI("ln", lineOf(E->getBeginLoc())); attrI("t", ty(E->getType())); exprAttr("e", X->getSubExpr()); });
      return;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      // functional casts of class types are constructions
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion) return expr(X->getSubExpr());
      if (X->getCastKind() == CK_NoOp && !X->getType()->isPointerType() && !isa<CXXStaticCastExpr>(X) && !isa<CXXReinterpretCastExpr>(X)) return expr(X->getSubExpr());
      J.object([&] { J.attribute("k", "cast"); J.attribute("ck", X->getCastKindName()); attrI("ln", lineOf(E->getBeginLoc())); attrI("t", ty(E->getType()));
        if (isa<CXXReinterpretCastExpr>(X)) J.attribute("re", true);
        if (X->isLValue()) J.attribute("lv", true);
        exprAttr("e", X->getSubExpr()); });
      return;
    }
    J.object([&] {
      attrI("ln", lineOf(E->getExprLoc())); attrI("t", ty(E->getType()));
      if (auto *X = dyn_cast<IntegerLiteral>(E)) { J.attribute("k", "int"); llvm::SmallString<40> s; X->getValue().toString(s, 10, E->getType()->isSignedIntegerType()); J.attribute("v", s.str()); }
      else if (auto *X = dyn_cast<CharacterLiteral>(E)) { J.attribute("k", "int"); J.attribute("v", std::to_string(X->getValue())); }
      else if (auto *X = dyn_cast<FloatingLiteral>(E)) { J.attribute("k", "float"); llvm::SmallString<40> s; X->getValue().toString(s, 0, 0); J.attribute("v", s.str()); }
      else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { J.attribute("k", "bool"); J.attribute("v", X->getValue()); }
      else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) J.attribute("k", "null");
      else if (auto *X = dyn_cast<clang::StringLiteral>(E)) { J.attribute("k", "str"); J.attribute("v", X->getCharByteWidth() == 1 ? llvm::json::fixUTF8(X->getString()) : std::string("?")); }
      else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
        const ValueDecl *D = X->getDecl();
        if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("k", "fref"); calleeAttrs(F); }
        else {
          J.attribute("k", "ref"); attrI("id", id(D)); J.attribute("n", D->getNameAsString());
          if (auto *V = dyn_cast<VarDecl>(D)) {
            if (V->isConstexpr() && V->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { llvm::SmallString<40> s; R.Val.getInt().toString(s, 10); J.attribute("cv", s.str()); } }
            if (V->hasGlobalStorage() && !V->isLocalVarDecl()) J.attribute("glob", qn(V));
          } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { J.attribute("enum", qn(EC)); llvm::SmallString<40> s; EC->getInitVal().toString(s, 10); J.attribute("cv", s.str()); }
          else if (auto *B = dyn_cast<BindingDecl>(D)) { if (B->getBinding()) exprAttr("bind", B->getBinding()); }
        }
      }
      else if (auto *X = dyn_cast<MemberExpr>(E)) {
        const ValueDecl *D = X->getMemberDecl();
        if (auto *V = dyn_cast<VarDecl>(D)) {
          J.attribute("k", "ref"); attrI("id", id(V)); J.attribute("n", V->getNameAsString()); J.attribute("glob", qn(V));
          if (V->isConstexpr() && V->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) { llvm::SmallString<40> s; R.Val.getInt().toString(s, 10); J.attribute("cv", s.str()); } }
        } else if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("k", "mfref"); calleeAttrs(F); exprAttr("b", X->getBase()); }
        else { J.attribute("k", "mem"); J.attribute("n", D->getNameAsString()); if (X->isArrow()) J.attribute("arrow", true); exprAttr("b", X->getBase()); }
      }
      else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
        const FunctionDecl *F = X->getDirectCallee();
        J.attribute("k", "call"); J.attribute("op", getOperatorSpelling(X->getOperator()));
        if (F) { calleeAttrs(F); bool m = isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic(); std::vector<const Expr*> a; for (unsigned i = m ? 1 : 0; i < X->getNumArgs(); i++) a.push_back(X->getArg(i)); if (m) exprAttr("o", X->getArg(0)); args(a); }
        else { std::vector<const Expr*> a; for (auto *y : X->arguments()) a.push_back(y); args(a); }
      }
      else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
        J.attribute("k", "call");
        if (auto *M = X->getMethodDecl()) { calleeAttrs(M); exprAttr("o", X->getImplicitObjectArgument()); if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->isArrow()) J.attribute("arrow", true); }
        else exprAttr("callee", X->getCallee());
        std::vector<const Expr*> a; for (auto *y : X->arguments()) a.push_back(y); args(a);
      }
      else if (auto *X = dyn_cast<CallExpr>(E)) {
        J.attribute("k", "call");
        if (auto *F = X->getDirectCallee()) calleeAttrs(F); else exprAttr("callee", X->getCallee());
        std::vector<const Expr*> a; for (auto *y : X->arguments()) a.push_back(y); args(a);
      }
      else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        J.attribute("k", "ctor"); calleeAttrs(X->getConstructor());
        auto *CD = X->getConstructor(); if (CD->isCopyConstructor()) J.attribute("kind", "copy"); else if (CD->isMoveConstructor()) J.attribute("kind", "move"); else if (CD->isDefaultConstructor() && X->getNumArgs() == 0) J.attribute("kind", "default");
        if (CD->isImplicit() || CD->isDefaulted()) J.attribute("defaulted", true);
        if (X->isListInitialization()) J.attribute("list", true);
        if (X->isElidable()) J.attribute("elide", true);
        if (X->requiresZeroInitialization()) J.attribute("zi", true);
        std::vector<const Expr*> a; for (auto *y : X->arguments()) a.push_back(y); args(a);
      }
      else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { J.attribute("k", "ctor"); calleeAttrs(X->getConstructor()); J.attribute("inherited", true); args({}); }
      else if (auto *X = dyn_cast<UnaryOperator>(E)) { J.attribute("k", "un"); J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode())); if (X->isPostfix()) J.attribute("post", true); exprAttr("e", X->getSubExpr()); }
      else if (auto *X = dyn_cast<BinaryOperator>(E)) { J.attribute("k", X->isAssignmentOp() ? "assign" : "bin"); J.attribute("op", X->getOpcodeStr()); exprAttr("l", X->getLHS()); exprAttr("r", X->getRHS()); }
      else if (auto *X = dyn_cast<ConditionalOperator>(E)) { J.attribute("k", "cond"); exprAttr("c", X->getCond()); exprAttr("x", X->getTrueExpr()); exprAttr("y", X->getFalseExpr()); }
      else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { J.attribute("k", "sub"); exprAttr("b", X->getBase()); exprAttr("i", X->getIdx()); }
      else if (isa<CXXThisExpr>(E)) J.attribute("k", "this");
      else if (auto *X = dyn_cast<LambdaExpr>(E)) {
        J.attribute("k", "lambda"); auto *R = X->getLambdaClass(); attrI("cid", id(R));
        auto *Op = X->getCallOperator(); addFunc(Op); attrI("f", id(Op)); 
        if (auto *FT = Op->getDescribedFunctionTemplate()) { J.attributeArray("specs", [&] { for (auto *S : FT->specializations()) { addFunc(S); J.value(id(S)); } }); }
        J.attributeArray("caps", [&] { for (auto &c : X->captures()) { if (c.capturesVariable()) J.object([&] { attrI("id", id(c.getCapturedVar())); J.attribute("n", c.getCapturedVar()->getNameAsString()); J.attribute("ref", c.getCaptureKind() == LCK_ByRef); if (auto *V = dyn_cast<VarDecl>(c.getCapturedVar())) if (V->isInitCapture() && V->getInit()) exprAttr("init", V->getInit()); }); } });
      }
      else if (auto *X = dyn_cast<InitListExpr>(E)) { J.attribute("k", "list"); const InitListExpr *S = X; if (X->isSyntacticForm() && X->getSemanticForm()) S = X->getSemanticForm(); std::vector<const Expr*> a; for (auto *y : S->inits()) a.push_back(y); args(a); if (S->hasArrayFiller()) { exprAttr("fill", S->getArrayFiller()); } }
      else if (isa<ImplicitValueInitExpr>(E)) { J.attribute("k", "zero"); }
      else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)X; J.attribute("k", "zero"); }
      else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { J.attribute("k", "throw"); if (X->getSubExpr()) exprAttr("e", X->getSubExpr()); }
      else if (auto *X = dyn_cast<CXXNewExpr>(E)) { J.attribute("k", "new"); attrI("nt", ty(X->getAllocatedType())); if (X->isArray() && X->getArraySize() && *X->getArraySize()) exprAttr("sz", *X->getArraySize()); if (X->getInitializer()) exprAttr("init", X->getInitializer()); }
      else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { J.attribute("k", "delete"); exprAttr("e", X->getArgument()); }
      else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
        J.attribute("k", "sizeof"); QualType T = X->isArgumentType() ? X->getArgumentType() : X->getArgumentExpr()->getType(); attrI("of", ty(T));
        Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { llvm::SmallString<40> s; R.Val.getInt().toString(s, 10); J.attribute("cv", s.str()); }
      }
      else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { J.attribute("k", "arrcopy"); exprAttr("e", X->getCommonExpr()->getSourceExpr()); }
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { J.attribute("k", "opaque"); if (X->getSourceExpr()) exprAttr("e", X->getSourceExpr()); }
      else if (isa<TypeTraitExpr>(E) || isa<ConceptSpecializationExpr>(E) || isa<RequiresExpr>(E)) { Expr::EvalResult R; J.attribute("k", "bool"); bool v = false; if (!E->isValueDependent()) E->EvaluateAsBooleanCondition(v, C); J.attribute("v", v); }
      else if (auto *X = dyn_cast<PredefinedExpr>(E)) { (void)X; J.attribute("k", "str"); J.attribute("v", "__func__"); }
      else if (auto *X = dyn_cast<SourceLocExpr>(E)) { (void)X; J.attribute("k", "str"); J.attribute("v", "__loc__"); }
      else if (auto *X = dyn_cast<StmtExpr>(E)) { J.attribute("k", "stmtexpr"); stmtAttr("s", X->getSubStmt()); }
      else if (auto *X = dyn_cast<RecoveryExpr>(E)) { (void)X; J.attribute("k", "recovery"); }
      else { J.attribute("k", "unknown"); J.attribute("cls", E->getStmtClassName()); J.attributeArray("sub", [&] { for (auto *c : E->children()) if (auto *x = dyn_cast_or_null<Expr>(c)) expr(x); }); }
    });
  }

  void function(const FunctionDecl *F) {
    J.object([&] {
      attrI("id", id(F)); J.attribute("n", F->getNameAsString()); J.attribute("qn", qn(F)); J.attribute("file", fileOf(F->getLocation())); attrI("ln", lineOf(F->getLocation())); attrI("ret", ty(F->getReturnType()));
      attrI("endln", lineOf(F->getBody() ? F->getBody()->getEndLoc() : F->getLocation()));
      if (auto *TA = F->getTemplateSpecializationArgs()) J.attributeArray("ta", [&] { for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream o(s); A.print(PP, o, true); J.value(o.str()); } });
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("cls", clsName(M->getParent())); attrI("clsid", id(M->getParent())); if (!M->getParent()->isLambda()) attrI("clst", ty(C.getRecordType(M->getParent()))); if (M->isStatic()) J.attribute("static", true); if (M->isConst()) J.attribute("const", true);
        J.attribute("access", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected");
      }
      J.attribute("kind", isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXConversionDecl>(F) ? "conv" : isa<CXXMethodDecl>(F) ? "method" : "func");
      if (F->isImplicit() || F->isDefaulted()) J.attribute("implicit", true);
      J.attributeArray("params", [&] { for (auto *P : F->parameters()) J.object([&] { attrI("id", id(P)); J.attribute("n", P->getNameAsString()); attrI("t", ty(P->getType())); if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) exprAttr("d", P->getDefaultArg()); }); });
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) J.attributeArray("inits", [&] {
        for (auto *I : K->inits()) J.object([&] {
          if (I->isAnyMemberInitializer()) J.attribute("field", I->getAnyMember()->getNameAsString()); else if (I->isDelegatingInitializer()) J.attribute("deleg", true); else if (I->isBaseInitializer()) J.attribute("base", QualType(I->getBaseClass(), 0).getCanonicalType().getAsString(PP));
          J.attribute("written", I->isWritten()); exprAttr("e", I->getInit());
        });
      });
      stmtAttr("body", F->getBody());
    });
  }

  void run() {
    TraverseDecl(C.getTranslationUnitDecl());
    J.object([&] {
      J.attributeArray("funcs", [&] { for (size_t i = 0; i < funcs.size(); i++) function(funcs[i]); });
      J.attributeArray("records", [&] {
        for (auto *R : recs) J.object([&] {
          attrI("id", id(R)); J.attribute("qn", qn(R)); attrI("t", ty(C.getRecordType(R))); J.attribute("file", fileOf(R->getLocation())); attrI("ln", lineOf(R->getLocation()));
          J.attributeArray("bases", [&] { for (auto &B : R->bases()) J.value(B.getType().getCanonicalType().getAsString(PP)); });
          J.attributeArray("fields", [&] { for (auto *Fd : R->fields()) J.object([&] { J.attribute("n", Fd->getNameAsString()); attrI("t", ty(Fd->getType())); if (Fd->hasInClassInitializer() && Fd->getInClassInitializer()) exprAttr("init", Fd->getInClassInitializer()); }); });
        });
      });
      J.attributeArray("globals", [&] { for (auto *V : globals) { varDecl(V); } });
      J.attributeArray("statics", [&] { for (auto *V : statics) J.object([&] {
        J.attribute("n", qn(V)); attrI("t", ty(V->getType())); J.attribute("file", fileOf(V->getLocation())); attrI("ln", lineOf(V->getLocation())); J.attribute("const", V->getType().isConstQualified()); J.attribute("tls", V->getTLSKind() != VarDecl::TLS_None); J.attribute("local", V->isStaticLocal());
        J.attributeArray("writes", [&] { for (auto &w : writes) if (w.V->getCanonicalDecl() == V->getCanonicalDecl()) J.object([&] { J.attribute("fn", w.F ? qn(w.F) : ""); attrI("ln", w.ln); J.attribute("locked", w.locked); J.attribute("unsure", w.unsure); J.attribute("read", w.read); }); });
      }); });
      J.attributeArray("enums", [&] { for (auto *E : enums) J.object([&] { J.attribute("qn", qn(E)); J.attributeArray("c", [&] { for (auto *K : E->enumerators()) J.object([&] { J.attribute("n", K->getNameAsString()); llvm::SmallString<40> s; K->getInitVal().toString(s, 10); J.attribute("v", s.str()); }); }); }); });
      J.attributeArray("types", [&] { for (auto &t : typeList) J.value(t); });
    });
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec); OStream J(os); Dumper D(C, J); D.run(); os.flush();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};
}

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract OUT ROOT -- file args...\n"; return 2; }
  gOut = argv[1]; gRoot = argv[2];
  std::string file = argv[4]; std::vector<std::string> a; for (int i = 5; i < argc; i++) a.push_back(argv[i]);
  a.push_back("-ferror-limit=0"); a.push_back("-fno-color-diagnostics"); a.push_back("-w"); 
  tooling::FixedCompilationDatabase DB(".", a);
  tooling::ClangTool T(DB, {file});
  T.setPrintErrorMessage(false);
  auto f = tooling::newFrontendActionFactory<Action>();
  T.run(f.get());   // parse errors are reported on stderr; the caller decides which matter
  return 0;
}
