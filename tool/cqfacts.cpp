// cqfacts: dump the resolved, instantiated AST of every function defined under
// a root directory as JSON (one file per translation unit).
//
//   cqfacts <root> <source> <out.json> -- <compiler flags>
//
// Only facts that survive renaming/reformatting are emitted: node kinds,
// resolved declarations, canonical types, evaluated constants.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::OStream;

static std::string Root, OutFile;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  Dumper(ASTContext &C, OStream &J)
      : Ctx(C), SM(C.getSourceManager()), J(J), NG(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.AnonymousTagLocations = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::vector<const FunctionDecl *> Funcs;
  std::vector<const FunctionDecl *> Decls;
  std::vector<const CXXRecordDecl *> Records;
  std::vector<const RecordDecl *> CRecords;
  std::vector<const EnumDecl *> Enums;
  std::vector<const VarDecl *> Globals;
  std::set<const void *> Seen;

  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto F = SM.getFilename(SM.getExpansionLoc(L));
    return F.starts_with(Root) || F.ends_with("/vpprobe.cc");
  }
  std::string file(SourceLocation L) {
    auto F = SM.getFilename(SM.getExpansionLoc(L));
    if (F.starts_with(Root)) return F.substr(Root.size()).str();
    return F.str();
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
    if (!inRoot(F->getLocation())) return true;
    if (F->doesThisDeclarationHaveABody() && F->hasBody()) {
      if (Seen.insert(F).second) Funcs.push_back(F);
    } else if (Seen.insert(F).second)
      Decls.push_back(F);
    return true;
  }
  SourceLocation where(const CXXRecordDecl *R) {
    if (auto *P = R->getTemplateInstantiationPattern()) return P->getLocation();
    return R->getLocation();
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() ||
        !inRoot(where(R)) || R->isLambda())
      return true;
    if (Seen.insert(R).second) Records.push_back(R);
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (isa<CXXRecordDecl>(R)) return true;
    if (!R->isThisDeclarationADefinition() || !inRoot(R->getLocation())) return true;
    if (Seen.insert(R).second) CRecords.push_back(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation()) || E->isDependentContext()) return true;
    if (Seen.insert(E).second) Enums.push_back(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isLocalVarDeclOrParm() && inRoot(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext() && V->isThisDeclarationADefinition())
      if (Seen.insert(V).second) Globals.push_back(V);
    return true;
  }

  ASTContext &Ctx;
  SourceManager &SM;
  OStream &J;
  ASTNameGenerator NG;
  PrintingPolicy PP;

  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string recName(const RecordDecl *R) { return ty(Ctx.getRecordType(R)); }
  std::string fid(const FunctionDecl *F) {
    const FunctionDecl *D = F;
    if (auto *P = F->getDefinition()) D = P;
    std::string M;
    if (isa<CXXConstructorDecl>(D) || isa<CXXDestructorDecl>(D)) {
      auto All = NG.getAllManglings(D);
      M = All.empty() ? NG.getName(D) : All.front();
      for (auto &X : All) if (X < M) M = X;
    } else
      M = NG.getName(D);
    if (M.empty()) M = qn(D);
    if (D->getFormalLinkage() == Linkage::Internal || D->isInAnonymousNamespace())
      M += "@" + file(D->getLocation());
    return M;
  }
  std::string did(const ValueDecl *D) {
    if (auto *F = dyn_cast<FunctionDecl>(D)) return fid(F);
    if (auto *F = dyn_cast<FieldDecl>(D)) {
      return recName(F->getParent()) + "::" + F->getNameAsString();
    }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      V = V->getCanonicalDecl();
      if (V->hasGlobalStorage() && !V->isLocalVarDecl()) return "G:" + qn(V);
      return "L" + std::to_string((uintptr_t)V);
    }
    return "D" + std::to_string((uintptr_t)D->getCanonicalDecl());
  }

  static int64_t apInt(const llvm::APSInt &V) {
    return V.isRepresentableByInt64() ? V.getExtValue() : (int64_t)V.getZExtValue();
  }
  void attr(llvm::StringRef K, llvm::StringRef V) { J.attribute(K, llvm::json::fixUTF8(V)); }

  static const Expr *strip(const Expr *E) {
    while (E) {
      const Expr *N = E;
      if (auto *P = dyn_cast<ParenExpr>(N)) N = P->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(N)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(N)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(N)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(N)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(N)) N = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(N)) N = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(N)) N = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(N)) N = X->getSubExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(N)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay: case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_BuiltinFnToFnPtr: case CK_BitCast: case CK_NullToPointer: case CK_ToVoid:
          N = X->getSubExpr(); break;
        default: break;
        }
      }
      if (N == E) break;
      E = N;
    }
    return E;
  }

  void node(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) S = strip(E);
    if (!S) { J.value(nullptr); return; }
    J.object([&] { body(S); });
  }
  void kid(llvm::StringRef K, const Stmt *S) {
    if (!S) return;
    J.attributeBegin(K); node(S); J.attributeEnd();
  }
  template <class R> void kids(R &&Range) {
    J.attributeArray("c", [&] { for (const Stmt *X : Range) node(X); });
  }
  void varInfo(const VarDecl *V) {
    attr("d", did(V)); attr("n", V->getNameAsString()); attr("t", ty(V->getType()));
    J.attribute("l", line(V->getLocation()));
    if (V->isStaticLocal()) J.attribute("static", true);
    if (V->getType().isConstQualified()) J.attribute("const", true);
    if (auto *CA = Ctx.getAsConstantArrayType(V->getType()))
      J.attribute("asize", (int64_t)CA->getSize().getZExtValue());
    if (const Expr *I = V->getInit()) {
      kid("init", I);
      J.attribute("ist", V->getInitStyle() == VarDecl::CInit ? "c" : "call");
    }
  }
  void callee(const FunctionDecl *F) {
    if (!F) return;
    attr("fid", fid(F)); attr("fn", qn(F)); attr("sn", F->getNameAsString());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      attr("cls", recName(M->getParent()));
      if (M->isConst()) J.attribute("mconst", true);
      if (M->isStatic()) J.attribute("mstatic", true);
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isTrivial()) J.attribute("triv", true);
    }
    if (!inRoot(F->getLocation())) J.attribute("ext", true);
    if (F->isExternC()) J.attribute("xc", true);
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      auto EST = FPT->getExceptionSpecType();
      if (!isUnresolvedExceptionSpec(EST) && FPT->isNothrow()) J.attribute("nx", true);
    }
    if (F->isReservedGlobalPlacementOperator()) J.attribute("nx", true);
    if (F->hasAttr<NoThrowAttr>()) J.attribute("nx", true);
    // by-ref / by-pointer parameter types
    J.attributeArray("pt", [&] { for (auto *P : F->parameters()) J.value(llvm::json::fixUTF8(ty(P->getType()))); });
    attr("rt", ty(F->getReturnType()));
    if (F->isVariadic()) J.attribute("va", true);
  }

  void body(const Stmt *S) {
    J.attribute("l", line(S->getBeginLoc()));
    {
      SourceLocation L = S->getBeginLoc();
      if (L.isMacroID()) J.attribute("mac", Lexer_name(L));
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      attr("t", ty(E->getType()));
      if (E->isLValue()) J.attribute("lv", true);
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() &&
          !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx) && !R.HasSideEffects)
          J.attribute("cv", apInt(R.Val.getInt()));
      }
      expr(E);
      return;
    }
    stmt(S);
  }
  std::string Lexer_name(SourceLocation L) {
    // outermost macro name
    while (true) {
      SourceLocation C = SM.getImmediateMacroCallerLoc(L);
      if (!C.isMacroID()) break;
      L = C;
    }
    if (!L.isMacroID()) return "";
    return Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts()).str();
  }

  void expr(const Expr *E) {
    auto K = [&](const char *X) { J.attribute("k", X); };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { K("int"); J.attribute("v", (int64_t)X->getValue().getZExtValue()); return; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { K("int"); J.attribute("v", (int64_t)X->getValue()); return; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { K("int"); J.attribute("v", (int64_t)X->getValue()); return; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { K("flt"); J.attribute("v", X->getValueAsApproximateDouble()); return; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { K("str"); attr("v", X->getCharByteWidth() == 1 ? X->getString() : ""); return; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { K("null"); return; }
    if (isa<CXXThisExpr>(E)) { K("this"); return; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { K("zero"); return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      K("ref"); auto *D = X->getDecl();
      attr("d", did(D)); attr("n", D->getNameAsString());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        attr("dk", isa<ParmVarDecl>(V) ? "parm" : V->hasGlobalStorage() ? "glob" : "var");
        attr("vt", ty(V->getType()));
        if (V->hasGlobalStorage()) attr("qn", qn(V));
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) { attr("dk", "func"); callee(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        attr("dk", "enum"); attr("qn", qn(EC));
        J.attribute("v", apInt(EC->getInitVal()));
      } else { attr("dk", "other"); if (isa<BindingDecl>(D)) attr("dk2", "binding"); }
      return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { K("ref"); attr("d", did(V)); attr("n", V->getNameAsString()); attr("dk", "glob"); attr("qn", qn(V)); attr("vt", ty(V->getType())); return; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        K("ref"); attr("d", did(D)); attr("n", D->getNameAsString());
        attr("dk", "enum"); attr("qn", qn(EC));
        J.attribute("v", apInt(EC->getInitVal()));
        return;
      }
      K("mem"); attr("d", did(D)); attr("n", D->getNameAsString());
      if (auto *FD = dyn_cast<FieldDecl>(D)) { attr("cls", recName(FD->getParent())); attr("vt", ty(FD->getType())); }
      if (X->isArrow()) J.attribute("arrow", true);
      kids(std::vector<const Stmt *>{X->getBase()});
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      K("mcall");
      auto *MD = X->getMethodDecl();
      callee(MD);
      auto *ME = dyn_cast_or_null<MemberExpr>(strip(X->getCallee()));
      if (ME && ME->isArrow()) J.attribute("arrow", true);
      if (ME && ME->hasQualifier()) J.attribute("qual", true);
      kid("obj", X->getImplicitObjectArgument());
      J.attributeArray("c", [&] { for (auto *A : X->arguments()) node(A); });
      return;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      K("ocall"); J.attribute("op", getOperatorSpelling(X->getOperator()));
      callee(X->getDirectCallee());
      if (X->getDirectCallee() && isa<CXXMethodDecl>(X->getDirectCallee())) J.attribute("memop", true);
      J.attributeArray("c", [&] { for (auto *A : X->arguments()) node(A); });
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      K("call");
      if (auto *F = X->getDirectCallee()) callee(F);
      else kid("fe", X->getCallee());
      J.attributeArray("c", [&] { for (auto *A : X->arguments()) node(A); });
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      K("ctor"); callee(X->getConstructor());
      if (X->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", true);
      if (X->isElidable()) J.attribute("elid", true);
      J.attributeArray("c", [&] { for (auto *A : X->arguments()) node(A); });
      return;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      K("new"); attr("at", ty(X->getAllocatedType()));
      if (X->isArray()) { J.attribute("arr", true); if (X->getArraySize()) kid("size", *X->getArraySize()); }
      bool nt = X->shouldNullCheckAllocation();
      if (nt) J.attribute("nothrow", true);
      if (auto *I = X->getInitializer()) kid("init", I);
      J.attributeArray("c", [&] { for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) node(X->getPlacementArg(i)); });
      return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      K("delete"); if (X->isArrayForm()) J.attribute("arr", true);
      attr("at", ty(X->getDestroyedType()));
      if (!X->getDestroyedType().isNull())
        if (auto *R = X->getDestroyedType()->getAsCXXRecordDecl())
          if (R->hasDefinition()) if (auto *D = R->getDestructor()) attr("dtor", fid(D));
      kids(std::vector<const Stmt *>{X->getArgument()}); return;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { K("asg"); attr("op", X->getOpcodeStr()); kids(std::vector<const Stmt *>{X->getLHS(), X->getRHS()}); return; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      K(X->isAssignmentOp() ? "asg" : "bin"); attr("op", X->getOpcodeStr());
      kids(std::vector<const Stmt *>{X->getLHS(), X->getRHS()}); return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      K("un");
      attr("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
      if (X->isPostfix()) J.attribute("post", true);
      kids(std::vector<const Stmt *>{X->getSubExpr()}); return;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) { K("cond"); kids(std::vector<const Stmt *>{X->getCond(), X->getTrueExpr(), X->getFalseExpr()}); return; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { K("sub"); kids(std::vector<const Stmt *>{X->getBase(), X->getIdx()}); return; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      K("sizeof"); if (X->isArgumentType()) attr("at", ty(X->getArgumentType())); else attr("at", ty(X->getArgumentExpr()->getType())); return;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      K("cast"); J.attribute("ck", X->getCastKindName());
      if (isa<ExplicitCastExpr>(X)) J.attribute("expl", true);
      kids(std::vector<const Stmt *>{X->getSubExpr()}); return;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { K("throw"); if (X->getSubExpr()) { attr("tt", ty(X->getSubExpr()->getType())); kids(std::vector<const Stmt *>{X->getSubExpr()}); } return; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      K("ilist");
      J.attributeArray("c", [&] { for (auto *A : X->inits()) node(A); });
      return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      K("lambda"); attr("fid", fid(X->getCallOperator()));
      attr("cls", recName(X->getLambdaClass()));
      J.attributeArray("caps", [&] {
        for (auto &C : X->captures()) J.object([&] {
          if (C.capturesVariable()) { attr("d", did(C.getCapturedVar())); attr("n", C.getCapturedVar()->getNameAsString()); }
          if (C.capturesThis()) J.attribute("this", true);
          J.attribute("byref", C.getCaptureKind() == LCK_ByRef);
        });
      });
      return;
    }
    K("other"); attr("cl", E->getStmtClassName());
    kids(E->children());
  }

  void clause(const OMPClause *C) {
    J.object([&] {
      attr("k", llvm::omp::getOpenMPClauseName(C->getClauseKind()));
      auto vars = [&](auto *L) {
        J.attributeArray("vars", [&] {
          for (auto *E : L->varlists())
            if (auto *D = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) J.object([&] { attr("d", did(D->getDecl())); attr("n", D->getDecl()->getNameAsString()); });
            else node(E);
        });
      };
      if (auto *L = dyn_cast<OMPPrivateClause>(C)) vars(L);
      else if (auto *L = dyn_cast<OMPFirstprivateClause>(C)) vars(L);
      else if (auto *L = dyn_cast<OMPLastprivateClause>(C)) vars(L);
      else if (auto *L = dyn_cast<OMPSharedClause>(C)) vars(L);
      else if (auto *L = dyn_cast<OMPReductionClause>(C)) { vars(L); attr("op", L->getNameInfo().getAsString()); }
      else if (auto *L = dyn_cast<OMPCopyinClause>(C)) vars(L);
      else if (auto *L = dyn_cast<OMPLinearClause>(C)) vars(L);
      else if (auto *L = dyn_cast<OMPIfClause>(C)) kid("e", L->getCondition());
      else if (auto *L = dyn_cast<OMPNumThreadsClause>(C)) kid("e", L->getNumThreads());
      else if (auto *L = dyn_cast<OMPCollapseClause>(C)) kid("e", L->getNumForLoops());
      else if (auto *L = dyn_cast<OMPScheduleClause>(C)) { attr("sk", getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, unsigned(L->getScheduleKind()))); if (L->getChunkSize()) kid("e", L->getChunkSize()); }
      else if (auto *L = dyn_cast<OMPDefaultClause>(C)) attr("dk", getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_default, unsigned(L->getDefaultKind())));
    });
  }

  void stmt(const Stmt *S) {
    auto K = [&](const char *X) { J.attribute("k", X); };
    if (auto *X = dyn_cast<CompoundStmt>(S)) { K("block"); kids(X->body()); return; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      K("decl");
      J.attributeArray("vars", [&] { for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) J.object([&] { varInfo(V); }); });
      return;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      K("if"); kid("init", X->getInit());
      if (auto *V = X->getConditionVariable()) J.attributeObject("cvar", [&] { varInfo(V); });
      if (X->isConstexpr()) J.attribute("cx", true);
      kid("cond", X->getCond()); kid("then", X->getThen()); kid("else", X->getElse()); return;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) { K("for"); kid("init", X->getInit()); kid("cond", X->getCond()); kid("inc", X->getInc()); kid("body", X->getBody()); return; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { K("while"); if (auto *V = X->getConditionVariable()) J.attributeObject("cvar", [&] { varInfo(V); }); kid("cond", X->getCond()); kid("body", X->getBody()); return; }
    if (auto *X = dyn_cast<DoStmt>(S)) { K("do"); kid("cond", X->getCond()); kid("body", X->getBody()); return; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      K("rfor"); J.attributeObject("var", [&] { varInfo(X->getLoopVariable()); });
      kid("range", X->getRangeInit()); kid("body", X->getBody()); return;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { K("switch"); kid("cond", X->getCond()); kid("body", X->getBody()); if (X->isAllEnumCasesCovered()) J.attribute("allcov", true); return; }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      K("case"); kid("val", X->getLHS());
      Expr::EvalResult R;
      if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, Ctx)) J.attribute("v", apInt(R.Val.getInt()));
      kid("sub", X->getSubStmt()); return;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { K("default"); kid("sub", X->getSubStmt()); return; }
    if (isa<BreakStmt>(S)) { K("break"); return; }
    if (isa<ContinueStmt>(S)) { K("continue"); return; }
    if (isa<NullStmt>(S)) { K("null_s"); return; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { K("return"); if (X->getRetValue()) kids(std::vector<const Stmt *>{X->getRetValue()}); return; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { K("goto"); attr("n", X->getLabel()->getNameAsString()); return; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { K("label"); attr("n", X->getDecl()->getNameAsString()); kid("sub", X->getSubStmt()); return; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) { K("block"); kids(std::vector<const Stmt *>{X->getSubStmt()}); return; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      K("try"); kid("body", X->getTryBlock());
      J.attributeArray("handlers", [&] {
        for (unsigned i = 0; i < X->getNumHandlers(); ++i) J.object([&] {
          auto *H = X->getHandler(i);
          J.attribute("l", line(H->getBeginLoc()));
          if (H->getExceptionDecl()) { attr("t", ty(H->getCaughtType())); J.attributeObject("var", [&] { varInfo(H->getExceptionDecl()); }); }
          else J.attribute("all", true);
          kid("body", H->getHandlerBlock());
        });
      });
      return;
    }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      K("omp"); attr("dk", llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()));
      J.attributeArray("clauses", [&] { for (auto *C : X->clauses()) if (!C->isImplicit()) clause(C); });
      if (auto *CD = dyn_cast<OMPCriticalDirective>(X)) attr("n", CD->getDirectiveName().getAsString());
      if (X->hasAssociatedStmt()) kid("body", X->getRawStmt());
      return;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) { K("block"); kids(std::vector<const Stmt *>{X->getCapturedStmt()}); return; }
    K("sother"); attr("cl", S->getStmtClassName());
    kids(S->children());
  }

  void func(const FunctionDecl *F, bool def) {
    J.object([&] {
      attr("fid", fid(F)); attr("fn", qn(F)); attr("sn", F->getNameAsString());
      attr("f", file(F->getLocation())); J.attribute("l", line(F->getLocation()));
      J.attribute("el", line(F->getEndLoc()));
      attr("rt", ty(F->getReturnType()));
      if (F->isExternC()) J.attribute("xc", true);
      if (F->isImplicit() || F->isDefaulted()) J.attribute("impl", true);
      if (F->isDeleted()) J.attribute("deleted", true);
      if (F->isTemplateInstantiation()) {
        J.attribute("inst", true);
        if (auto *P = F->getTemplateInstantiationPattern()) attr("pat", file(P->getLocation()) + ":" + std::to_string(line(P->getLocation())));
      }
      if (F->getFormalLinkage() == Linkage::Internal) J.attribute("internal", true);
      bool nx = false;
      if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
        auto EST = FPT->getExceptionSpecType();
        if (!isUnresolvedExceptionSpec(EST)) nx = FPT->isNothrow();
        else if (isa<CXXDestructorDecl>(F)) nx = true;
      }
      if (nx) J.attribute("nx", true);
      const char *kind = "func";
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        kind = "method";
        if (isa<CXXConstructorDecl>(F)) kind = "ctor";
        else if (isa<CXXDestructorDecl>(F)) kind = "dtor";
        attr("cls", recName(M->getParent()));
        if (M->getParent()->isLambda()) J.attribute("lambda", true);
        if (M->isConst()) J.attribute("mconst", true);
        if (M->isStatic()) J.attribute("mstatic", true);
        attr("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : M->getAccess() == AS_protected ? "protected" : "none");
        if (M->isCopyAssignmentOperator()) J.attribute("copyasg", true);
        if (M->isMoveAssignmentOperator()) J.attribute("moveasg", true);
      }
      attr("kind", kind);
      if (auto *TA = F->getTemplateSpecializationArgs()) {
        J.attributeArray("targs", [&] {
          for (auto &A : TA->asArray()) {
            if (A.getKind() == TemplateArgument::Type) J.value(ty(A.getAsType()));
            else J.value("?");
          }
        });
      }
      J.attributeArray("params", [&] {
        for (auto *P : F->parameters()) J.object([&] {
          attr("d", did(P)); attr("n", P->getNameAsString()); attr("t", ty(P->getType()));
          if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) J.attribute("def", true);
        });
      });
      if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
        if (C->isCopyConstructor()) J.attribute("copyctor", true);
        if (C->isMoveConstructor()) J.attribute("movector", true);
        if (C->isDefaultConstructor()) J.attribute("defctor", true);
        if (def) J.attributeArray("inits", [&] {
          for (auto *I : C->inits()) J.object([&] {
            if (I->isMemberInitializer()) { attr("field", did(I->getMember())); attr("n", I->getMember()->getNameAsString()); }
            else if (I->isBaseInitializer()) attr("base", ty(QualType(I->getBaseClass(), 0)));
            else J.attribute("deleg", true);
            if (I->isWritten()) J.attribute("written", true);
            kid("e", I->getInit());
          });
        });
      }
      if (def) kid("body", F->getBody());
    });
  }

  void emit(TranslationUnitDecl *TU) {
    TraverseDecl(TU);
    J.object([&] {
      J.attributeArray("funcs", [&] { for (auto *F : Funcs) func(F, true); });
      J.attributeArray("decls", [&] { for (auto *F : Decls) func(F, false); });
      J.attributeArray("records", [&] {
        for (auto *R : Records) J.object([&] {
          attr("n", recName(R)); attr("f", file(where(R))); J.attribute("l", line(where(R)));
          J.attribute("union", R->isUnion());
          J.attributeArray("bases", [&] { for (auto &B : R->bases()) J.value(llvm::json::fixUTF8(ty(B.getType()))); });
          J.attributeArray("fields", [&] { for (auto *FD : R->fields()) J.object([&] {
            attr("d", did(FD)); attr("n", FD->getNameAsString()); attr("t", ty(FD->getType()));
            J.attribute("l", line(FD->getLocation()));
            if (FD->isMutable()) J.attribute("mutable", true);
            if (FD->hasInClassInitializer()) J.attribute("hasinit", true);
            if (auto *CA = Ctx.getAsConstantArrayType(FD->getType())) J.attribute("asize", (int64_t)CA->getSize().getZExtValue());
          }); });
          auto sp = [&](const char *n, bool user, bool implicit_exists) { J.attributeObject(n, [&] { J.attribute("user", user); J.attribute("implicit", implicit_exists); }); };
          sp("dtor", R->hasUserDeclaredDestructor(), !R->hasUserDeclaredDestructor());
          sp("copyctor", R->hasUserDeclaredCopyConstructor(), !R->hasUserDeclaredCopyConstructor() && !R->hasUserDeclaredMoveConstructor() && !R->hasUserDeclaredMoveAssignment());
          sp("copyasg", R->hasUserDeclaredCopyAssignment(), !R->hasUserDeclaredCopyAssignment() && !R->hasUserDeclaredMoveConstructor() && !R->hasUserDeclaredMoveAssignment());
          J.attributeArray("methods", [&] { for (auto *M : R->methods()) J.object([&] {
            attr("fid", fid(M)); attr("n", M->getNameAsString());
            if (M->isDeleted()) J.attribute("deleted", true);
            if (M->isDefaulted()) J.attribute("defaulted", true);
            if (M->isImplicit()) J.attribute("implicit", true);
            attr("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected");
            J.attribute("defined", M->isDefined());
            if (auto *C = dyn_cast<CXXConstructorDecl>(M)) { J.attribute("ctor", true); if (C->isCopyConstructor()) J.attribute("copyctor", true); }
            if (isa<CXXDestructorDecl>(M)) J.attribute("dtor", true);
            if (M->isCopyAssignmentOperator()) J.attribute("copyasg", true);
            if (M->isConst()) J.attribute("const", true);
          }); });
        });
      });
      J.attributeArray("crecords", [&] {
        for (auto *R : CRecords) J.object([&] {
          attr("n", recName(R)); attr("f", file(R->getLocation()));
          J.attributeArray("fields", [&] { for (auto *FD : R->fields()) J.object([&] { attr("n", FD->getNameAsString()); attr("t", ty(FD->getType())); attr("d", did(FD)); }); });
        });
      });
      J.attributeArray("enums", [&] {
        for (auto *E : Enums) J.object([&] {
          attr("n", qn(E)); attr("f", file(E->getLocation()));
          J.attributeArray("vals", [&] { for (auto *C : E->enumerators()) J.object([&] { attr("n", C->getNameAsString()); J.attribute("v", apInt(C->getInitVal())); }); });
        });
      });
      J.attributeArray("globals", [&] { for (auto *V : Globals) J.object([&] { attr("f", file(V->getLocation())); varInfo(V); attr("qn", qn(V)); }); });
    });
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    if (EC) { llvm::errs() << "cannot write " << OutFile << "\n"; exit(3); }
    OStream J(OS);
    Dumper D(C, J);
    D.emit(C.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: cqfacts root src out -- flags\n"; return 2; }
  Root = argv[1];
  std::string Src = argv[2];
  OutFile = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", Flags);
  tooling::ClangTool Tool(DB, {Src});
  Tool.clearArgumentsAdjusters();
  Tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
