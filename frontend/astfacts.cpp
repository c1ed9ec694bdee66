// astfacts: dumps a compact, name-resolved description of every function,
// class, enum and global variable of a translation unit whose definition
// lies under one of the given roots.  No rule lives here; the Python rules in
// /verif/rules work on this output.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using namespace clang::tooling;
namespace cl = llvm::cl;

static cl::OptionCategory Cat("astfacts");
static cl::opt<std::string> OutFile("o", cl::desc("output"), cl::Required, cl::cat(Cat));
static cl::list<std::string> Maps("map", cl::desc("FILE=CONTENTS: lay another text over a file"), cl::cat(Cat));
static cl::list<std::string> Roots("root", cl::desc("root dir"), cl::cat(Cat));

namespace {
class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C;
  SourceManager &SM;
  llvm::json::OStream &J;
  ASTNameGenerator NG;
  PrintingPolicy PP;
  std::map<std::string, int> TypeIdx;
  std::vector<std::string> Types;
  std::map<const Decl *, int> LocalIds;
  std::set<const Decl *> Done;
  std::string Main;

  Dumper(ASTContext &C, llvm::json::OStream &J)
      : C(C), SM(C.getSourceManager()), J(J), NG(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = false;
    if (auto F = SM.getFileEntryRefForID(SM.getMainFileID()))
      Main = relPath(F->getName());
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string relPath(llvm::StringRef P) {
    llvm::SmallString<256> R;
    std::string S = P.str();
    llvm::SmallString<256> Abs(P);
    if (auto FE = SM.getFileManager().getFileRef(P))
      S = FE->getFileEntry().tryGetRealPathName().str();
    if (S.empty()) S = P.str();
    for (auto &Rt : Roots)
      if (llvm::StringRef(S).starts_with(Rt + "/"))
        return S.substr(Rt.size() + 1);
    return "";
  }
  std::map<FileID, std::string> FileCache;
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto It = FileCache.find(F);
    if (It != FileCache.end()) return It->second;
    std::string R;
    if (auto FE = SM.getFileEntryRefForID(F)) R = relPath(FE->getName());
    FileCache[F] = R;
    return R;
  }
  int lineOf(SourceLocation L) {
    return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L);
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto It = TypeIdx.find(S);
    if (It != TypeIdx.end()) return It->second;
    int I = Types.size();
    Types.push_back(S);
    TypeIdx[S] = I;
    return I;
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string idOf(const FunctionDecl *D) {
    const FunctionDecl *F = D->getCanonicalDecl();
    std::string S;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      (void)CD;
      auto V = NG.getAllManglings(F);
      S = V.empty() ? "" : V.back();
      for (auto &M : V) // prefer the complete-object variant
        if (M.find("C1") != std::string::npos) { S = M; break; }
    } else if (isa<CXXDestructorDecl>(F)) {
      auto V = NG.getAllManglings(F);
      for (auto &M : V)
        if (M.find("D1") != std::string::npos) { S = M; break; }
      if (S.empty() && !V.empty()) S = V.back();
    } else
      S = NG.getName(F);
    if (S.empty()) S = qname(F);
    if (!F->isExternallyVisible()) S += "@" + Main;
    return S;
  }

  // ---- helpers for objects
  void loc(SourceLocation L) { J.attribute("l", lineOf(L)); }

  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    int I = LocalIds.size();
    LocalIds[D] = I;
    return I;
  }

  std::string recName(const RecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }

  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      if (auto *P = dyn_cast<UnaryOperator>(E)) if (P->getOpcode() == UO_Extension || P->getOpcode() == UO_Plus) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_LValueToRValue: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
        case CK_NoOp: case CK_UserDefinedConversion: case CK_ConstructorConversion:
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
        case CK_ToVoid: case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic:
          E = P->getSubExpr(); continue;
        default: break;
        }
      }
      break;
    }
    return E;
  }

  void tryConst(const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (!T->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      llvm::APSInt V = R.Val.getInt();
      if (V.isSigned() ? V.isSignedIntN(63) : V.isIntN(62))
        J.attribute("cv", (int64_t)V.getExtValue());
    }
  }

  void attrExpr(llvm::StringRef N, const Expr *E) {
    J.attributeBegin(N);
    expr(E);
    J.attributeEnd();
  }
  template <class R> void args(llvm::StringRef N, R Range) {
    J.attributeArray(N, [&] { for (const Expr *A : Range) expr(A); });
  }

  void declRef(const ValueDecl *D, const Expr *E) {
    J.attribute("k", "ref");
    J.attribute("n", D->getDeclName().isIdentifier() ? D->getName().str() : D->getNameAsString());
    J.attribute("t", type(D->getType()));
    if (auto *PV = dyn_cast<ParmVarDecl>(D)) {
      J.attribute("dk", "param");
      J.attribute("i", localId(PV));
      J.attribute("pi", (int)PV->getFunctionScopeIndex());
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDecl() && !V->isStaticLocal()) {
        J.attribute("dk", "local");
        J.attribute("i", localId(V));
      } else {
        J.attribute("dk", V->isStaticLocal() ? "static" : "global");
        J.attribute("i", localId(V));
        J.attribute("q", qname(V));
      }
    } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      J.attribute("dk", "enum");
      J.attribute("q", qname(D));
      J.attribute("cv", (int64_t)EC->getInitVal().getExtValue());
      return;
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      J.attribute("dk", "func");
      J.attribute("q", qname(F));
      J.attribute("id", idOf(F));
    } else if (isa<FieldDecl>(D)) {
      J.attribute("dk", "field");
      J.attribute("q", qname(D));
    } else {
      J.attribute("dk", "other");
      J.attribute("i", localId(D));
      J.attribute("q", qname(D));
    }
    if (E && isa<VarDecl>(D) && (D->getType().isConstQualified())) tryConst(E);
  }

  void expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) { J.value(nullptr); return; }
    J.objectBegin();
    exprBody(E);
    J.objectEnd();
  }

  // Which parameters can the callee write through (non-const reference or
  // pointer to non-const)?
  void mutMask(const FunctionDecl *F, unsigned Skip = 0) {
    int64_t M = 0, R = 0;
    for (unsigned i = 0; i < F->getNumParams() && i < 60; ++i) {
      QualType T = F->getParamDecl(i)->getType();
      if (T->isLValueReferenceType() && T->getPointeeType()->isPointerType() && !T->getPointeeType().isConstQualified())
        R |= int64_t(1) << i;
      if ((T->isLValueReferenceType() || T->isPointerType()) && !T->getPointeeType().isConstQualified() && !T->getPointeeType()->isFunctionType())
        M |= int64_t(1) << i;
    }
    if (M) J.attribute("ra", M);
    if (R) J.attribute("rr", R);
  }
  void callee(const FunctionDecl *F) {
    mutMask(F);
    J.attribute("f", qname(F));
    J.attribute("id", idOf(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("c", recName(M->getParent()));
      if (M->isConst()) J.attribute("cm", 1);
      if (M->isStatic()) J.attribute("sm", 1);
    }
  }

  void exprBody(const Expr *E) {
    SourceLocation L = E->getExprLoc();
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      const Expr *S = strip(X->getExpr());
      J.attribute("da", 1);
      if (S) exprBody(S); else J.attribute("k", "null");
      return;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
      const Expr *S = strip(X->getExpr());
      if (S) exprBody(S); else J.attribute("k", "null");
      return;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      J.attribute("k", "int");
      llvm::APInt V = X->getValue();
      J.attribute("v", (int64_t)V.getZExtValue());
      return;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      J.attribute("k", "float");
      double D = X->getValueAsApproximateDouble();
      if (D != D || D > 1e300 || D < -1e300) J.attribute("v", "inf");
      else J.attribute("v", D);
      return;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      J.attribute("k", "int"); J.attribute("v", (int64_t)X->getValue()); J.attribute("ch", 1); return;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      J.attribute("k", "int"); J.attribute("v", (int64_t)X->getValue()); J.attribute("b", 1); return;
    }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      J.attribute("k", "str");
      std::string S;
      if (X->getCharByteWidth() == 1) {
        // latin1 -> utf8 so that arbitrary bytes survive
        for (unsigned char c : X->getString()) {
          if (c < 0x80) S += (char)c;
          else { S += (char)(0xC0 | (c >> 6)); S += (char)(0x80 | (c & 0x3F)); }
        }
      }
      J.attribute("v", S);
      return;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { J.attribute("k", "null"); return; }
    if (isa<CXXThisExpr>(E)) { J.attribute("k", "this"); return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) { declRef(X->getDecl(), E); return; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { declRef(V, E); return; }
      if (auto *V = dyn_cast<EnumConstantDecl>(D)) { declRef(V, E); return; }
      J.attribute("k", "mem");
      J.attribute("n", D->getNameAsString());
      J.attribute("t", type(D->getType()));
      if (auto *F = dyn_cast<FieldDecl>(D)) J.attribute("c", recName(F->getParent()));
      if (auto *F = dyn_cast<CXXMethodDecl>(D)) { J.attribute("m", 1); J.attribute("id", idOf(F)); }
      if (X->isArrow()) J.attribute("ar", 1);
      loc(L);
      attrExpr("x", X->getBase());
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *M = X->getMethodDecl();
      if (M) {
        J.attribute("k", "call");
        callee(M);
        const Expr *Cal = X->getCallee()->IgnoreParens();
        bool Qual = false;
        if (auto *ME = dyn_cast<MemberExpr>(Cal)) Qual = ME->hasQualifier();
        if (M->isVirtual() && !Qual) J.attribute("v", 1);
        J.attribute("t", type(E->getType()));
        if (E->isPRValue() && E->getType()->isRecordType()) J.attribute("pv", 1);
        loc(L);
        attrExpr("o", X->getImplicitObjectArgument());
        QualType OT = X->getImplicitObjectArgument()->getType();
        if (OT->isPointerType()) { OT = OT->getPointeeType(); }
        J.attribute("ot", type(OT));
        args("a", X->arguments());
        return;
      }
      J.attribute("k", "icall");
      J.attribute("t", type(E->getType()));
      loc(L);
      attrExpr("x", X->getCallee());
      args("a", X->arguments());
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = X->getDirectCallee();
      if (F) {
        J.attribute("k", "call");
        callee(F);
        J.attribute("t", type(E->getType()));
        if (E->isPRValue() && E->getType()->isRecordType()) J.attribute("pv", 1);
        if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
          J.attribute("op", getOperatorSpelling(OC->getOperator()));
          loc(L);
          if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
            if (M->isVirtual()) J.attribute("v", 1);
            attrExpr("o", X->getArg(0));
            J.attributeArray("a", [&] { for (unsigned i = 1; i < X->getNumArgs(); ++i) expr(X->getArg(i)); });
          } else
            args("a", X->arguments());
          return;
        }
        loc(L);
        args("a", X->arguments());
        return;
      }
      J.attribute("k", "icall");
      J.attribute("t", type(E->getType()));
      loc(L);
      attrExpr("x", X->getCallee());
      args("a", X->arguments());
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J.attribute("k", "ctor");
      J.attribute("c", recName(X->getConstructor()->getParent()));
      J.attribute("id", idOf(X->getConstructor()));
      if (X->getConstructor()->isCopyOrMoveConstructor()) J.attribute("cp", 1);
      else mutMask(X->getConstructor());
      if (isa<CXXTemporaryObjectExpr>(X)) J.attribute("tmp", 1);
      J.attribute("t", type(E->getType()));
      loc(L);
      args("a", X->arguments());
      return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      J.attribute("k", "ctor");
      J.attribute("c", recName(X->getConstructor()->getParent()));
      J.attribute("id", idOf(X->getConstructor()));
      J.attributeArray("a", [] {});
      return;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "new");
      J.attribute("t", type(X->getAllocatedType()));
      loc(L);
      if (X->isArray() && X->getArraySize()) attrExpr("n", *X->getArraySize());
      if (X->getInitializer()) attrExpr("x", X->getInitializer());
      if (X->getNumPlacementArgs()) args("pl", X->placement_arguments());
      return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      J.attribute("k", "delete");
      if (X->isArrayForm()) J.attribute("arr", 1);
      loc(L);
      attrExpr("x", X->getArgument());
      return;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      if (X->getCastKind() == CK_NullToPointer) { J.attribute("k", "null"); return; }
      J.attribute("k", "cast");
      J.attribute("ck", X->getCastKindName());
      J.attribute("t", type(X->getType()));
      J.attribute("ft", type(X->getSubExpr()->getType()));
      if (isa<ImplicitCastExpr>(X)) J.attribute("im", 1);
      if (isa<CXXDynamicCastExpr>(X)) J.attribute("dyn", 1);
      tryConst(E);
      attrExpr("x", X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) J.attribute("k", "asg");
      else J.attribute("k", "bin");
      J.attribute("op", X->getOpcodeStr());
      J.attribute("t", type(X->getType()));
      loc(L);
      if (!X->isAssignmentOp()) tryConst(E);
      attrExpr("a", X->getLHS());
      attrExpr("b", X->getRHS());
      return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un");
      std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) Op = "post" + Op;
      J.attribute("op", Op);
      J.attribute("t", type(X->getType()));
      loc(L);
      tryConst(E);
      attrExpr("x", X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "idx");
      J.attribute("t", type(X->getType()));
      loc(L);
      attrExpr("a", X->getBase());
      attrExpr("b", X->getIdx());
      return;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      J.attribute("k", "?:");
      loc(L);
      attrExpr("c", X->getCond());
      attrExpr("a", X->getTrueExpr());
      attrExpr("b", X->getFalseExpr());
      return;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) { exprBody(strip(X->getSourceExpr())); return; }
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (!X->isSemanticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      J.attribute("k", "init");
      J.attribute("t", type(X->getType()));
      loc(L);
      args("a", X->inits());
      if (X->hasArrayFiller()) J.attribute("fill", 1);
      return;
    }
    if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) {
      J.attribute("k", "init"); J.attribute("t", type(X->getType())); loc(L);
      args("a", X->getInitExprs());
      return;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J.attribute("k", "sizeof");
      J.attribute("of", type(X->getTypeOfArgument()));
      tryConst(E);
      return;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      J.attribute("k", "throw");
      loc(L);
      if (X->getSubExpr()) { J.attribute("tt", type(X->getSubExpr()->getType())); attrExpr("x", X->getSubExpr()); }
      return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J.attribute("k", "lambda");
      loc(L);
      J.attributeArray("p", [&] {
        for (auto *P : X->getCallOperator()->parameters()) param(P);
      });
      J.attributeBegin("body"); stmt(X->getBody()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<VAArgExpr>(E)) {
      J.attribute("k", "vaarg"); J.attribute("t", type(X->getType())); loc(L);
      attrExpr("x", X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<StmtExpr>(E)) {
      J.attribute("k", "stmtexpr");
      J.attributeBegin("body"); stmt(X->getSubStmt()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      J.attribute("k", "str"); J.attribute("v", X->getFunctionName() ? X->getFunctionName()->getString() : ""); J.attribute("pre", 1);
      return;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      J.attribute("k", "zero"); J.attribute("t", type(E->getType())); return;
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      J.attribute("k", "typeid");
      if (X->isTypeOperand()) J.attribute("of", type(X->getTypeOperand(C)));
      else attrExpr("x", X->getExprOperand());
      return;
    }
    if (auto *X = dyn_cast<OffsetOfExpr>(E)) { (void)X; J.attribute("k", "offsetof"); tryConst(E); return; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { J.attribute("k", "arrcopy"); attrExpr("x", X->getCommonExpr()); return; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { J.attribute("k", "pseudodtor"); attrExpr("x", X->getBase()); return; }
    // Fallback: unknown expression with its children.
    J.attribute("k", "other");
    J.attribute("cls", E->getStmtClassName());
    J.attribute("t", type(E->getType()));
    loc(L);
    tryConst(E);
    J.attributeArray("a", [&] {
      for (const Stmt *S : E->children())
        if (auto *X = dyn_cast_or_null<Expr>(S)) expr(X);
    });
  }

  void param(const ParmVarDecl *P) {
    J.object([&] {
      J.attribute("n", P->getNameAsString());
      J.attribute("i", localId(P));
      J.attribute("t", type(P->getType()));
    });
  }

  void varDecl(const VarDecl *V) {
    J.object([&] {
      J.attribute("n", V->getNameAsString());
      J.attribute("i", localId(V));
      J.attribute("t", type(V->getType()));
      loc(V->getLocation());
      if (V->isStaticLocal()) J.attribute("st", 1);
      if (V->getInit()) attrExpr("x", V->getInit());
    });
  }

  void stmtAttr(llvm::StringRef N, const Stmt *S) {
    if (!S) return;
    J.attributeBegin(N); stmt(S); J.attributeEnd();
  }

  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) { stmt(X->getSubStmt()); return; }
    J.objectBegin();
    J.attribute("l", lineOf(S->getBeginLoc()));
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      J.attribute("k", "block");
      J.attributeArray("s", [&] { for (auto *C : X->body()) stmt(C); });
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      J.attribute("k", "if");
      stmtAttr("init", X->getInit());
      stmtAttr("var", X->getConditionVariableDeclStmt());
      attrExpr("c", X->getCond());
      stmtAttr("t", X->getThen());
      stmtAttr("e", X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      J.attribute("k", "for");
      stmtAttr("i", X->getInit());
      stmtAttr("var", X->getConditionVariableDeclStmt());
      if (X->getCond()) attrExpr("c", X->getCond());
      if (X->getInc()) attrExpr("n", X->getInc());
      stmtAttr("b", X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      J.attribute("k", "while");
      stmtAttr("var", X->getConditionVariableDeclStmt());
      attrExpr("c", X->getCond());
      stmtAttr("b", X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      J.attribute("k", "do");
      stmtAttr("b", X->getBody());
      attrExpr("c", X->getCond());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      J.attribute("k", "rfor");
      J.attributeBegin("v"); varDecl(X->getLoopVariable()); J.attributeEnd();
      attrExpr("r", X->getRangeInit());
      stmtAttr("b", X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      J.attribute("k", "switch");
      stmtAttr("var", X->getConditionVariableDeclStmt());
      attrExpr("c", X->getCond());
      if (X->isAllEnumCasesCovered()) J.attribute("all", 1);
      stmtAttr("b", X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      J.attribute("k", "case");
      attrExpr("v", X->getLHS());
      if (X->getRHS()) attrExpr("hi", X->getRHS());
      stmtAttr("s", X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      J.attribute("k", "default");
      stmtAttr("s", X->getSubStmt());
    } else if (isa<BreakStmt>(S)) {
      J.attribute("k", "break");
    } else if (isa<ContinueStmt>(S)) {
      J.attribute("k", "continue");
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      J.attribute("k", "ret");
      if (X->getRetValue()) attrExpr("x", X->getRetValue());
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      J.attribute("k", "decl");
      J.attributeArray("d", [&] {
        for (auto *D : X->decls())
          if (auto *V = dyn_cast<VarDecl>(D)) varDecl(V);
      });
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      J.attribute("k", "try");
      stmtAttr("b", X->getTryBlock());
      J.attributeArray("h", [&] {
        for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
          auto *H = X->getHandler(i);
          J.object([&] {
            J.attribute("l", lineOf(H->getBeginLoc()));
            if (H->getExceptionDecl()) {
              J.attribute("t", type(H->getCaughtType()));
              J.attributeBegin("v"); varDecl(H->getExceptionDecl()); J.attributeEnd();
            }
            stmtAttr("b", H->getHandlerBlock());
          });
        }
      });
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      J.attribute("k", "label");
      J.attribute("n", X->getName());
      stmtAttr("s", X->getSubStmt());
    } else if (auto *X = dyn_cast<GotoStmt>(S)) {
      J.attribute("k", "goto");
      J.attribute("n", X->getLabel()->getName());
    } else if (isa<NullStmt>(S)) {
      J.attribute("k", "nop");
    } else {
      J.attribute("k", "unkstmt");
      J.attribute("cls", S->getStmtClassName());
    }
    J.objectEnd();
  }

  // ---- declarations
  std::vector<const FunctionDecl *> Funcs;
  std::vector<const CXXRecordDecl *> Recs;
  std::vector<const EnumDecl *> Enums;
  std::vector<const VarDecl *> Globals;

  bool VisitFunctionDecl(FunctionDecl *D) {
    if (!D->doesThisDeclarationHaveABody()) return true;
    if (D->isDependentContext() || D->isDefaulted()) return true;
    if (D->isImplicit()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) return true;
    if (fileOf(D->getLocation()).empty()) return true;
    if (Done.insert(D).second) Funcs.push_back(D);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext() || D->isLambda()) return true;
    if (fileOf(D->getLocation()).empty()) return true;
    if (Done.insert(D).second) Recs.push_back(D);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext()) return true;
    if (fileOf(D->getLocation()).empty()) return true;
    if (Done.insert(D).second) Enums.push_back(D);
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (isa<ParmVarDecl>(D) || D->isLocalVarDecl() || D->getDeclContext()->isDependentContext()) return true;
    if (isa<VarTemplatePartialSpecializationDecl>(D)) return true;
    if (!D->hasGlobalStorage() || D->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    if (fileOf(D->getLocation()).empty()) return true;
    if (D->getType()->isDependentType() || (D->getInit() && D->getInit()->isValueDependent())) return true;
    if (Done.insert(D).second) Globals.push_back(D);
    return true;
  }

  void dumpFunc(const FunctionDecl *D) {
    LocalIds.clear();
    J.object([&] {
      J.attribute("f", qname(D));
      J.attribute("n", D->getNameAsString());
      J.attribute("id", idOf(D));
      J.attribute("file", fileOf(D->getLocation()));
      J.attribute("line", lineOf(D->getLocation()));
      J.attribute("end", lineOf(D->getEndLoc()));
      J.attribute("ret", type(D->getReturnType()));
      if (!D->isExternallyVisible()) J.attribute("internal", 1);
      if (D->isExternC()) J.attribute("externC", 1);
      if (D->isVariadic()) J.attribute("variadic", 1);
      if (!D->isExternallyVisible()) J.attribute("intern", 1);
      if (auto *FPT = D->getType()->getAs<FunctionProtoType>())
        if (FPT->isNothrow()) J.attribute("nothrow", 1);
      if (D->isTemplateInstantiation()) J.attribute("tmpl", 1);
      if (auto *TA = D->getTemplateSpecializationArgs()) {
        J.attributeArray("targs", [&] {
          for (auto &A : TA->asArray()) {
            std::string S; llvm::raw_string_ostream OS(S); A.print(PP, OS, true);
            J.value(OS.str());
          }
        });
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        J.attribute("c", recName(M->getParent()));
        if (M->isVirtual()) J.attribute("virt", 1);
        if (M->isStatic()) J.attribute("static", 1);
        if (M->isConst()) J.attribute("const", 1);
        J.attributeArray("over", [&] { for (auto *O : M->overridden_methods()) J.value(idOf(O)); });
        J.attribute("kind", isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : "method");
        if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) if (CD->isCopyConstructor()) J.attribute("copyctor", 1);
        if (M->isCopyAssignmentOperator()) J.attribute("copyassign", 1);
      } else
        J.attribute("kind", "func");
      J.attributeArray("p", [&] { for (auto *P : D->parameters()) param(P); });
      if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) {
        J.attributeArray("inits", [&] {
          for (auto *I : CD->inits()) {
            J.object([&] {
              if (I->isAnyMemberInitializer()) J.attribute("m", I->getAnyMember()->getNameAsString());
              else if (I->isBaseInitializer()) J.attribute("base", QualType(I->getBaseClass(), 0).getCanonicalType().getAsString(PP));
              else J.attribute("deleg", 1);
              if (I->isWritten()) J.attribute("w", 1);
              loc(I->getSourceLocation());
              attrExpr("x", I->getInit());
            });
          }
        });
      }
      J.attributeBegin("body"); stmt(D->getBody()); J.attributeEnd();
    });
  }
  void dumpRec(const CXXRecordDecl *D) {
    J.object([&] {
      J.attribute("c", recName(D));
      J.attribute("q", qname(D));
      J.attribute("file", fileOf(D->getLocation()));
      J.attribute("line", lineOf(D->getLocation()));
      if (D->isAbstract()) J.attribute("abs", 1);
      if (D->isPolymorphic()) J.attribute("poly", 1);
      J.attributeArray("bases", [&] {
        for (auto &B : D->bases()) J.value(B.getType().getCanonicalType().getAsString(PP));
      });
      J.attributeArray("fields", [&] {
        for (auto *F : D->fields()) J.object([&] {
          J.attribute("n", F->getNameAsString());
          J.attribute("t", type(F->getType()));
          J.attribute("l", lineOf(F->getLocation()));
          if (F->isMutable()) J.attribute("mut", 1);
          J.attribute("acc", (int)F->getAccess());
          if (F->hasInClassInitializer()) J.attribute("ini", 1);
        });
      });
      J.attributeArray("methods", [&] {
        for (auto *M : D->methods()) {
          if (M->isImplicit() && !isa<CXXConstructorDecl>(M) && !M->isCopyAssignmentOperator()) continue;
          J.object([&] {
            J.attribute("n", M->getNameAsString());
            J.attribute("id", idOf(M));
            J.attribute("acc", (int)M->getAccess());
            J.attribute("t", type(M->getType()));
            if (M->isVirtual()) J.attribute("virt", 1);
            if (M->isPureVirtual()) J.attribute("pure", 1);
            if (M->isStatic()) J.attribute("static", 1);
            if (M->isConst()) J.attribute("const", 1);
            if (M->isDeleted()) J.attribute("del", 1);
            if (M->isDefaulted()) J.attribute("dflt", 1);
            if (M->isImplicit()) J.attribute("impl", 1);
            if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { J.attribute("ctor", 1); if (CD->isCopyConstructor()) J.attribute("copyctor", 1); }
            if (isa<CXXDestructorDecl>(M)) J.attribute("dtor", 1);
            if (M->isCopyAssignmentOperator()) J.attribute("copyassign", 1);
            J.attributeArray("over", [&] { for (auto *O : M->overridden_methods()) J.value(idOf(O)); });
            J.attributeArray("p", [&] { for (auto *P : M->parameters()) J.object([&] { J.attribute("n", P->getNameAsString()); J.attribute("t", type(P->getType())); }); });
          });
        }
      });
    });
  }
  void run() {
    J.objectBegin();
    J.attribute("main", Main);
    J.attributeArray("funcs", [&] { for (auto *D : Funcs) dumpFunc(D); });
    J.attributeArray("classes", [&] { for (auto *D : Recs) dumpRec(D); });
    J.attributeArray("enums", [&] {
      for (auto *D : Enums) J.object([&] {
        J.attribute("e", qname(D));
        J.attribute("file", fileOf(D->getLocation()));
        J.attribute("line", lineOf(D->getLocation()));
        J.attributeArray("c", [&] {
          for (auto *K : D->enumerators()) J.array([&] { J.value(qname(K)); J.value((int64_t)K->getInitVal().getExtValue()); });
        });
      });
    });
    J.attributeArray("globals", [&] {
      LocalIds.clear();
      for (auto *D : Globals) J.object([&] {
        J.attribute("g", qname(D));
        J.attribute("file", fileOf(D->getLocation()));
        J.attribute("line", lineOf(D->getLocation()));
        J.attribute("t", type(D->getType()));
        if (!D->isExternallyVisible()) J.attribute("internal", 1);
        if (D->getInit()) attrExpr("x", D->getInit());
      });
    });
    J.attributeArray("types", [&] { for (auto &T : Types) J.value(llvm::json::isUTF8(T) ? T : llvm::json::fixUTF8(T)); });
    J.objectEnd();
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    if (EC) { llvm::errs() << "cannot open " << OutFile << "\n"; exit(3); }
    llvm::json::OStream J(OS);
    Dumper D(C, J);
    D.TraverseDecl(C.getTranslationUnitDecl());
    D.run();
    OS.flush();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
} // namespace

int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << toString(P.takeError()); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  std::vector<std::unique_ptr<llvm::MemoryBuffer>> Over;
  for (auto &M : Maps) {
    auto KV = llvm::StringRef(M).split('=');
    auto B = llvm::MemoryBuffer::getFile(KV.second);
    if (!B) return 3;
    Over.push_back(std::move(*B));
    T.mapVirtualFile(KV.first, Over.back()->getBuffer());
  }
  return T.run(newFrontendActionFactory<Action>().get());
}
