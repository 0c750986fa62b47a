// Fact extractor: parses one translation unit with clang and prints, as JSON,
// the functions (syntax tree with resolved names, and control-flow graph) and
// the classes whose definitions lie under one of the given path prefixes.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Prefixes;

namespace {

class Emitter {
 public:
  Emitter(ASTContext &C, llvm::raw_ostream &OS)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()), OS(OS) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
  }

  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  llvm::raw_ostream &OS;
  std::map<std::string, int> TypeIdx;
  json::Array Types, Functions, Classes, Globals;
  std::set<std::string> SeenFn, SeenCls, SeenGlob;
  std::set<std::string> Files;

  std::string usr(const Decl *D) {
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B.str());
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (FE) {
      StringRef R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty()) return R.str();
    }
    return P.getFilename();
  }
  unsigned lineOf(SourceLocation L) {
    return SM.getExpansionLineNumber(L);
  }
  bool wanted(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    for (auto &P : Prefixes)
      if (F.compare(0, P.size(), P) == 0) return true;
    return false;
  }
  std::string macroOf(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // Outermost macro.
    std::string N;
    while (L.isMacroID()) {
      if (SM.isMacroArgExpansion(L)) {
        L = SM.getImmediateExpansionRange(L).getBegin();
        continue;
      }
      N = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts()).str();
      L = SM.getImmediateExpansionRange(L).getBegin();
    }
    return N;
  }

  static std::string clip(std::string S, size_t n = 240) {
    if (S.size() > n) S.resize(n);
    return S;
  }
  std::string recName(const CXXRecordDecl *R) {
    std::string S;
    llvm::raw_string_ostream O(S);
    R->getNameForDiagnostic(O, PP, true);
    O.flush();
    return clip(S, 400);
  }
  std::string patName(const CXXRecordDecl *R) {
    // qualified name without template arguments
    std::string S = R->getNameAsString();
    for (const DeclContext *D = R->getDeclContext(); D; D = D->getParent()) {
      if (auto *N = dyn_cast<NamespaceDecl>(D)) {
        if (N->isInline() ) continue;
        S = (N->isAnonymousNamespace() ? std::string("(anon)") : N->getNameAsString()) + "::" + S;
      } else if (auto *P = dyn_cast<RecordDecl>(D)) {
        S = P->getNameAsString() + "::" + S;
      }
    }
    return S;
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string S = clip(T.getAsString(PP), 300);
    QualType CT = T.getCanonicalType();
    bool Const = CT.isConstQualified();
    std::string K = "v";
    if (CT->isReferenceType()) {
      K = CT->isRValueReferenceType() ? "rr" : "r";
      CT = CT->getPointeeType();
      Const = CT.isConstQualified();
    }
    int PtrDepth = 0;
    while (CT->isPointerType()) {
      CT = CT->getPointeeType();
      PtrDepth++;
      Const = CT.isConstQualified();
    }
    std::string Key = S + "|" + K + (Const ? "c" : "") + std::to_string(PtrDepth);
    std::string Rec, RecPat, B;
    if (auto *RD = CT->getAsCXXRecordDecl()) {
      Rec = recName(RD);
      RecPat = patName(RD);
      B = "rec";
    } else if (CT->isBooleanType()) B = "bool";
    else if (CT->isEnumeralType()) B = "enum";
    else if (CT->isIntegerType()) B = CT->isUnsignedIntegerType() ? "uint" : "int";
    else if (CT->isFloatingType()) B = "float";
    else if (CT->isVoidType()) B = "void";
    else if (CT->isFunctionType() || CT->isMemberPointerType()) B = "fn";
    else if (CT->isArrayType()) B = "arr";
    else B = "oth";
    Key += "|" + Rec;
    auto It = TypeIdx.find(Key);
    if (It != TypeIdx.end()) return It->second;
    json::Object O;
    O["s"] = S;
    O["k"] = K;
    if (PtrDepth) O["p"] = PtrDepth;
    if (Const) O["c"] = true;
    O["b"] = B;
    if (!Rec.empty()) {
      O["r"] = Rec;
      O["rp"] = RecPat;
    }
    if (B == "int" || B == "uint" || B == "float" || B == "enum" || B == "bool")
      O["w"] = (int64_t)Ctx.getTypeSize(CT);
    if (auto *CA = dyn_cast<ConstantArrayType>(CT.getTypePtr())) {
      O["n"] = (int64_t)CA->getSize().getLimitedValue();
    }
    int Idx = Types.size();
    Types.push_back(std::move(O));
    TypeIdx[Key] = Idx;
    return Idx;
  }

  // ---- per function state
  std::map<const Stmt *, int> StmtId;
  std::map<const Decl *, int> DeclId;
  json::Array Nodes;

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = DeclId.find(D);
    if (It != DeclId.end()) return It->second;
    int N = DeclId.size() + 1;
    DeclId[D] = N;
    return N;
  }
  int add(json::Object O) {
    Nodes.push_back(std::move(O));
    return Nodes.size() - 1;
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream O(S);
    D->printQualifiedName(O, PP);
    O.flush();
    return clip(S, 400);
  }
  std::string pname(const NamedDecl *D) {  // name without template args
    if (auto *M = dyn_cast<FunctionDecl>(D)) {
      if (auto *R = dyn_cast_or_null<CXXRecordDecl>(M->getDeclContext()))
        return patName(R) + "::" + D->getNameAsString();
    }
    if (auto *F = dyn_cast<FieldDecl>(D))
      if (auto *R = dyn_cast_or_null<CXXRecordDecl>(F->getDeclContext()))
        return patName(R) + "::" + D->getNameAsString();
    return qname(D);
  }
  static bool skip(const Stmt *S) {
    return isa<ImplicitCastExpr>(S) || isa<ParenExpr>(S) || isa<ExprWithCleanups>(S) ||
           isa<MaterializeTemporaryExpr>(S) || isa<CXXBindTemporaryExpr>(S) ||
           isa<ConstantExpr>(S) || isa<SubstNonTypeTemplateParmExpr>(S) ||
           isa<AttributedStmt>(S);
  }

  void fnInfo(json::Object &O, const FunctionDecl *F) {
    O["q"] = pname(F);
    O["fq"] = qname(F);
    O["n"] = F->getNameAsString();
    O["u"] = usr(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["m"] = true;
      O["cls"] = patName(M->getParent());
      O["fcls"] = recName(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
    }
    if (wanted(F->getLocation())) O["in"] = true;
    // how each parameter is passed
    std::string P;
    for (auto *A : F->parameters()) {
      QualType T = A->getType().getCanonicalType();
      char c = 'v';
      if (T->isReferenceType()) c = T->getPointeeType().isConstQualified() ? 'c' : 'r';
      else if (T->isPointerType()) c = T->getPointeeType().isConstQualified() ? 'q' : 'p';
      P += c;
    }
    O["pm"] = P;
  }

  int visitAll(const Stmt *S) { return S ? visit(S) : -1; }

  int varDecl(const VarDecl *V) {
    json::Object O;
    O["k"] = "var";
    O["d"] = declId(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    json::Array C;
    if (V->hasInit()) C.push_back(visit(V->getInit()));
    O["c"] = std::move(C);
    return add(std::move(O));
  }

  int visit(const Stmt *S) {
    if (!S) return -1;
    auto It = StmtId.find(S);
    if (It != StmtId.end()) return It->second;
    int R = visit1(S);
    StmtId[S] = R;
    return R;
  }

  int visit1(const Stmt *S) {
    if (skip(S)) {
      // implicit user conversions keep their call node below
      for (const Stmt *C : S->children())
        if (C) return visit(C);
    }
    json::Object O;
    O["l"] = lineOf(S->getBeginLoc());
    {
      std::string M = macroOf(S->getBeginLoc());
      if (!M.empty()) O["mac"] = M;
    }
    if (auto *E = dyn_cast<Expr>(S)) O["t"] = type(E->getType());
    json::Array C;
    auto kids = [&]() {
      for (const Stmt *K : S->children()) C.push_back(K ? visit(K) : -1);
    };
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
      O["k"] = "defarg";
      C.push_back(visit(E->getExpr()));
    } else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) {
      O["k"] = "definit";
      if (E->getExpr()) C.push_back(visit(E->getExpr()));
    } else if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = E->getDecl();
      O["k"] = "ref";
      O["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "fn";
        fnInfo(O, F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum";
        O["q"] = qname(D);
        O["v"] = (int64_t)EC->getInitVal().extOrTrunc(64).getRawData()[0];
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["d"] = declId(V);
        if (isa<ParmVarDecl>(V)) O["dk"] = "param";
        else if (V->isLocalVarDecl() && !V->isStaticLocal()) O["dk"] = "local";
        else {
          O["dk"] = "global";
          O["q"] = pname(V);
          if (V->isStaticLocal()) O["dk"] = "slocal";
          // value of a static constant
          if (const Expr *I = V->getAnyInitializer())
            if (!I->isValueDependent() && V->getType().isConstQualified() &&
                V->getType()->isIntegralOrEnumerationType()) {
              Expr::EvalResult R;
              if (I->EvaluateAsInt(R, Ctx)) O["v"] = (int64_t)R.Val.getInt().extOrTrunc(64).getRawData()[0];
            }
        }
      } else if (isa<FieldDecl>(D)) {
        O["dk"] = "field";
        O["q"] = pname(D);
      } else {
        O["dk"] = "oth";
        O["d"] = declId(D);
        O["q"] = qname(D);
      }
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      const ValueDecl *D = E->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {  // static member
        O["k"] = "ref";
        O["dk"] = "global";
        O["n"] = D->getNameAsString();
        O["q"] = qname(D);
        O["d"] = declId(V);
      } else {
        O["k"] = "mem";
        O["n"] = D->getNameAsString();
        O["f"] = pname(D);
        if (isa<FunctionDecl>(D)) O["fn"] = true;
        if (auto *FD = dyn_cast<FieldDecl>(D))
          if (FD->isMutable()) O["mut"] = true;
        if (E->isArrow()) O["arrow"] = true;
        C.push_back(visit(E->getBase()));
      }
    } else if (isa<CXXThisExpr>(S)) {
      O["k"] = "this";
    } else if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      O["k"] = "call";
      if (const CXXMethodDecl *M = E->getMethodDecl()) {
        fnInfo(O, M);
        bool qualified = false;
        if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens()))
          qualified = ME->hasQualifier();
        if (M->isVirtual() && !qualified) O["dyn"] = true;
      } else {
        O["q"] = "?";
        O["ind"] = true;
      }
      if (const Expr *Ob = E->getImplicitObjectArgument()) {
        O["obj"] = true;
        C.push_back(visit(Ob));
      }
      if (!E->getMethodDecl()) {
        // call through pointer to member: keep callee
        O["cal"] = visit(E->getCallee());
      }
      for (const Expr *A : E->arguments()) C.push_back(visit(A));
    } else if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      O["k"] = "call";
      O["op"] = getOperatorSpelling(E->getOperator());
      if (const FunctionDecl *F = E->getDirectCallee()) {
        fnInfo(O, F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
          if (!M->isStatic()) O["obj"] = true;
          if (M->isVirtual()) O["dyn"] = true;
        }
      } else O["q"] = "?";
      for (const Expr *A : E->arguments()) C.push_back(visit(A));
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      O["k"] = "call";
      if (const FunctionDecl *F = E->getDirectCallee()) fnInfo(O, F);
      else {
        O["q"] = "?";
        O["ind"] = true;
        O["cal"] = visit(E->getCallee());
      }
      for (const Expr *A : E->arguments()) C.push_back(visit(A));
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "ctor";
      fnInfo(O, E->getConstructor());
      if (E->getConstructor()->isCopyOrMoveConstructor()) O["copy"] = true;
      if (isa<CXXTemporaryObjectExpr>(S)) O["temp"] = true;
      for (const Expr *A : E->arguments()) C.push_back(visit(A));
    } else if (auto *E = dyn_cast<CompoundAssignOperator>(S)) {
      O["k"] = "assign";
      O["op"] = E->getOpcodeStr().str();
      kids();
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      O["k"] = E->getOpcode() == BO_Assign ? "assign" : "bin";
      O["op"] = E->getOpcodeStr().str();
      kids();
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) O["post"] = true;
      kids();
    } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      O["k"] = "lit";
      O["v"] = (int64_t)E->getValue().getLimitedValue();
    } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      O["k"] = "lit";
      O["v"] = E->getValueAsApproximateDouble();
      O["fl"] = true;
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["k"] = "lit";
      O["v"] = E->getValue();
    } else if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      O["k"] = "lit";
      O["v"] = (int64_t)E->getValue();
    } else if (auto *E = dyn_cast<StringLiteral>(S)) {
      O["k"] = "lit";
      O["str"] = true;
      O["v"] = E->isOrdinary() ? json::fixUTF8(E->getString()) : "";
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      O["k"] = "lit";
      O["v"] = nullptr;
    } else if (auto *E = dyn_cast<ExplicitCastExpr>(S)) {
      O["k"] = "cast";
      kids();
      (void)E;
    } else if (isa<AbstractConditionalOperator>(S)) {
      O["k"] = "cond";
      auto *E2 = cast<AbstractConditionalOperator>(S);
      C.push_back(visit(E2->getCond()));
      C.push_back(visit(E2->getTrueExpr()));
      C.push_back(visit(E2->getFalseExpr()));
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      O["k"] = "new";
      O["nt"] = type(E->getAllocatedType());
      if (E->isArray()) O["array"] = true;
      kids();
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      O["k"] = "delete";
      if (E->isArrayForm()) O["array"] = true;
      kids();
    } else if (isa<CXXThrowExpr>(S)) {
      O["k"] = "throw";
      kids();
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      O["k"] = "lambda";
      O["u"] = usr(E->getCallOperator());
      json::Array Caps;
      for (auto &Cp : E->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) CO["this"] = true;
        else if (Cp.capturesVariable()) {
          CO["d"] = declId(Cp.getCapturedVar());
          CO["n"] = Cp.getCapturedVar()->getNameAsString();
          CO["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      // the body is part of this function's node table (not of its CFG)
      C.push_back(visit(E->getBody()));
    } else if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) {
      O["k"] = "idx";
      C.push_back(visit(E->getBase()));
      C.push_back(visit(E->getIdx()));
    } else if (auto *E = dyn_cast<InitListExpr>(S)) {
      O["k"] = "initlist";
      kids();
      (void)E;
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      O["k"] = "sizeof";
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) O["v"] = (int64_t)R.Val.getInt().extOrTrunc(64).getRawData()[0];
      O["at"] = type(E->getTypeOfArgument());
    } else if (auto *E = dyn_cast<CXXScalarValueInitExpr>(S)) {
      O["k"] = "lit";
      O["v"] = 0;
      (void)E;
    } else if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S)) {
      O["k"] = "initlist";
      kids();
      (void)E;
    } else if (auto *E = dyn_cast<CXXTypeidExpr>(S)) {
      O["k"] = "typeid";
      if (!E->isTypeOperand()) kids();
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X)) C.push_back(varDecl(V));
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      int init = I->getInit() ? visit(I->getInit()) : -1;
      int cv = I->getConditionVariableDeclStmt() ? visit(I->getConditionVariableDeclStmt()) : -1;
      if (init >= 0) O["init"] = init;
      if (cv >= 0) O["cv"] = cv;
      C.push_back(visit(I->getCond()));
      C.push_back(visit(I->getThen()));
      C.push_back(I->getElse() ? visit(I->getElse()) : -1);
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      C.push_back(F->getInit() ? visit(F->getInit()) : -1);
      C.push_back(F->getCond() ? visit(F->getCond()) : -1);
      C.push_back(F->getInc() ? visit(F->getInc()) : -1);
      C.push_back(F->getBody() ? visit(F->getBody()) : -1);
    } else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "range";
      C.push_back(varDecl(F->getLoopVariable()));
      C.push_back(visit(F->getRangeInit()));
      C.push_back(visit(F->getBody()));
      // implicit pieces, so that CFG elements can name them
      if (F->getRangeStmt()) O["rs"] = visit(F->getRangeStmt());
      if (F->getBeginStmt()) O["bs"] = visit(F->getBeginStmt());
      if (F->getEndStmt()) O["es"] = visit(F->getEndStmt());
      if (F->getCond()) O["cond"] = visit(F->getCond());
      if (F->getInc()) O["inc"] = visit(F->getInc());
      if (F->getLoopVarStmt()) O["lv"] = visit(F->getLoopVarStmt());
    } else if (auto *W = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      C.push_back(visit(W->getCond()));
      C.push_back(visit(W->getBody()));
      if (W->getConditionVariableDeclStmt()) O["cv"] = visit(W->getConditionVariableDeclStmt());
    } else if (auto *W = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      C.push_back(visit(W->getBody()));
      C.push_back(visit(W->getCond()));
    } else if (auto *W = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      C.push_back(visit(W->getCond()));
      C.push_back(visit(W->getBody()));
    } else if (auto *W = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      Expr::EvalResult R;
      if (!W->getLHS()->isValueDependent() && W->getLHS()->EvaluateAsInt(R, Ctx))
        O["v"] = (int64_t)R.Val.getInt().extOrTrunc(64).getRawData()[0];
      C.push_back(visit(W->getLHS()));
      C.push_back(visit(W->getSubStmt()));
    } else if (auto *W = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      C.push_back(visit(W->getSubStmt()));
    } else if (isa<BreakStmt>(S)) {
      O["k"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      O["k"] = "continue";
    } else if (auto *R = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "return";
      if (R->getRetValue()) C.push_back(visit(R->getRetValue()));
    } else if (isa<CompoundStmt>(S)) {
      O["k"] = "block";
      kids();
    } else if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      C.push_back(visit(T->getTryBlock()));
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) C.push_back(visit(T->getHandler(i)));
    } else if (auto *T = dyn_cast<CXXCatchStmt>(S)) {
      O["k"] = "catch";
      if (T->getExceptionDecl()) {
        O["d"] = declId(T->getExceptionDecl());
        O["ct"] = type(T->getExceptionDecl()->getType());
      }
      C.push_back(visit(T->getHandlerBlock()));
    } else if (isa<NullStmt>(S)) {
      O["k"] = "null";
    } else {
      O["k"] = S->getStmtClassName();
      kids();
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      // integer constants the compiler can fold (template constants, enums)
      if (!O.get("v") && E->isPRValue() && !E->isValueDependent() && !E->isTypeDependent() &&
          E->getType()->isIntegralOrEnumerationType() && !isa<CallExpr>(E)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx)) O["cv"] = (int64_t)R.Val.getInt().extOrTrunc(64).getRawData()[0];
      }
    }
    O["c"] = std::move(C);
    return add(std::move(O));
  }

  void function(const FunctionDecl *F) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody()) return;
    if (F->isDefaulted() || F->isDeleted()) return;
    SourceLocation L = F->getLocation();
    if (const FunctionDecl *P = F->getTemplateInstantiationPattern()) L = P->getLocation();
    if (!wanted(L)) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        // emitted too, as an own function (captures appear as outer decls)
      }
    std::string U = usr(F);
    if (!SeenFn.insert(U.empty() ? qname(F) + std::to_string(lineOf(L)) : U).second) return;
    StmtId.clear();
    DeclId.clear();
    Nodes = json::Array();
    json::Object O;
    fnInfo(O, F);
    O["file"] = fileOf(L);
    O["line"] = lineOf(L);
    O["end"] = lineOf(F->getBodyRBrace());
    O["ret"] = type(F->getReturnType());
    O["kind"] = isa<CXXConstructorDecl>(F) ? "ctor"
                : isa<CXXDestructorDecl>(F) ? "dtor"
                : isa<CXXConversionDecl>(F) ? "conv"
                : isa<CXXMethodDecl>(F)     ? "method" : "fn";
    if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(usr(B));
      if (!Ov.empty()) O["over"] = std::move(Ov);
      O["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->getParent()->isLambda()) O["lambda"] = true;
    }
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (!F->isExternallyVisible()) O["internal"] = true;
    json::Array Ps;
    for (auto *P : F->parameters()) {
      json::Object PO;
      PO["n"] = P->getNameAsString();
      PO["d"] = declId(P);
      PO["t"] = type(P->getType());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    json::Array Inits;
    std::map<const CXXCtorInitializer *, int> InitIdx;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      if (CD->isCopyConstructor()) O["copyctor"] = true;
      if (CD->isMoveConstructor()) O["movector"] = true;
      for (auto *I : CD->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer()) {
          IO["f"] = pname(I->getAnyMember());
          IO["n"] = I->getAnyMember()->getNameAsString();
        } else if (I->isBaseInitializer()) {
          if (auto *R = I->getBaseClass()->getAsCXXRecordDecl()) IO["base"] = patName(R);
        } else IO["deleg"] = true;
        if (I->isWritten()) IO["w"] = true;
        IO["e"] = visit(I->getInit());
        InitIdx[I] = Inits.size();
        Inits.push_back(std::move(IO));
      }
      O["inits"] = std::move(Inits);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) O["moveassign"] = true;
    }
    O["body"] = visit(F->getBody());
    // CFG
    CFG::BuildOptions BO;
    BO.PruneTriviallyFalseEdges = false;
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddEHEdges = true;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &Ctx, BO);
    if (G) {
      json::Object GO;
      GO["entry"] = G->getEntry().getBlockID();
      GO["exit"] = G->getExit().getBlockID();
      json::Array Bs;
      for (const CFGBlock *B : *G) {
        json::Object BOb;
        BOb["id"] = B->getBlockID();
        json::Array El;
        int last = -2;
        for (const CFGElement &E : *B) {
          if (auto St = E.getAs<CFGStmt>()) {
            int id = visit(St->getStmt());
            if (id != last) El.push_back(id);
            last = id;
          } else if (auto In = E.getAs<CFGInitializer>()) {
            json::Object EO;
            EO["init"] = InitIdx.count(In->getInitializer()) ? InitIdx[In->getInitializer()] : -1;
            El.push_back(std::move(EO));
            last = -2;
          } else if (auto Dt = E.getAs<CFGAutomaticObjDtor>()) {
            json::Object EO;
            EO["dtor"] = declId(Dt->getVarDecl());
            EO["t"] = type(Dt->getVarDecl()->getType());
            El.push_back(std::move(EO));
            last = -2;
          }
        }
        BOb["el"] = std::move(El);
        if (const Stmt *T = B->getTerminatorStmt()) {
          BOb["tk"] = T->getStmtClassName();
          BOb["term"] = visit(T);
          if (const Stmt *Cd = B->getTerminatorCondition()) BOb["cond"] = visit(Cd);
        }
        if (const Stmt *Lb = B->getLabel()) BOb["label"] = visit(Lb);
        if (B->hasNoReturnElement()) BOb["noret"] = true;
        json::Array Su;
        for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
          const CFGBlock *Sx = It->getReachableBlock();
          if (!Sx) Sx = It->getPossiblyUnreachableBlock();
          if (Sx) Su.push_back((int64_t)Sx->getBlockID());
          else Su.push_back(nullptr);
        }
        BOb["succ"] = std::move(Su);
        Bs.push_back(std::move(BOb));
      }
      GO["blocks"] = std::move(Bs);
      O["cfg"] = std::move(GO);
    }
    O["nodes"] = std::move(Nodes);
    Files.insert(fileOf(L));
    Functions.push_back(std::move(O));
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!R->isCompleteDefinition()) return;
    SourceLocation L = R->getLocation();
    if (auto *P = R->getTemplateInstantiationPattern()) L = P->getLocation();
    if (!wanted(L)) return;
    std::string U = usr(R);
    if (!SeenCls.insert(U).second) return;
    json::Object O;
    O["q"] = patName(R);
    O["fq"] = recName(R);
    O["u"] = U;
    O["file"] = fileOf(L);
    O["line"] = lineOf(L);
    json::Array Bs;
    for (auto &B : R->bases()) {
      json::Object BO;
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
        BO["q"] = patName(BR);
        BO["fq"] = recName(BR);
      } else BO["q"] = B.getType().getAsString(PP);
      if (B.isVirtual()) BO["virt"] = true;
      Bs.push_back(std::move(BO));
    }
    O["bases"] = std::move(Bs);
    json::Array Fs;
    for (auto *F : R->fields()) {
      json::Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = type(F->getType());
      FO["l"] = lineOf(F->getLocation());
      if (F->isMutable()) FO["mut"] = true;
      if (F->hasInClassInitializer()) FO["init"] = true;
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    json::Array Ms;
    auto addM = [&](const CXXMethodDecl *M) {
      json::Object MO;
      fnInfo(MO, M);
      if (M->isPureVirtual()) MO["pure"] = true;
      if (M->isDeleted()) MO["deleted"] = true;
      if (M->isDefaulted()) MO["defaulted"] = true;
      if (M->isImplicit()) MO["implicit"] = true;
      if (isa<CXXConstructorDecl>(M)) MO["kind"] = "ctor";
      else if (isa<CXXDestructorDecl>(M)) MO["kind"] = "dtor";
      else MO["kind"] = "method";
      MO["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(usr(B));
      if (!Ov.empty()) MO["over"] = std::move(Ov);
      MO["np"] = (int64_t)M->getNumParams();
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        if (CD->isCopyConstructor()) MO["copyctor"] = true;
      }
      if (M->isCopyAssignmentOperator()) MO["copyassign"] = true;
      json::Array Pt;
      for (auto *P : M->parameters()) Pt.push_back(type(P->getType()));
      MO["pt"] = std::move(Pt);
      MO["rt"] = type(M->getReturnType());
      Ms.push_back(std::move(MO));
    };
    for (auto *D : R->decls()) {
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) addM(M);
      else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
        json::Object MO;
        MO["n"] = FT->getNameAsString();
        MO["tmpl"] = true;
        Ms.push_back(std::move(MO));
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        (void)V;
      }
    }
    O["methods"] = std::move(Ms);
    O["copyctor_user"] = R->hasUserDeclaredCopyConstructor();
    O["copyassign_user"] = R->hasUserDeclaredCopyAssignment();
    if (R->isAbstract()) O["abstract"] = true;
    Files.insert(fileOf(L));
    Classes.push_back(std::move(O));
  }

  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || !wanted(V->getLocation()) || V->getType()->isDependentType()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    std::string U = usr(V);
    if (!SeenGlob.insert(U).second) return;
    json::Object O;
    O["q"] = pname(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["file"] = fileOf(V->getLocation());
    O["line"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) O["slocal"] = true;
    Globals.push_back(std::move(O));
  }

  void finish(json::Array Deps) {
    json::Object O;
    O["types"] = std::move(Types);
    O["functions"] = std::move(Functions);
    O["classes"] = std::move(Classes);
    O["globals"] = std::move(Globals);
    O["deps"] = std::move(Deps);
    OS << json::Value(std::move(O)) << "\n";
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Emitter &E;
  explicit Visitor(Emitter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    E.function(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    if (L->getCallOperator()) E.function(L->getCallOperator());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    E.record(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    E.global(V);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  CompilerInstance &CI;
  explicit Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) {
      llvm::errs() << "extract: translation unit has errors\n";
    }
    Emitter E(C, llvm::outs());
    Visitor V(E);
    for (Decl *D : C.getTranslationUnitDecl()->decls()) {
      SourceLocation L = D->getLocation();
      // Instantiations of repo templates hang off the template declaration,
      // which lies in the repository: other top-level declarations can go.
      if (auto *N = dyn_cast<NamespaceDecl>(D)) {
        // namespaces are mixed; descend
        V.TraverseDecl(D);
        (void)N;
        continue;
      }
      if (isa<LinkageSpecDecl>(D)) {
        if (E.wanted(L)) V.TraverseDecl(D);
        continue;
      }
      if (E.wanted(L)) V.TraverseDecl(D);
    }
    json::Array Deps;
    auto &SM = C.getSourceManager();
    std::set<std::string> Seen;
    for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) {
      std::string P = It->first.getFileEntry().tryGetRealPathName().str();
      if (P.empty()) P = It->first.getName().str();
      if (Seen.insert(P).second) Deps.push_back(P);
    }
    E.finish(std::move(Deps));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

}  // namespace

int main(int argc, const char **argv) {
  // extract --prefix P [--prefix P] -- compiler args... file
  std::vector<std::string> Args;
  std::string File;
  int i = 1;
  for (; i < argc; ++i) {
    std::string A = argv[i];
    if (A == "--prefix") Prefixes.push_back(argv[++i]);
    else if (A == "--file") File = argv[++i];
    else if (A == "--") { ++i; break; }
  }
  for (; i < argc; ++i) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", Args);
  tooling::ClangTool T(DB, {File});
  T.clearArgumentsAdjusters();
  T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
