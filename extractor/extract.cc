// plexil-facts: libTooling extractor.
// For every function with a body that lives under the analysed source root it
// emits one JSON line holding the resolved, type-checked syntax tree of the
// body (callees, fields, enumerators and overload/template choices resolved by
// clang); plus class, enum and global-variable records.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/JSONCompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static std::vector<std::string> Roots; // real path prefixes that are analysed

namespace {

class Emitter : public RecursiveASTVisitor<Emitter> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  llvm::raw_ostream &OS;
  std::map<std::string, int> Types;
  std::vector<std::string> TypeList;
  std::unordered_map<const Decl *, int> LocalIds;
  std::set<const Decl *> Done;
  int NextLocal = 0;
  std::unordered_map<unsigned, std::pair<std::string, bool>> FileCache;

public:
  Emitter(ASTContext &C, llvm::raw_ostream &OS)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), OS(OS) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
    PP.AnonymousTagLocations = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  // ---- locations -------------------------------------------------------
  std::pair<std::string, bool> fileInfo(SourceLocation L) {
    if (L.isInvalid()) return {"", false};
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto It = FileCache.find(F.getHashValue());
    if (It != FileCache.end()) return It->second;
    std::string P;
    if (auto FE = SM.getFileEntryRefForID(F)) {
      P = FE->getFileEntry().tryGetRealPathName().str();
      if (P.empty()) P = FE->getName().str();
    }
    llvm::SmallString<256> Real;
    if (!P.empty() && !llvm::sys::fs::real_path(P, Real)) P = std::string(Real.str());
    bool in = false;
    for (auto &R : Roots)
      if (P.compare(0, R.size(), R) == 0) {
        in = true;
        P = P.substr(R.size());
        break;
      }
    auto R = std::make_pair(P, in);
    FileCache[F.getHashValue()] = R;
    return R;
  }
  unsigned line(SourceLocation L) {
    return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
  }
  std::string macroOf(SourceLocation L) {
    if (!L.isMacroID()) return "";
    std::string Name;
    while (L.isMacroID()) {
      if (!SM.isMacroArgExpansion(L))
        Name = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return Name;
  }

  // ---- names -----------------------------------------------------------
  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto It = Types.find(S);
    if (It != Types.end()) return It->second;
    int N = TypeList.size();
    TypeList.push_back(S);
    Types[S] = N;
    return N;
  }
  std::string tname(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream O(S);
    if (auto *CT = dyn_cast<TagDecl>(D)) {
      // include template arguments
      O << tname(C.getTypeDeclType(CT));
    } else
      D->printQualifiedName(O, PP);
    return O.str();
  }
  std::string localTag(const NamedDecl *D) {
    // distinguishes internal-linkage entities of different files
    if (D->hasLinkage() && D->isExternallyVisible()) return "";
    if (auto *M = dyn_cast<CXXMethodDecl>(D))
      if (M->getParent()->isLambda())
        return "";
    if (!D->isExternallyVisible()) return fileInfo(D->getLocation()).first + "::";
    return "";
  }
  std::string lambdaName(const CXXRecordDecl *R) {
    auto L = R->getLambdaCallOperator()->getLocation();
    auto EL = SM.getExpansionLoc(L);
    return "lambda@" + fileInfo(L).first + ":" + std::to_string(line(EL)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(EL));
  }
  std::string fkey(const FunctionDecl *F) {
    std::string S;
    llvm::raw_string_ostream O(S);
    O << localTag(F);
    auto *M = dyn_cast<CXXMethodDecl>(F);
    if (M && M->getParent()->isLambda()) {
      O << lambdaName(M->getParent()) << "::";
      O << F->getNameAsString();
    } else {
      F->printQualifiedName(O, PP);
      if (auto *TA = F->getTemplateSpecializationArgs()) {
        O << "<";
        bool first = true;
        for (auto &A : TA->asArray()) {
          if (!first) O << ", ";
          first = false;
          A.print(PP, O, true);
        }
        O << ">";
      }
    }
    O << "(";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) O << ", ";
      first = false;
      O << tname(P->getType());
    }
    if (F->isVariadic()) O << ", ...";
    O << ")";
    if (M && M->isConst()) O << " const";
    return O.str();
  }
  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    return LocalIds[D] = NextLocal++;
  }
  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda()) return lambdaName(R);
    return qname(R);
  }

  // ---- expression / statement trees -----------------------------------
  json::Value declRef(const ValueDecl *D) {
    json::Object O;
    if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      O["dk"] = "enum";
      O["n"] = E->getNameAsString();
      O["v"] = E->getInitVal().getExtValue();
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["dk"] = "fn";
      O["n"] = F->getNameAsString();
      O["f"] = fkey(F);
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      bool isLocal = V->isLocalVarDeclOrParm() ;
      if (isLocal && !V->isStaticLocal()) {
        O["dk"] = isa<ParmVarDecl>(V) ? "parm" : "var";
        O["n"] = V->getNameAsString();
        O["id"] = localId(V);
      } else {
        O["dk"] = "glob";
        O["n"] = V->getNameAsString();
        O["q"] = gname(V);
      }
    } else if (auto *FD = dyn_cast<FieldDecl>(D)) {
      O["dk"] = "field";
      O["n"] = FD->getNameAsString();
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      O["dk"] = "var";
      O["n"] = B->getNameAsString();
      O["id"] = localId(B);
    } else {
      O["dk"] = "other";
      O["n"] = D->getNameAsString();
    }
    return std::move(O);
  }
  std::string gname(const VarDecl *V) {
    std::string S;
    llvm::raw_string_ostream O(S);
    if (V->isStaticLocal()) {
      if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext()))
        O << fkey(F) << "::" << V->getNameAsString();
      else
        O << "static::" << V->getNameAsString();
      return O.str();
    }
    O << localTag(V);
    V->printQualifiedName(O, PP);
    return O.str();
  }

  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        if (P->getCastKind() == CK_NoOp) E = P->getSubExpr();
        else break;
      } else break;
    }
    return E;
  }

  json::Array kids(ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *E : A) R.push_back(expr(E));
    return R;
  }
  template <class IT> json::Array args(IT B, IT E) {
    json::Array R;
    for (; B != E; ++B) R.push_back(expr(*B));
    return R;
  }
  void setCallee(json::Object &O, const FunctionDecl *F) {
    if (!F) return;
    O["f"] = fkey(F);
    O["n"] = F->getNameAsString();
    if (F->isNoReturn()) O["noret"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      if (M->isStatic()) O["static"] = true;
    }
  }

  json::Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    json::Object O;
    O["ln"] = line(E->getBeginLoc());
    O["t"] = type(E->getType());
    if (E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() &&
        !E->isTypeDependent()) {
      Expr::EvalResult R;
      if (!isa<IntegerLiteral>(E) && E->isPRValue() &&
          E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt() &&
          R.Val.getInt().getSignificantBits() <= 64)
        O["cv"] = R.Val.getInt().isSigned() ? json::Value(R.Val.getInt().getSExtValue())
                                            : (R.Val.getInt().getActiveBits() <= 63
                                                   ? json::Value((int64_t)R.Val.getInt().getZExtValue())
                                                   : json::Value(std::to_string(R.Val.getInt().getZExtValue())));
    }
    std::string Mac = macroOf(E->getBeginLoc());
    if (!Mac.empty()) O["m"] = Mac;
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "Int";
      if (X->getValue().getActiveBits() <= 63) O["v"] = (int64_t)X->getValue().getZExtValue();
      else O["v"] = std::to_string(X->getValue().getZExtValue());
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "Float";
      O["v"] = X->getValueAsApproximateDouble();
    } else if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      O["k"] = "Str";
      std::string S;
      if (X->getCharByteWidth() == 1) S = X->getString().str();
      O["v"] = json::fixUTF8(S);
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "Int";
      O["v"] = (int64_t)X->getValue();
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "Bool";
      O["v"] = X->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "Null";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      O["k"] = "Ref";
      O["d"] = declRef(X->getDecl());
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      O["k"] = "Member";
      O["n"] = X->getMemberDecl()->getNameAsString();
      O["arrow"] = X->isArrow();
      O["b"] = expr(X->getBase());
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) O["cls"] = recName(R);
      } else if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
        setCallee(O, F);
        O["mk"] = "fn";
      } else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["mk"] = "glob";
        O["q"] = gname(V);
      }
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "This";
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "OpCall";
      O["op"] = getOperatorSpelling(X->getOperator());
      setCallee(O, X->getDirectCallee());
      if (auto *M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee())) {
        O["member"] = true;
        if (M->isVirtual()) O["virt"] = true;
      }
      O["a"] = args(X->arg_begin(), X->arg_end());
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "MCall";
      auto *M = X->getMethodDecl();
      setCallee(O, M);
      if (M) {
        bool qual = false;
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          qual = ME->hasQualifier();
          O["arrow"] = ME->isArrow();
        }
        if (M->isVirtual() && !qual) O["virt"] = true;
      } else
        O["callee"] = expr(X->getCallee());
      O["o"] = expr(X->getImplicitObjectArgument());
      O["a"] = args(X->arg_begin(), X->arg_end());
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "Call";
      if (auto *F = X->getDirectCallee()) setCallee(O, F);
      else O["callee"] = expr(X->getCallee());
      O["a"] = args(X->arg_begin(), X->arg_end());
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "Construct";
      auto *D = X->getConstructor();
      O["f"] = fkey(D);
      O["cls"] = recName(D->getParent());
      if (D->isCopyConstructor()) O["ck"] = "copy";
      else if (D->isMoveConstructor()) O["ck"] = "move";
      else if (D->isDefaultConstructor()) O["ck"] = "default";
      if (X->isElidable()) O["elide"] = true;
      if (X->requiresZeroInitialization()) O["zero"] = true;
      O["a"] = args(X->arg_begin(), X->arg_end());
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "Construct";
      O["f"] = fkey(X->getConstructor());
      O["cls"] = recName(X->getConstructor()->getParent());
      O["inherited"] = true;
      O["a"] = json::Array();
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "New";
      O["nt"] = type(X->getAllocatedType());
      O["array"] = X->isArray();
      if (X->isArray() && X->getArraySize()) O["size"] = expr(*X->getArraySize());
      if (X->getInitializer()) O["init"] = expr(X->getInitializer());
      if (X->getNumPlacementArgs()) O["place"] = args(X->placement_arg_begin(), X->placement_arg_end());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "Delete";
      O["array"] = X->isArrayForm();
      O["e"] = expr(X->getArgument());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "Cast";
      O["ck"] = X->getCastKindName();
      if (isa<CXXDynamicCastExpr>(X)) O["dyn"] = true;
      if (isa<ExplicitCastExpr>(X)) O["expl"] = true;
      if (auto *Conv = dyn_cast_or_null<CXXMethodDecl>(X->getConversionFunction())) O["conv"] = fkey(Conv);
      O["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "Bin";
      O["op"] = X->getOpcodeStr().str();
      O["ct"] = type(X->getComputationResultType());
      O["l"] = expr(X->getLHS());
      O["r"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = "Bin";
      O["op"] = X->getOpcodeStr().str();
      O["l"] = expr(X->getLHS());
      O["r"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "Un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "Cond";
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "Index";
      O["b"] = expr(X->getBase());
      O["i"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "InitList";
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      json::Array A;
      for (auto *I : X->inits()) A.push_back(expr(I));
      O["a"] = std::move(A);
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "Lambda";
      O["f"] = fkey(X->getCallOperator());
      json::Array Caps;
      auto CI = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        json::Object K;
        if (Cp.capturesThis()) K["this"] = true;
        else if (Cp.capturesVariable()) {
          K["d"] = declRef(Cp.getCapturedVar());
          K["byref"] = Cp.getCaptureKind() == LCK_ByRef;
        }
        if (CI != X->capture_init_end() && *CI) K["init"] = expr(*CI);
        ++CI;
        Caps.push_back(std::move(K));
      }
      O["caps"] = std::move(Caps);
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "SizeOf";
      O["tr"] = (int)X->getKind();
      O["at"] = type(X->getTypeOfArgument());
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      O["k"] = "Zero";
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "Throw";
      if (X->getSubExpr()) O["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<StmtExpr>(E)) {
      O["k"] = "StmtExpr";
      O["b"] = stmt(X->getSubStmt());
    } else if (isa<PredefinedExpr>(E)) {
      O["k"] = "Str";
      O["v"] = "__func__";
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
      O["k"] = "Unk";
    } else if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) {
      O["k"] = "Unk";
      O["n"] = "pseudodtor";
      (void)X;
    } else if (isa<ArrayInitLoopExpr>(E)) {
      O["k"] = "ArrayInitLoop";
      O["e"] = expr(cast<ArrayInitLoopExpr>(E)->getCommonExpr());
    } else if (isa<CXXTypeidExpr>(E)) {
      O["k"] = "TypeId";
    } else {
      O["k"] = "Unk";
      O["n"] = E->getStmtClassName();
      json::Array A;
      for (auto *S : E->children())
        if (S) A.push_back(stmt(S));
      O["c"] = std::move(A);
    }
    return std::move(O);
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object D;
    D["n"] = V->getNameAsString();
    D["t"] = type(V->getType());
    D["ln"] = line(V->getLocation());
    if (V->isStaticLocal()) {
      D["static"] = true;
      D["q"] = gname(V);
    } else
      D["id"] = localId(V);
    if (auto *R = V->getType()->getAsCXXRecordDecl())
      if (R->hasDefinition()) D["rec"] = recName(R);
    if (V->getInit()) D["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *X : DD->bindings()) {
        json::Object K;
        K["id"] = localId(X);
        K["n"] = X->getNameAsString();
        B.push_back(std::move(K));
      }
      D["bind"] = std::move(B);
    }
    return std::move(D);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    json::Object O;
    O["ln"] = line(S->getBeginLoc());
    std::string Mac = macroOf(S->getBeginLoc());
    if (!Mac.empty()) O["m"] = Mac;
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "Block";
      json::Array A;
      for (auto *K : X->body()) A.push_back(stmt(K));
      O["c"] = std::move(A);
      O["eln"] = line(X->getRBracLoc());
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl";
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["ds"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "If";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cvar"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getThen());
      if (X->getElse()) O["b"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "While";
      if (X->getConditionVariable()) O["cvar"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "Do";
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "For";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getInc()) O["inc"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      const CXXRecordDecl *RR = X->getRangeInit()->getType().getNonReferenceType()->getAsCXXRecordDecl();
      if (RR && !RR->isInStdNamespace() && X->getBeginStmt() && X->getEndStmt() && X->getCond() && X->getInc()) {
        // user-defined range: spelled out
        O["k"] = "Block";
        json::Object F, B;
        B["k"] = "Block";
        B["ln"] = line(S->getBeginLoc());
        B["c"] = json::Array{stmt(X->getLoopVarStmt()), stmt(X->getBody())};
        F["k"] = "For";
        F["ln"] = line(S->getBeginLoc());
        F["c"] = expr(X->getCond());
        F["inc"] = expr(X->getInc());
        F["b"] = std::move(B);
        O["c"] = json::Array{stmt(X->getRangeStmt()), stmt(X->getBeginStmt()), stmt(X->getEndStmt()), std::move(F)};
        return std::move(O);
      }
      O["k"] = "RangeFor";
      O["var"] = varDecl(X->getLoopVariable());
      O["range"] = expr(X->getRangeInit());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "Switch";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cvar"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      O["allenum"] = X->isAllEnumCasesCovered();
      QualType CT = X->getCond()->IgnoreParenImpCasts()->getType();
      O["et"] = tname(CT);
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "Case";
      O["v"] = expr(X->getLHS());
      if (X->getRHS()) O["v2"] = expr(X->getRHS());
      O["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "Default";
      O["s"] = stmt(X->getSubStmt());
    } else if (isa<BreakStmt>(S)) O["k"] = "Break";
    else if (isa<ContinueStmt>(S)) O["k"] = "Continue";
    else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "Return";
      if (X->getRetValue()) O["e"] = expr(X->getRetValue());
    } else if (isa<NullStmt>(S)) O["k"] = "Nop";
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "Try";
      O["b"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *K = X->getHandler(i);
        json::Object HO;
        if (K->getExceptionDecl()) {
          HO["t"] = type(K->getCaughtType().getNonReferenceType());
          HO["var"] = varDecl(K->getExceptionDecl());
        } else
          HO["all"] = true;
        HO["b"] = stmt(K->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      O["k"] = "Label";
      O["n"] = X->getDecl()->getNameAsString();
      O["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<GotoStmt>(S)) {
      O["k"] = "Goto";
      O["n"] = X->getLabel()->getNameAsString();
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else {
      O["k"] = "UnkStmt";
      O["n"] = S->getStmtClassName();
    }
    return std::move(O);
  }

  void out(json::Object O) { OS << json::Value(std::move(O)) << "\n"; }

  // ---- declarations ----------------------------------------------------
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
    if (!F->doesThisDeclarationHaveABody() || F->isDeleted()) return true;
    if (!F->getBody()) return true;
    if (!Done.insert(F->getCanonicalDecl()).second) return true;
    SourceLocation L = F->getLocation();
    auto FI = fileInfo(L);
    if (!FI.second) return true;
    LocalIds.clear();
    NextLocal = 0;
    json::Object O;
    O["R"] = "fn";
    O["key"] = fkey(F);
    O["n"] = F->getNameAsString();
    O["file"] = FI.first;
    O["ln"] = line(L);
    O["eln"] = line(F->getEndLoc());
    O["ret"] = type(F->getReturnType());
    if (F->isNoReturn()) O["noret"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isTemplateInstantiation()) O["inst"] = true;
    json::Array P;
    for (auto *V : F->parameters()) {
      json::Object K;
      K["n"] = V->getNameAsString();
      K["t"] = type(V->getType());
      K["id"] = localId(V);
      P.push_back(std::move(K));
    }
    O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["const"] = true;
      O["acc"] = (int)M->getAccess();
      if (M->getParent()->isLambda()) O["lambda"] = true;
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fkey(B));
      if (!Ov.empty()) O["over"] = std::move(Ov);
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move"
                    : CD->isDefaultConstructor() ? "default" : "other";
        json::Array I;
        for (auto *X : CD->inits()) {
          json::Object K;
          if (X->isBaseInitializer()) K["base"] = tname(QualType(X->getBaseClass(), 0));
          else if (X->isDelegatingInitializer()) K["deleg"] = true;
          else if (X->isAnyMemberInitializer()) K["field"] = X->getAnyMember()->getNameAsString();
          K["w"] = X->isWritten();
          K["ln"] = line(X->getSourceLocation());
          if (X->getInit()) K["e"] = expr(X->getInit());
          I.push_back(std::move(K));
        }
        O["inits"] = std::move(I);
      }
    }
    O["body"] = stmt(F->getBody());
    out(std::move(O));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() ||
        R->getDescribedClassTemplate())
      return true;
    auto FI = fileInfo(R->getLocation());
    if (!FI.second) return true;
    json::Object O;
    O["R"] = "cls";
    O["n"] = recName(R);
    O["file"] = FI.first;
    O["ln"] = line(R->getLocation());
    if (R->isLambda()) O["lambda"] = true;
    O["abstract"] = R->isAbstract();
    O["final"] = R->hasAttr<FinalAttr>();
    O["union"] = R->isUnion();
    if (R->isAnonymousStructOrUnion()) O["anon"] = true;
    json::Array B;
    for (auto &X : R->bases()) {
      json::Object K;
      K["n"] = tname(X.getType());
      K["acc"] = (int)X.getAccessSpecifier();
      B.push_back(std::move(K));
    }
    O["bases"] = std::move(B);
    json::Array Fs;
    for (auto *F : R->fields()) {
      json::Object K;
      K["n"] = F->getNameAsString();
      K["t"] = type(F->getType());
      K["ln"] = line(F->getLocation());
      K["acc"] = (int)F->getAccess();
      if (F->isBitField()) K["bits"] = (int)F->getBitWidthValue(C);
      if (F->isMutable()) K["mut"] = true;
      if (auto *RD = F->getType()->getAsCXXRecordDecl())
        if (RD->hasDefinition()) K["rec"] = recName(RD);
      if (F->hasInClassInitializer() && F->getInClassInitializer()) K["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(K));
    }
    O["fields"] = std::move(Fs);
    json::Array Ms;
    for (auto *M : R->methods()) {
      json::Object K;
      K["key"] = fkey(M);
      K["n"] = M->getNameAsString();
      K["acc"] = (int)M->getAccess();
      if (M->isVirtual()) K["virt"] = true;
      if (M->isPureVirtual()) K["pure"] = true;
      if (M->isDeleted()) K["del"] = true;
      if (M->isDefaulted()) K["defaulted"] = true;
      if (M->isImplicit()) K["implicit"] = true;
      if (M->isStatic()) K["static"] = true;
      if (M->isConst()) K["const"] = true;
      if (isa<CXXDestructorDecl>(M)) K["dtor"] = true;
      if (isa<CXXConstructorDecl>(M)) K["ctor"] = true;
      K["ret"] = type(M->getReturnType());
      json::Array Ov;
      for (auto *Bm : M->overridden_methods()) Ov.push_back(fkey(Bm));
      if (!Ov.empty()) K["over"] = std::move(Ov);
      Ms.push_back(std::move(K));
    }
    O["methods"] = std::move(Ms);
    out(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    auto FI = fileInfo(E->getLocation());
    if (!FI.second) return true;
    json::Object O;
    O["R"] = "enum";
    O["n"] = qname(E);
    O["file"] = FI.first;
    O["ln"] = line(E->getLocation());
    json::Array A;
    for (auto *K : E->enumerators()) {
      json::Object X;
      X["n"] = K->getNameAsString();
      X["v"] = K->getInitVal().getExtValue();
      A.push_back(std::move(X));
    }
    O["vals"] = std::move(A);
    out(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V)) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (V->getType()->isDependentType()) return true;
    if (V->getDescribedVarTemplate()) return true;
    if (V->isLocalVarDecl() && !V->isStaticLocal()) return true;
    if (!V->isThisDeclarationADefinition()) {
      if (!V->hasInit()) return true;
    }
    auto FI = fileInfo(V->getLocation());
    if (!FI.second) return true;
    LocalIds.clear();
    NextLocal = 0;
    json::Object O;
    O["R"] = "var";
    O["q"] = gname(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["file"] = FI.first;
    O["ln"] = line(V->getLocation());
    if (V->isStaticLocal()) O["slocal"] = true;
    if (V->getType().isConstQualified()) O["const"] = true;
    if (V->getInit() && !V->getInit()->isValueDependent()) O["init"] = expr(V->getInit());
    out(std::move(O));
    return true;
  }
  void finish() {
    {
      json::Object D;
      D["R"] = "deps";
      std::set<std::string> S;
      for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) {
        std::string P = It->first.getFileEntry().tryGetRealPathName().str();
        llvm::SmallString<256> Real;
        if (!P.empty() && !llvm::sys::fs::real_path(P, Real)) P = std::string(Real.str());
        for (auto &R : Roots)
          if (P.compare(0, R.size(), R) == 0) S.insert(P);
      }
      json::Array A;
      for (auto &P : S) A.push_back(P);
      D["l"] = std::move(A);
      out(std::move(D));
    }
    json::Object O;
    O["R"] = "types";
    json::Array A;
    for (auto &S : TypeList) A.push_back(S);
    O["l"] = std::move(A);
    out(std::move(O));
  }
};

class Consumer : public ASTConsumer {
  llvm::raw_ostream &OS;
  std::string File;
public:
  Consumer(llvm::raw_ostream &OS, std::string F) : OS(OS), File(F) {}
  void HandleTranslationUnit(ASTContext &C) override {
    json::Object O;
    O["R"] = "tu";
    O["file"] = File;
    O["errors"] = C.getDiagnostics().hasUncompilableErrorOccurred();
    OS << json::Value(std::move(O)) << "\n";
    Emitter E(C, OS);
    E.TraverseDecl(C.getTranslationUnitDecl());
    E.finish();
  }
};
class Action : public ASTFrontendAction {
  llvm::raw_ostream &OS;
public:
  Action(llvm::raw_ostream &OS) : OS(OS) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    return std::make_unique<Consumer>(OS, F.str());
  }
};
class Factory : public FrontendActionFactory {
  llvm::raw_ostream &OS;
public:
  Factory(llvm::raw_ostream &OS) : OS(OS) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(OS); }
};
} // namespace

// usage: extract OUT.jsonl SOURCE ROOT1,ROOT2 -- compile flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  std::string Out = argv[1], Src = argv[2], R = argv[3];
  size_t p = 0;
  while (p < R.size()) {
    size_t q = R.find(',', p);
    if (q == std::string::npos) q = R.size();
    Roots.push_back(R.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> Flags;
  std::string Dir = ".";
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  FixedCompilationDatabase DB(Dir, Flags);
  ClangTool Tool(DB, {Src});
  Tool.clearArgumentsAdjusters();
  Tool.appendArgumentsAdjuster(getClangSyntaxOnlyAdjuster());
  std::error_code EC;
  llvm::raw_fd_ostream OS(Out, EC);
  if (EC) return 2;
  Factory F(OS);
  return Tool.run(&F) ? 1 : 0;
}
