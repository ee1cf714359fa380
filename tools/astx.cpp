// astx: exports the resolved (type-checked, template-instantiated) program of a
// translation unit as compact JSON.  Only functions whose definition lies under
// the repository root are exported; everything else is referenced by name.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static int64_t I64(const llvm::APSInt &V) {
  return V.isSigned() ? V.extOrTrunc(64).getSExtValue()
                      : (int64_t)V.extOrTrunc(64).getZExtValue();
}
static std::string Root, OutPath, TuTag;

namespace {
class Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ASTNameGenerator> NG;
  std::map<const Decl *, std::string> Ids;
  std::map<std::string, int> TypeIdx;
  json::Array TypeArr;
  std::map<const Decl *, int> VarIds;
  std::deque<const FunctionDecl *> Work;
  std::set<const Decl *> Queued;
  json::Object Funcs, Vars, Classes, Enums;
  int LambdaN = 0, VarN = 0;

public:
  Exporter(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()),
        NG(new ASTNameGenerator(C)) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.PrintCanonicalTypes = true;
  }

  bool inRepo(SourceLocation L) {
    if (L.isInvalid())
      return false;
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.starts_with(Root);
  }
  json::Value loc(SourceLocation L) {
    if (L.isInvalid())
      return json::Array{"", 0};
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    if (F.starts_with(Root))
      F = F.drop_front(Root.size() + 1);
    return json::Array{F.str(), (int64_t)SM.getExpansionLineNumber(L)};
  }
  int ty(QualType T) {
    if (T.isNull())
      return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto It = TypeIdx.find(S);
    if (It != TypeIdx.end())
      return It->second;
    int N = TypeArr.size();
    TypeIdx[S] = N;
    TypeArr.push_back(S);
    return N;
  }
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto It = Ids.find(F);
    if (It != Ids.end())
      return It->second;
    std::string S;
    auto *M = dyn_cast<CXXMethodDecl>(F);
    bool Lam = M && M->getParent()->isLambda();
    bool Local = F->getParentFunctionOrMethod() != nullptr;
    if (Lam || Local) {
      S = TuTag + "#L" + std::to_string(LambdaN++);
    } else {
      S = NG->getName(F);
      if (S.empty())
        S = TuTag + "#F" + std::to_string(LambdaN++) + F->getQualifiedNameAsString();
      if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F))
        S += "@" + std::to_string(F->getNumParams());
    }
    Ids[F] = S;
    return S;
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return S;
  }
  int vid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end())
      return It->second;
    return VarIds[D] = VarN++;
  }
  void enqueue(const FunctionDecl *F) {
    if (!F)
      return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) {
      if (F->isDefined(Def) && Def && Def->isDefaulted()) {
      }
      return;
    }
    if (Def->isDependentContext())
      return;
    if (!inRepo(Def->getLocation()))
      return;
    if (!Queued.insert(Def->getCanonicalDecl()).second)
      return;
    Work.push_back(Def);
  }

  json::Value apval(const APValue &V) {
    switch (V.getKind()) {
    case APValue::Int:
      return json::Object{{"i", I64(V.getInt())}};
    case APValue::Float:
      return json::Object{{"f", V.getFloat().convertToDouble()}};
    case APValue::Array: {
      json::Array A;
      unsigned N = V.getArraySize();
      for (unsigned i = 0; i < N; ++i)
        A.push_back(i < V.getArrayInitializedElts()
                        ? apval(V.getArrayInitializedElt(i))
                        : apval(V.getArrayFiller()));
      return json::Object{{"a", std::move(A)}};
    }
    case APValue::Struct: {
      json::Array A;
      for (unsigned i = 0; i < V.getStructNumFields(); ++i)
        A.push_back(apval(V.getStructField(i)));
      return json::Object{{"s", std::move(A)}};
    }
    case APValue::LValue: {
      if (auto B = V.getLValueBase()) {
        if (auto *D = B.dyn_cast<const ValueDecl *>())
          if (auto *F = dyn_cast<FunctionDecl>(D)) {
            enqueue(F);
            return json::Object{{"fn", fid(F)}, {"q", qname(F)}};
          }
        if (auto *E = B.dyn_cast<const Expr *>())
          if (auto *S = dyn_cast<StringLiteral>(E))
            return json::Object{{"str", S->getBytes().str()}};
      } else if (V.isNullPointer())
        return json::Object{{"null", true}};
      return json::Object{{"unk", true}};
    }
    default:
      return json::Object{{"unk", true}};
    }
  }

  void exportVar(const VarDecl *V) {
    auto *Def = V->getDefinition();
    if (Def)
      V = Def;
    std::string Key = std::to_string(vid(V));
    if (Vars.find(Key) != Vars.end())
      return;
    Vars[Key] = json::Object{};
    json::Object O;
    O["n"] = V->getNameAsString();
    O["q"] = qname(V);
    O["t"] = ty(V->getType());
    O["l"] = loc(V->getLocation());
    O["const"] = V->getType().isConstQualified() || V->isConstexpr();
    bool Repo = inRepo(V->getLocation());
    O["repo"] = Repo;
    if (Repo && !V->getType()->isDependentType()) {
      const VarDecl *IV = nullptr;
      auto *Init = V->getAnyInitializer(IV);
      if (Init && !Init->isValueDependent()) {
        if (V->isConstexpr() || V->getType().isConstQualified()) {
          if (const APValue *AV = IV->evaluateValue())
            O["val"] = apval(*AV);
        }
        if (O.find("val") == O.end())
          O["init"] = expr(Init);
      }
    }
    Vars[Key] = std::move(O);
  }

  json::Object node(const char *K, const Stmt *S) {
    json::Object O;
    O["k"] = K;
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
    }
    auto L = SM.getExpansionLoc(S->getBeginLoc());
    if (L.isValid()) {
      int N = SM.getExpansionLineNumber(L);
      O["l"] = N;
    }
    return O;
  }
  json::Value nul() { return nullptr; }

  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    json::Array A;
    for (auto *E : R)
      A.push_back(expr(E));
    return A;
  }

  void callee(json::Object &O, const FunctionDecl *F) {
    O["f"] = fid(F);
    O["q"] = qname(F);
    O["repo"] = inRepo(F->getLocation()) ||
                (F->getTemplateInstantiationPattern() &&
                 inRepo(F->getTemplateInstantiationPattern()->getLocation()));
    json::Array PT;
    for (auto *P : F->parameters())
      PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    O["rt"] = ty(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : TA->asArray()) {
        if (X.getKind() == TemplateArgument::Type)
          A.push_back(ty(X.getAsType()));
      }
      O["ta"] = std::move(A);
    }
    enqueue(F);
  }

  void constval(json::Object &O, const Expr *E) {
    if (E->isValueDependent() || !E->getType()->isIntegralOrEnumerationType())
      return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
      O["cv"] = I64(R.Val.getInt());
  }

  json::Value expr(const Expr *E) {
    if (!E)
      return nul();
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      auto O = node("temp", E);
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
      return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      auto O = node("defarg", E);
      O["e"] = expr(X->getExpr());
      return O;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
      return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      auto O = node("stdinit", E);
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      auto O = node("int", E);
      O["v"] = (int64_t)X->getValue().getLimitedValue();
      return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      auto O = node("int", E);
      O["v"] = (int64_t)X->getValue();
      O["ch"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto O = node("bool", E);
      O["v"] = X->getValue();
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      auto O = node("flt", E);
      O["v"] = X->getValueAsApproximateDouble();
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      auto O = node("str", E);
      O["v"] = json::fixUTF8(X->getBytes());
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return node("nullp", E);
    if (isa<CXXThisExpr>(E))
      return node("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      auto O = node("ref", E);
      O["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "fn";
        callee(O, F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum";
        O["cv"] = I64(EC->getInitVal());
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["id"] = vid(V);
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
          O["dk"] = "var";
          if (V->isConstexpr())
            constval(O, E);
        } else {
          O["dk"] = "glob";
          exportVar(V);
          O["q"] = qname(V);
          if (V->isConstexpr() || V->getType().isConstQualified())
            constval(O, E);
        }
        O["vt"] = ty(V->getType());
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        O["dk"] = "bind";
        O["id"] = vid(B);
        if (B->getBinding())
          O["be"] = expr(B->getBinding());
      } else
        O["dk"] = "other";
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      auto O = node("sizeof", E);
      constval(O, E);
      if (X->isArgumentType() || X->getArgumentExpr())
        O["st"] = ty(X->getTypeOfArgument());
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto O = node("un", E);
      std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix())
        Op = "p" + Op;
      O["op"] = Op;
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      auto O = node("cassign", E);
      O["op"] =
          BinaryOperator::getOpcodeStr(
              BinaryOperator::getOpForCompoundAssignment(X->getOpcode()))
              .str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      O["ct"] = ty(X->getComputationLHSType());
      O["cr"] = ty(X->getComputationResultType());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      auto O = node(X->isAssignmentOp() ? "assign" : "bin", E);
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      auto O = node("cond", E);
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return O;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E))
      return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto O = node("idx", E);
      O["a"] = expr(X->getBase());
      O["b"] = expr(X->getIdx());
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        auto O = node("ref", E);
        O["n"] = V->getNameAsString();
        O["q"] = qname(V);
        O["dk"] = "glob";
        O["id"] = vid(V);
        exportVar(V);
        O["vt"] = ty(V->getType());
        return O;
      }
      auto O = node("mem", E);
      O["n"] = D->getNameAsString();
      O["e"] = expr(X->getBase());
      O["ar"] = X->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        O["vt"] = ty(FD->getType());
        O["cls"] = qname(FD->getParent());
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        O["m"] = true;
        callee(O, M);
      }
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto O = node("call", E);
      if (auto *F = X->getDirectCallee()) {
        callee(O, F);
        if (isa<CXXMethodDecl>(F))
          O["meth"] = true;
      } else
        O["fe"] = expr(X->getCallee());
      O["opn"] = getOperatorSpelling(X->getOperator());
      O["args"] = exprs(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto O = node("mcall", E);
      auto *M = X->getMethodDecl();
      if (M) {
        callee(O, M);
        O["virt"] = M->isVirtual();
        O["mn"] = M->getNameAsString();
        if (auto *CV = dyn_cast<CXXConversionDecl>(M)) {
          (void)CV;
          O["conv"] = true;
        }
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          if (ME->hasQualifier())
            O["virt"] = false;
      }
      O["obj"] = expr(X->getImplicitObjectArgument());
      O["args"] = exprs(X->arguments());
      if (X->getImplicitObjectArgument())
        O["objp"] =
            X->getImplicitObjectArgument()->getType()->isPointerType();
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto O = node("call", E);
      if (auto *F = X->getDirectCallee())
        callee(O, F);
      else
        O["fe"] = expr(X->getCallee());
      O["args"] = exprs(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto O = node("inhctor", E);
      callee(O, X->getConstructor());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto O = node("ctor", E);
      auto *F = X->getConstructor();
      callee(O, F);
      O["cls"] = qname(F->getParent());
      O["copy"] = F->isCopyConstructor();
      O["move"] = F->isMoveConstructor();
      O["dflt"] = F->isDefaultConstructor();
      if (auto Inh = F->getInheritedConstructor())
        O["inh"] = true;
      O["list"] = X->isListInitialization();
      O["sil"] = X->isStdInitListInitialization();
      json::Array A;
      for (auto *Arg : X->arguments())
        A.push_back(expr(Arg));
      O["args"] = std::move(A);
      exportClass(F->getParent());
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto O = node("new", E);
      O["at"] = ty(X->getAllocatedType());
      O["arr"] = X->isArray();
      if (X->isArray() && X->getArraySize())
        O["n"] = expr(*X->getArraySize());
      O["e"] = expr(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      auto O = node("delete", E);
      O["e"] = expr(X->getArgument());
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      auto O = node("throw", E);
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto O = node("lambda", E);
      auto *RD = X->getLambdaClass();
      json::Array Caps;
      auto CI = X->capture_init_begin();
      for (auto &Cap : X->captures()) {
        json::Object CO;
        if (Cap.capturesThis()) {
          CO["this"] = true;
          CO["byref"] = Cap.getCaptureKind() == LCK_This;
        } else if (Cap.capturesVariable()) {
          auto *V = Cap.getCapturedVar();
          CO["id"] = vid(V);
          CO["n"] = V->getNameAsString();
          CO["byref"] = Cap.getCaptureKind() == LCK_ByRef;
          if (X->isInitCapture(&Cap))
            CO["ic"] = true;
        }
        CO["e"] = expr(*CI);
        ++CI;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      auto *CO = X->getCallOperator();
      if (auto *FT = RD->getDependentLambdaCallOperator()) {
        json::Array Sp;
        for (auto *S : FT->specializations()) {
          enqueue(S);
          Sp.push_back(fid(S));
        }
        O["gen"] = std::move(Sp);
      } else {
        enqueue(CO);
        O["f"] = fid(CO);
      }
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm())
        X = X->getSemanticForm();
      if (X->isTransparent())
        return expr(X->getInit(0));
      auto O = node("initlist", E);
      json::Array A;
      for (auto *I : X->inits())
        A.push_back(expr(I));
      O["items"] = std::move(A);
      return O;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
      return node("zero", E);
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto O = node("cast", E);
      O["ck"] = X->getCastKindName();
      O["e"] = expr(X->getSubExpr());
      if (isa<ExplicitCastExpr>(X))
        O["x"] = true;
      if (auto *R = dyn_cast<CXXReinterpretCastExpr>(X)) {
        (void)R;
        O["rc"] = true;
      }
      return O;
    }
    if (auto *X = dyn_cast<PackExpansionExpr>(E))
      return expr(X->getPattern());
    if (isa<CXXTypeidExpr>(E))
      return node("typeid", E);
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) {
      auto O = node("bool", E);
      O["v"] = X->getValue();
      return O;
    }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) {
      auto O = node("bool", E);
      O["v"] = X->isValueDependent() ? false : X->getValue();
      return O;
    }
    if (isa<RequiresExpr>(E) || isa<ConceptSpecializationExpr>(E)) {
      auto O = node("unk", E);
      constval(O, E);
      return O;
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      auto O = node("unk", E);
      (void)X;
      return O;
    }
    auto O = node("unk", E);
    O["cn"] = E->getStmtClassName();
    constval(O, E);
    return O;
  }

  json::Value vardecl(const VarDecl *V) {
    json::Object O;
    O["id"] = vid(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = (int64_t)SM.getExpansionLineNumber(
        SM.getExpansionLoc(V->getLocation()));
    if (V->isStaticLocal())
      O["static"] = true;
    if (V->getInit())
      O["init"] = expr(V->getInit());
    if (V->isConstexpr() && V->getInit()) {
      if (V->getType()->isIntegralOrEnumerationType() &&
          !V->getInit()->isValueDependent()) {
        Expr::EvalResult R;
        if (V->getInit()->EvaluateAsInt(R, C))
          O["cv"] = I64(R.Val.getInt());
      }
    }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *X : DD->bindings()) {
        json::Object BO;
        BO["id"] = vid(X);
        if (X->getBinding())
          BO["e"] = expr(X->getBinding());
        B.push_back(std::move(BO));
      }
      O["binds"] = std::move(B);
    }
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S)
      return nul();
    if (auto *E = dyn_cast<Expr>(S)) {
      auto O = node("expr", S);
      O.erase("t");
      O["e"] = expr(E);
      return O;
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      auto O = node("block", S);
      json::Array A;
      for (auto *B : X->body())
        A.push_back(stmt(B));
      O["b"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto O = node("decl", S);
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D))
          A.push_back(vardecl(V));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto O = node("if", S);
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["cvar"] = vardecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      if (X->isConstexpr()) {
        if (auto ND = X->getNondiscardedCase(C)) {
          if (*ND)
            return stmt(*ND);
          return node("null", S);
        }
      }
      O["a"] = stmt(X->getThen());
      O["b"] = stmt(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      auto O = node("while", S);
      if (X->getConditionVariable())
        O["cvar"] = vardecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      auto O = node("do", S);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      auto O = node("for", S);
      O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto O = node("rfor", S);
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      O["v"] = vardecl(X->getLoopVariable());
      O["r"] = expr(X->getRangeInit());
      O["b"] = stmt(X->getBody());
      // the loop the statement stands for, for classes with begin() and end()
      if (X->getBeginStmt() && X->getEndStmt() && X->getCond() && X->getInc()) {
        if (auto *RS = X->getRangeStmt())
          O["rs"] = stmt(RS);
        O["bs"] = stmt(X->getBeginStmt());
        O["es"] = stmt(X->getEndStmt());
        O["c"] = expr(X->getCond());
        O["inc"] = expr(X->getInc());
      }
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      auto O = node("ret", S);
      O["e"] = expr(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S))
      return node("break", S);
    if (isa<ContinueStmt>(S))
      return node("cont", S);
    if (isa<NullStmt>(S))
      return node("null", S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      auto O = node("switch", S);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      O["nlab"] = X->isAllEnumCasesCovered();
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      auto O = node("case", S);
      O["v"] = expr(X->getLHS());
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      auto O = node("default", S);
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S))
      return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto O = node("try", S);
      O["b"] = stmt(X->getTryBlock());
      json::Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i)
        A.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      O["h"] = std::move(A);
      return O;
    }
    auto O = node("unks", S);
    O["cn"] = S->getStmtClassName();
    return O;
  }

  void exportFunc(const FunctionDecl *F) {
    std::string Id = fid(F);
    json::Object O;
    O["q"] = qname(F);
    O["n"] = F->getNameAsString();
    O["l"] = loc(F->getLocation());
    O["rt"] = ty(F->getReturnType());
    json::Array P;
    for (auto *D : F->parameters()) {
      json::Object PO{{"id", vid(D)},
                      {"n", D->getNameAsString()},
                      {"t", ty(D->getType())}};
      if (D->hasDefaultArg() && !D->hasUninstantiatedDefaultArg() &&
          !D->hasUnparsedDefaultArg())
        PO["d"] = expr(D->getDefaultArg());
      P.push_back(std::move(PO));
    }
    O["p"] = std::move(P);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : TA->asArray()) {
        if (X.getKind() == TemplateArgument::Type)
          A.push_back(ty(X.getAsType()));
        else if (X.getKind() == TemplateArgument::Integral)
          A.push_back(json::Object{{"i", I64(X.getAsIntegral())}});
      }
      O["ta"] = std::move(A);
    }
    O["linkage"] = F->hasExternalFormalLinkage();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qname(M->getParent());
      O["static"] = M->isStatic();
      O["virt"] = M->isVirtual();
      O["cst"] = M->isConst();
      O["acc"] = (int)M->getAccess();
      json::Array Ov;
      for (auto *X : M->overridden_methods())
        Ov.push_back(fid(X));
      O["ov"] = std::move(Ov);
      exportClass(M->getParent());
      if (M->getParent()->isLambda())
        O["lam"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array I;
      for (auto *X : CD->inits()) {
        json::Object IO;
        if (X->isBaseInitializer()) {
          IO["base"] = ty(QualType(X->getBaseClass(), 0));
        } else if (X->isDelegatingInitializer()) {
          IO["deleg"] = true;
        } else if (X->getAnyMember()) {
          IO["m"] = X->getAnyMember()->getNameAsString();
          IO["w"] = X->isWritten();
        }
        IO["e"] = expr(X->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
      O["ctor"] = true;
    }
    O["b"] = stmt(F->getBody());
    Funcs[Id] = std::move(O);
  }

  void exportClass(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentType() || R->isLambda())
      return;
    if (!inRepo(R->getLocation()))
      return;
    std::string Q = qname(R);
    if (Classes.find(Q) != Classes.end())
      return;
    Classes[Q] = json::Object{};
    json::Object O;
    json::Array B, Fs, Ms;
    for (auto &X : R->bases())
      B.push_back(ty(X.getType()));
    for (auto *F : R->fields()) {
      json::Object FO{{"n", F->getNameAsString()},
                      {"t", ty(F->getType())},
                      {"l", loc(F->getLocation())},
                      {"acc", (int)F->getAccess()}};
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    for (auto *M : R->methods()) {
      json::Object MO{{"n", M->getNameAsString()},
                      {"f", fid(M)},
                      {"virt", M->isVirtual()},
                      {"pure", M->isPureVirtual()},
                      {"del", M->isDeleted()},
                      {"acc", (int)M->getAccess()},
                      {"static", M->isStatic()},
                      {"rt", ty(M->getReturnType())}};
      json::Array PT;
      for (auto *P : M->parameters())
        PT.push_back(ty(P->getType()));
      MO["pt"] = std::move(PT);
      json::Array Ov;
      for (auto *X : M->overridden_methods())
        Ov.push_back(fid(X));
      MO["ov"] = std::move(Ov);
      if (isa<CXXConstructorDecl>(M))
        MO["ctor"] = true;
      Ms.push_back(std::move(MO));
      enqueue(M);
    }
    for (auto *D : R->decls())
      if (auto *V = dyn_cast<VarDecl>(D))
        if (V->isStaticDataMember())
          exportVar(V);
    O["bases"] = std::move(B);
    O["fields"] = std::move(Fs);
    O["methods"] = std::move(Ms);
    O["l"] = loc(R->getLocation());
    Classes[Q] = std::move(O);
  }

  struct V : RecursiveASTVisitor<V> {
    Exporter &X;
    V(Exporter &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
      if (F->isThisDeclarationADefinition() && !F->isDependentContext()) {
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (M && M->getParent()->isLambda())
          return true;
        X.enqueue(F);
      }
      return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
      if (R->isThisDeclarationADefinition())
        X.exportClass(R);
      return true;
    }
    bool VisitVarDecl(VarDecl *D) {
      if (D->hasGlobalStorage() && !D->isStaticLocal() &&
          !D->isTemplated() && !D->getDeclContext()->isDependentContext() &&
          X.inRepo(D->getLocation()))
        X.exportVar(D);
      return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
      if (X.inRepo(E->getLocation())) {
        json::Array A;
        for (auto *C : E->enumerators())
          A.push_back(json::Array{C->getNameAsString(),
                                  I64(C->getInitVal())});
        X.Enums[X.qname(E)] = std::move(A);
      }
      return true;
    }
  };

  void run() {
    V Vis(*this);
    Vis.TraverseDecl(C.getTranslationUnitDecl());
    while (!Work.empty()) {
      auto *F = Work.front();
      Work.pop_front();
      exportFunc(F);
    }
    json::Object Out;
    Out["types"] = std::move(TypeArr);
    Out["funcs"] = std::move(Funcs);
    Out["vars"] = std::move(Vars);
    Out["classes"] = std::move(Classes);
    Out["enums"] = std::move(Enums);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(Out));
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred())
      return;
    Exporter E(C);
    E.run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: astx ROOT TAG OUT FILE -- FLAGS...
int main(int argc, char **argv) {
  if (argc < 6)
    return 2;
  Root = argv[1];
  TuTag = argv[2];
  OutPath = argv[3];
  std::string File = argv[4];
  std::vector<std::string> Flags(argv + 6, argv + argc);
  tooling::FixedCompilationDatabase DB(Root, Flags);
  tooling::ClangTool Tool(DB, {File});
  struct F : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override {
      return std::make_unique<Action>();
    }
  } Fac;
  return Tool.run(&Fac);
}
