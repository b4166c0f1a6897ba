// Resolved-program extractor: dumps, for one translation unit, every function definition,
// record and static-storage variable that lives under a given source root as JSON.  All
// name lookup, overload resolution, template instantiation and implicit conversion has
// already been done by clang; the Python analyses work on this resolved program only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclFriend.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/Attr.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace J = llvm::json;

static std::string Root;   // e.g. /repo
static std::string OutPath;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  J::Array Types, Funcs, Records, Defs, Globals, Enums;
  std::map<std::string, int> TypeIds;
  std::map<std::string, int> FuncIds;
  std::set<const Decl *> SeenRec, SeenDef, SeenEnum;
  std::map<const Decl *, int> VarIds;

  explicit Dumper(ASTContext &Ctx)
      : C(Ctx), MC(ItaniumMangleContext::create(Ctx, Ctx.getDiagnostics())), PP(Ctx.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  // ---------------------------------------------------------------- helpers
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  unsigned lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    auto &SM = C.getSourceManager();
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    std::string F = fileOf(L);
    return F.rfind(Root, 0) == 0;
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printNestedNameSpecifier(OS, PP);
    OS << D->getDeclName();
    return OS.str();
  }
  std::string recQn(const CXXRecordDecl *R) {
    if (!R) return "";
    if (R->isLambda()) return "(lambda)";
    if (isa<ClassTemplateSpecializationDecl>(R)) {
      const CXXRecordDecl *Pat = R->getTemplateInstantiationPattern();
      if (inRoot((Pat ? Pat : R)->getLocation())) return C.getRecordType(R).getCanonicalType().getAsString(PP);
    }
    return qn(R);
  }
  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    int N = (int)VarIds.size() + 1;
    VarIds[D] = N;
    return N;
  }

  int ty(QualType T) {
    if (T.isNull()) return -1;
    QualType Q = T.getCanonicalType();
    std::string S = Q.getAsString(PP);
    auto It = TypeIds.find(S);
    if (It != TypeIds.end()) return It->second;
    int Id = (int)TypeIds.size();
    TypeIds[S] = Id;
    Types.push_back(nullptr);
    J::Object O;
    O["s"] = S;
    bool Ref = Q->isReferenceType();
    O["ref"] = Ref ? (Q->isRValueReferenceType() ? "&&" : "&") : "";
    QualType B = Q.getNonReferenceType();
    O["const"] = B.isConstQualified();
    B = B.getUnqualifiedType();
    std::string K = "o";
    if (B->isBooleanType()) K = "b";
    else if (B->isEnumeralType()) { K = "e"; O["en"] = qn(B->getAs<EnumType>()->getDecl()); }
    else if (B->isIntegerType()) {
      K = B->isUnsignedIntegerType() ? "u" : "i";
      O["w"] = (int64_t)C.getTypeSize(B);
    } else if (B->isRealFloatingType()) {
      K = "f"; O["w"] = (int64_t)C.getTypeSize(B);
    } else if (B->isVoidType()) K = "v";
    else if (B->isPointerType()) {
      K = "p"; O["to"] = ty(B->getPointeeType());
    } else if (B->isNullPtrType()) K = "n";
    else if (auto *R = B->getAsCXXRecordDecl()) {
      K = "r";
      O["rec"] = recQn(R);
      if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        J::Array A;
        for (auto &Arg : TS->getTemplateArgs().asArray()) tmplArg(Arg, A);
        O["targs"] = std::move(A);
      }
      O["final"] = R->hasDefinition() && R->isEffectivelyFinal();
      O["poly"] = R->hasDefinition() && R->isPolymorphic();
    } else if (auto *AT = dyn_cast<ConstantArrayType>(B.getTypePtr())) {
      K = "a"; O["n"] = (int64_t)AT->getSize().getZExtValue(); O["to"] = ty(AT->getElementType());
    }
    O["k"] = K;
    if (Ref) O["to"] = ty(Q.getNonReferenceType());
    Types[Id] = std::move(O);
    return Id;
  }
  void tmplArg(const TemplateArgument &A, J::Array &Out) {
    switch (A.getKind()) {
    case TemplateArgument::Type: Out.push_back(A.getAsType().getCanonicalType().getAsString(PP)); break;
    case TemplateArgument::Integral: Out.push_back((int64_t)A.getAsIntegral().getExtValue()); break;
    case TemplateArgument::Pack:
      for (auto &X : A.pack_elements()) tmplArg(X, Out);
      break;
    default: Out.push_back("?"); break;
    }
  }

  std::string mangle(const FunctionDecl *F) {
    if (F->isDependentContext() || F->isTemplated()) return "";
    std::string S;
    llvm::raw_string_ostream OS(S);
    GlobalDecl GD;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(CD, Ctor_Complete);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(DD, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, OS);
    else OS << F->getNameAsString();
    OS.flush();
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        S += "@" + std::to_string(lineOf(F->getBeginLoc()));
    return S;
  }

  int fn(const FunctionDecl *F) {
    std::string Key = mangle(F);
    if (Key.empty()) Key = "dep:" + qn(F);
    auto It = FuncIds.find(Key);
    if (It != FuncIds.end()) return It->second;
    int Id = (int)FuncIds.size();
    FuncIds[Key] = Id;
    Funcs.push_back(nullptr);
    J::Object O;
    O["key"] = Key;
    O["qn"] = qn(F);
    O["name"] = F->getNameAsString();
    const FunctionDecl *Pat = F;
    if (auto *TI = F->getTemplateInstantiationPattern()) Pat = TI;
    O["repo"] = inRoot(Pat->getLocation());
    O["ret"] = ty(F->getReturnType());
    J::Array PT;
    for (auto *P : F->parameters()) PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    O["min"] = (int64_t)F->getMinRequiredArguments();
    O["noexcept"] = isNoexcept(F);
    O["deleted"] = F->isDeleted();
    O["defaulted"] = F->isDefaulted();
    O["implicit"] = F->isImplicit();
    O["static"] = F->isStatic() || !isa<CXXMethodDecl>(F);
    if (auto *Args = F->getTemplateSpecializationArgs()) {
      J::Array A;
      for (auto &X : Args->asArray()) tmplArg(X, A);
      O["targs"] = std::move(A);
    }
    std::string Kind = "fn";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      Kind = "method";
      O["rec"] = recQn(M->getParent());
      O["rect"] = ty(C.getRecordType(M->getParent()));
      O["virt"] = M->isVirtual();
      O["pure"] = M->isPureVirtual();
      O["const"] = M->isConst();
      O["access"] = (int64_t)M->getAccess();
      O["final"] = M->hasAttr<FinalAttr>();
      J::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(mangle(B));
      O["over"] = std::move(Ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        Kind = "ctor";
        O["copy"] = CD->isCopyConstructor();
        O["move"] = CD->isMoveConstructor();
        O["explicit"] = CD->isExplicit();
        if (CD->isInheritingConstructor() && CD->getInheritedConstructor().getConstructor())
          O["inh"] = fn(CD->getInheritedConstructor().getConstructor());
      } else if (isa<CXXDestructorDecl>(F)) Kind = "dtor";
      else if (isa<CXXConversionDecl>(F)) Kind = "conv";
    }
    O["kind"] = Kind;
    if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
    Funcs[Id] = std::move(O);
    return Id;
  }
  bool isNoexcept(const FunctionDecl *F) {
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      return !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow();
    return false;
  }

  // ---------------------------------------------------------------- expressions
  J::Value none() { return nullptr; }
  J::Object node(const char *K, const Expr *E) {
    J::Object O;
    O["k"] = K;
    O["t"] = ty(E->getType());
    O["l"] = (int64_t)lineOf(E->getExprLoc());
    return O;
  }
  J::Array exprs(llvm::ArrayRef<const Expr *> A) {
    J::Array R;
    for (auto *E : A) R.push_back(expr(E));
    return R;
  }

  J::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<FullExpr>(E)) {
      return expr(X->getSubExpr());
    }
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      J::Object O = node("mat", E);
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<GenericSelectionExpr>(E)) return expr(X->getResultExpr());
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { J::Object O = node("str", E); O["v"] = "__func__"; return O; }

    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      J::Object O = node("int", E);
      llvm::SmallString<32> S;
      X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = S.str().str();
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      J::Object O = node("flt", E);
      llvm::SmallString<32> S;
      X->getValue().toString(S, 17, 0);
      O["v"] = S.str().str();
      O["d"] = X->getValueAsApproximateDouble();
      // exact spelling where available
      auto &SM = C.getSourceManager();
      SourceLocation L = SM.getSpellingLoc(X->getLocation());
      bool Inv = false;
      unsigned Len = Lexer::MeasureTokenLength(L, SM, C.getLangOpts());
      const char *P = SM.getCharacterData(L, &Inv);
      if (!Inv) O["src"] = std::string(P, Len);
      return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { J::Object O = node("bool", E); O["v"] = X->getValue(); return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { J::Object O = node("int", E); O["v"] = std::to_string(X->getValue()); return O; }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      J::Object O = node("str", E);
      O["v"] = X->isOrdinary() ? (llvm::json::isUTF8(X->getString()) ? X->getString().str() : std::string("?")) : std::string("?");
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (isa<CXXThisExpr>(E)) return node("this", E);

    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      J::Object O = node("ref", E);
      O["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "enum";
        O["qn"] = qn(EC);
        llvm::SmallString<32> S;
        EC->getInitVal().toString(S, 10);
        O["v"] = S.str().str();
        return O;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["k"] = "fref"; O["fn"] = fn(F); return O; }
      if (auto *BD = dyn_cast<BindingDecl>(D)) {
        O["k"] = "bind";
        O["d"] = varId(BD);
        O["e"] = expr(BD->getBinding());
        return O;
      }
      O["d"] = varId(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          O["g"] = qn(V);
          if (V->isStaticLocal()) O["sl"] = true;
        }
        // constant-fold constexpr / const literals
        if (!V->getType()->isDependentType() && V->isUsableInConstantExpressions(C)) {
          const VarDecl *Def = nullptr;
          if (const Expr *I = V->getAnyInitializer(Def)) {
            if (!I->isValueDependent() && (V->getType()->isArithmeticType())) O["ci"] = expr(I);
          }
        }
      }
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        J::Object O = node("mem", E);
        O["b"] = expr(X->getBase());
        O["f"] = F->getNameAsString();
        O["rec"] = recQn(dyn_cast<CXXRecordDecl>(F->getParent()));
        O["arrow"] = X->isArrow();
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        J::Object O = node("ref", E);
        O["n"] = V->getNameAsString();
        O["d"] = varId(V);
        O["g"] = qn(V);
        if (V->isUsableInConstantExpressions(C)) {
          const VarDecl *Def = nullptr;
          if (const Expr *I = V->getAnyInitializer(Def))
            if (!I->isValueDependent() && V->getType()->isArithmeticType()) O["ci"] = expr(I);
        }
        return O;
      }
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
        J::Object O = node("mfref", E);
        O["b"] = expr(X->getBase());
        O["fn"] = fn(F);
        return O;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(X->getMemberDecl())) {
        J::Object O = node("enum", E);
        O["qn"] = qn(EC);
        llvm::SmallString<32> S;
        EC->getInitVal().toString(S, 10);
        O["v"] = S.str().str();
        return O;
      }
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J::Object O = node("sub", E);
      O["b"] = expr(X->getBase());
      O["i"] = expr(X->getIdx());
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J::Object O = node("un", E);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      J::Object O = node("cas", E);
      std::string Op = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["op"] = Op.substr(0, Op.size() - 1);
      O["ct"] = ty(X->getComputationResultType());
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      J::Object O = node(X->isAssignmentOp() ? "asg" : "bin", E);
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      J::Object O = node("cond", E);
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J::Object O = node("call", E);
      if (auto *F = X->getDirectCallee()) {
        O["fn"] = fn(F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
          O["obj"] = expr(X->getArg(0));
          J::Array A;
          for (unsigned I = 1; I < X->getNumArgs(); ++I) A.push_back(expr(X->getArg(I)));
          O["args"] = std::move(A);
        } else {
          J::Array A;
          for (unsigned I = 0; I < X->getNumArgs(); ++I) A.push_back(expr(X->getArg(I)));
          O["args"] = std::move(A);
        }
        O["opn"] = getOperatorSpelling(X->getOperator());
      } else { O["k"] = "unk"; O["what"] = "opcall"; }
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J::Object O = node("call", E);
      auto *M = X->getMethodDecl();
      if (!M) { O["k"] = "unk"; O["what"] = "ptr-to-member call"; return O; }
      O["fn"] = fn(M);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        O["obj"] = expr(ME->getBase());
        O["arrow"] = ME->isArrow();
        // qualified call (Base::f()) suppresses virtual dispatch
        O["qual"] = ME->hasQualifier();
      }
      J::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      J::Object O = node("call", E);
      if (auto *F = X->getDirectCallee()) {
        O["fn"] = fn(F);
      } else {
        O["callee"] = expr(X->getCallee());
      }
      J::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J::Object O = node("ctor", E);
      O["fn"] = fn(X->getConstructor());
      O["rec"] = recQn(X->getConstructor()->getParent());
      O["elid"] = X->isElidable();
      O["list"] = X->isListInitialization();
      O["sil"] = X->isStdInitListInitialization();
      J::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      J::Object O = node("inhctor", E);
      O["fn"] = fn(X->getConstructor());
      return O;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return node("zero", E);
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      J::Object O = node("ilist", E);
      J::Array A;
      for (auto *I : X->inits()) A.push_back(expr(I));
      O["args"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J::Object O = node("new", E);
      O["at"] = ty(X->getAllocatedType());
      if (auto *CE = X->getConstructExpr()) O["e"] = expr(CE);
      else O["e"] = expr(X->getInitializer());
      O["arr"] = X->isArray();
      if (X->isArray() && X->getArraySize()) O["n"] = expr(*X->getArraySize());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      J::Object O = node("del", E);
      O["e"] = expr(X->getArgument());
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      J::Object O = node("throw", E);
      O["e"] = expr(X->getSubExpr());
      if (X->getSubExpr()) O["et"] = ty(X->getSubExpr()->getType());
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J::Object O = node("lambda", E);
      O["cls"] = recQn(X->getLambdaClass());
      J::Array Caps;
      auto InitIt = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        J::Object CO;
        if (Cp.capturesThis()) CO["this"] = true;
        else if (Cp.capturesVariable()) {
          CO["d"] = varId(Cp.getCapturedVar());
          CO["n"] = Cp.getCapturedVar()->getNameAsString();
          CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
          CO["t"] = ty(Cp.getCapturedVar()->getType());
          if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar()))
            if (V->isInitCapture()) CO["init"] = expr(V->getInit());
        }
        Caps.push_back(std::move(CO));
        ++InitIt;
      }
      O["caps"] = std::move(Caps);
      auto *Op = X->getCallOperator();
      if (Op->isDependentContext() || X->isGenericLambda()) {
        // generic lambda: use the (single) instantiation when there is exactly one
        const CXXMethodDecl *Inst = nullptr;
        int Cnt = 0;
        if (auto *FT = Op->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations())
            if (S->doesThisDeclarationHaveABody()) { Inst = dyn_cast<CXXMethodDecl>(S); ++Cnt; }
        if (Cnt >= 1 && Inst) Op = const_cast<CXXMethodDecl *>(Inst);
        else { O["generic"] = true; return O; }
      }
      O["fn"] = fn(Op);
      O["mutable"] = !Op->isConst();
      J::Array Ps;
      for (auto *P : Op->parameters()) Ps.push_back(param(P));
      O["params"] = std::move(Ps);
      O["body"] = stmt(Op->getBody());
      O["ret"] = ty(Op->getReturnType());
      return O;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      CastKind K = X->getCastKind();
      switch (K) {
      case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay:
      case CK_ArrayToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic: case CK_BuiltinFnToFnPtr:
        if (K == CK_LValueToRValue) {
          J::Object O = node("rv", E);
          O["e"] = expr(X->getSubExpr());
          return O;
        }
        return expr(X->getSubExpr());
      default: break;
      }
      J::Object O = node("cast", E);
      O["ck"] = X->getCastKindName();
      O["e"] = expr(X->getSubExpr());
      if (auto *XC = dyn_cast<CXXDynamicCastExpr>(E)) { (void)XC; O["dyn"] = true; }
      O["ex"] = isa<ExplicitCastExpr>(E);
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) {
        J::Object O = node("int", E);
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["v"] = S.str().str();
        return O;
      }
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      J::Object O = node("typeid", E);
      if (X->isTypeOperand()) O["ty"] = ty(X->getTypeOperand(C));
      else O["e"] = expr(X->getExprOperand());
      return O;
    }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { J::Object O = node("bool", E); O["v"] = !X->isValueDependent() && X->getValue(); return O; }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { J::Object O = node("bool", E); O["v"] = X->getValue(); return O; }
    if (auto *X = dyn_cast<RequiresExpr>(E)) { J::Object O = node("bool", E); O["v"] = !X->isValueDependent() && X->isSatisfied(); return O; }
    if (auto *X = dyn_cast<ConceptSpecializationExpr>(E)) { J::Object O = node("bool", E); O["v"] = !X->isValueDependent() && X->isSatisfied(); return O; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { J::Object O = node("unk", E); O["what"] = "ArrayInitLoop"; (void)X; return O; }

    Expr::EvalResult R;
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) {
      J::Object O = node("int", E);
      llvm::SmallString<32> S;
      R.Val.getInt().toString(S, 10);
      O["v"] = S.str().str();
      return O;
    }
    J::Object O = node("unk", E);
    O["what"] = E->getStmtClassName();
    return O;
  }

  // ---------------------------------------------------------------- statements
  J::Object param(const ParmVarDecl *P) {
    J::Object O;
    O["d"] = varId(P);
    O["n"] = P->getNameAsString();
    O["t"] = ty(P->getType());
    if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
      O["def"] = expr(P->getDefaultArg());
    return O;
  }
  J::Object var(const VarDecl *V) {
    J::Object O;
    O["d"] = varId(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = (int64_t)lineOf(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      J::Array B;
      for (auto *BD : DD->bindings()) {
        J::Object BO;
        BO["d"] = varId(BD);
        BO["n"] = BD->getNameAsString();
        if (BD->getHoldingVar()) { BO["hold"] = var(BD->getHoldingVar()); }
        BO["e"] = expr(BD->getBinding());
        B.push_back(std::move(BO));
      }
      O["binds"] = std::move(B);
    }
    return O;
  }
  J::Object snode(const char *K, const Stmt *S) {
    J::Object O;
    O["k"] = K;
    O["l"] = (int64_t)lineOf(S->getBeginLoc());
    return O;
  }
  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      J::Object O = snode("blk", S);
      J::Array A;
      for (auto *I : X->body()) A.push_back(stmt(I));
      O["s"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      J::Object O = snode("decl", S);
      J::Array A;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      }
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      J::Object O = snode("if", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getThen());
      O["b"] = stmt(X->getElse());
      if (X->isConstexpr()) {
        O["cx"] = true;
        Expr::EvalResult R;
        if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsInt(R, C))
          O["cxv"] = R.Val.getInt().getBoolValue();
      }
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      J::Object O = snode("for", S);
      O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      J::Object O = snode("while", S);
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      J::Object O = snode("do", S);
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      J::Object O = snode("rfor", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      O["range"] = expr(X->getRangeInit());
      O["var"] = var(X->getLoopVariable());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      J::Object O = snode("ret", S);
      O["e"] = expr(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S)) return snode("break", S);
    if (isa<ContinueStmt>(S)) return snode("continue", S);
    if (isa<NullStmt>(S)) return snode("nop", S);
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      J::Object O = snode("try", S);
      O["body"] = stmt(X->getTryBlock());
      J::Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *CS = X->getHandler(I);
        J::Object HO;
        HO["all"] = CS->getExceptionDecl() == nullptr;
        if (CS->getExceptionDecl()) HO["var"] = var(CS->getExceptionDecl());
        HO["t"] = CS->getCaughtType().isNull() ? -1 : ty(CS->getCaughtType());
        HO["body"] = stmt(CS->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      J::Object O = snode("switch", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      J::Object O = snode("case", S);
      O["v"] = expr(X->getLHS());
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      J::Object O = snode("default", S);
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { J::Object O = snode("unk", S); O["what"] = "LabelStmt"; (void)X; return O; }
    if (auto *X = dyn_cast<GCCAsmStmt>(S)) {
      J::Object O = snode(X->getAsmString()->getString().trim().empty() ? "nop" : "unk", S);
      O["what"] = "asm";
      return O;
    }
    if (auto *X = dyn_cast<Expr>(S)) {
      J::Object O = snode("expr", S);
      O["e"] = expr(X);
      return O;
    }
    J::Object O = snode("unk", S);
    O["what"] = S->getStmtClassName();
    return O;
  }

  // ---------------------------------------------------------------- declarations
  void defFunction(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return;
    if (F->isDependentContext() || F->isTemplated()) return;
    if (F->isDeleted()) return;
    const FunctionDecl *Pat = F;
    if (auto *TI = F->getTemplateInstantiationPattern()) Pat = TI;
    if (!inRoot(Pat->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    if (!SeenDef.insert(F).second) return;
    J::Object O;
    O["fn"] = fn(F);
    O["file"] = fileOf(Pat->getLocation());
    O["line"] = (int64_t)lineOf(Pat->getLocation());
    J::Array Ps;
    for (auto *P : F->parameters()) Ps.push_back(param(P));
    O["params"] = std::move(Ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      J::Array In;
      for (auto *I : CD->inits()) {
        J::Object IO;
        if (I->isMemberInitializer()) { IO["f"] = I->getMember()->getNameAsString(); IO["rec"] = recQn(dyn_cast<CXXRecordDecl>(I->getMember()->getParent())); }
        else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["dmi"] = I->isInClassMemberInitializer();
        IO["l"] = (int64_t)lineOf(I->getSourceLocation());
        IO["e"] = expr(I->getInit());
        In.push_back(std::move(IO));
      }
      O["inits"] = std::move(In);
    }
    O["body"] = stmt(F->getBody());
    Defs.push_back(std::move(O));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    defFunction(F);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
    if (R->isDependentContext()) return true;
    const CXXRecordDecl *Pat = R;
    if (auto *P = R->getTemplateInstantiationPattern()) Pat = P;
    if (!inRoot(Pat->getLocation())) return true;
    if (!SeenRec.insert(R).second) return true;
    J::Object O;
    O["qn"] = recQn(R);
    O["t"] = ty(C.getRecordType(R));
    O["file"] = fileOf(Pat->getLocation());
    O["line"] = (int64_t)lineOf(Pat->getLocation());
    J::Array B;
    for (auto &Bs : R->bases()) {
      J::Object BO;
      BO["t"] = ty(Bs.getType());
      BO["virt"] = Bs.isVirtual();
      BO["access"] = (int64_t)Bs.getAccessSpecifier();
      B.push_back(std::move(BO));
    }
    O["bases"] = std::move(B);
    J::Array Fs;
    for (auto *F : R->fields()) {
      J::Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = ty(F->getType());
      FO["mutable"] = F->isMutable();
      FO["access"] = (int64_t)F->getAccess();
      FO["line"] = (int64_t)lineOf(F->getLocation());
      if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    J::Array Ms;
    for (auto *M : R->methods()) {
      if (M->isTemplated() && !M->isTemplateInstantiation()) continue;
      if (!M->isImplicit() || isa<CXXConstructorDecl>(M) || isa<CXXDestructorDecl>(M)) {
        J::Object MO;
        MO["fn"] = fn(M);
        MO["user"] = M->isUserProvided();
        MO["line"] = (int64_t)lineOf(M->getLocation());
        Ms.push_back(std::move(MO));
      }
    }
    O["methods"] = std::move(Ms);
    J::Array Fr;
    for (auto *F : R->friends()) {
      if (auto *TS = F->getFriendType()) Fr.push_back(TS->getType().getCanonicalType().getAsString(PP));
      else if (auto *ND = F->getFriendDecl()) Fr.push_back(qn(ND) + "()");
    }
    O["friends"] = std::move(Fr);
    O["abstract"] = R->isAbstract();
    O["poly"] = R->isPolymorphic();
    O["final"] = R->isEffectivelyFinal();
    auto *D = R->getDestructor();
    O["vdtor"] = D && D->isVirtual();
    O["ddtor"] = D && D->isDeleted();
    O["dtoraccess"] = D ? (int64_t)D->getAccess() : 0;
    Records.push_back(std::move(O));
    return true;
  }

  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isComplete() || !inRoot(E->getLocation()) || E->isDependentContext()) return true;
    if (!SeenEnum.insert(E->getCanonicalDecl()).second) return true;
    J::Object O;
    O["qn"] = qn(E);
    J::Array A;
    for (auto *X : E->enumerators()) A.push_back(qn(X));
    O["consts"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    J::Object O;
    O["qn"] = qn(V);
    O["t"] = ty(V->getType());
    O["file"] = fileOf(V->getLocation());
    O["line"] = (int64_t)lineOf(V->getLocation());
    O["local"] = V->isStaticLocal();
    O["constexpr"] = V->isConstexpr();
    O["tls"] = V->getTSCSpec() != TSCS_unspecified;
    if (V->isThisDeclarationADefinition() && V->getInit()) O["init"] = expr(V->getInit());
    Globals.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    bool Err = C.getDiagnostics().hasErrorOccurred();
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    J::Object O;
    O["error"] = Err;
    O["types"] = std::move(D.Types);
    O["funcs"] = std::move(D.Funcs);
    O["records"] = std::move(D.Records);
    O["defs"] = std::move(D.Defs);
    O["globals"] = std::move(D.Globals);
    O["enums"] = std::move(D.Enums);
    auto &SM = C.getSourceManager();
    if (auto FE = SM.getFileEntryRefForID(SM.getMainFileID())) O["main"] = FE->getName().str();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << J::Value(std::move(O));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

struct Factory : public tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

} // namespace

// usage: extract ROOT OUT.json SOURCE -- clang args...
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT SOURCE -- args\n"; return 2; }
  Root = argv[1];
  OutPath = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Args;
  for (int I = 5; I < argc; ++I) Args.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {Src});
  Factory F;
  return Tool.run(&F);
}
