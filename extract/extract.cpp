// irx: lowers every function of /repo that a translation unit sees (template
// instantiations and implicit members included) to a compact, type-resolved
// JSON tree.  One line of JSON per entity on stdout.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

struct Lower {
  ASTContext &C;
  std::map<const Decl *, int> LocalIds;
  std::map<const void *, int> TypeIds;
  json::Array Types;
  std::set<std::string> ExtRecs;
  Lower(ASTContext &C) : C(C) {}

  std::string file(SourceLocation L) {
    L = C.getSourceManager().getExpansionLoc(L);
    PresumedLoc P = C.getSourceManager().getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  std::string loc(SourceLocation L) {
    L = C.getSourceManager().getExpansionLoc(L);
    PresumedLoc P = C.getSourceManager().getPresumedLoc(L);
    if (P.isInvalid()) return "?";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }
  int line(SourceLocation L) {
    L = C.getSourceManager().getExpansionLoc(L);
    PresumedLoc P = C.getSourceManager().getPresumedLoc(L);
    return P.isValid() ? (int)P.getLine() : 0;
  }
  bool inRepo(SourceLocation L) {
    std::string F = file(L);
    for (auto &R : Roots)
      if (F.rfind(R, 0) == 0) return true;
    return false;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "?";
    return std::string(B);
  }
  // qualified name without template arguments
  std::string qname(const NamedDecl *D) {
    std::vector<std::string> Parts;
    Parts.push_back(D->getDeclName().isIdentifier() ? D->getName().str() : D->getNameAsString());
    if (isa<CXXConstructorDecl>(D)) Parts[0] = "<ctor>";
    else if (isa<CXXDestructorDecl>(D)) Parts[0] = "<dtor>";
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline() && !N->isAnonymousNamespace()) Parts.push_back(N->getName().str());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        Parts.push_back(R->getName().str());
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        Parts.push_back(F->getNameAsString());
      }
      DC = DC->getParent();
    }
    std::string S;
    for (auto I = Parts.rbegin(); I != Parts.rend(); ++I) {
      if (!S.empty()) S += "::";
      S += *I;
    }
    return S;
  }
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    const void *Key = CT.getAsOpaquePtr();
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end()) return It->second;
    int Id = Types.size();
    TypeIds[Key] = Id;
    Types.push_back(nullptr);
    json::Object O;
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressTagKeyword = true;
    O["s"] = CT.getAsString(PP);
    if (CT.isConstQualified()) O["const"] = true;
    const Type *P = CT.getTypePtr();
    if (auto *R = dyn_cast<ReferenceType>(P)) {
      O["k"] = isa<RValueReferenceType>(P) ? "rref" : "ref";
      O["to"] = typeId(R->getPointeeType());
    } else if (auto *R = dyn_cast<PointerType>(P)) {
      O["k"] = "ptr";
      O["to"] = typeId(R->getPointeeType());
    } else if (auto *R = dyn_cast<MemberPointerType>(P)) {
      O["k"] = "ptr";
      O["to"] = typeId(R->getPointeeType());
    } else if (P->isBooleanType()) {
      O["k"] = "bool";
    } else if (auto *E = dyn_cast<EnumType>(P)) {
      O["k"] = "enum";
      O["qn"] = qname(E->getDecl());
      O["bits"] = (int64_t)C.getTypeSize(CT);
      O["signed"] = P->isSignedIntegerOrEnumerationType();
    } else if (P->isIntegerType()) {
      O["k"] = "int";
      O["bits"] = (int64_t)C.getTypeSize(CT);
      O["signed"] = P->isSignedIntegerType();
    } else if (P->isFloatingType()) {
      O["k"] = "float";
    } else if (P->isVoidType()) {
      O["k"] = "void";
    } else if (auto *A = dyn_cast<ConstantArrayType>(P)) {
      O["k"] = "arr";
      O["to"] = typeId(A->getElementType());
      O["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *A = dyn_cast<ArrayType>(P)) {
      O["k"] = "arr";
      O["to"] = typeId(A->getElementType());
      O["n"] = -1;
    } else if (auto *RT = dyn_cast<RecordType>(P)) {
      const RecordDecl *RD = RT->getDecl();
      O["k"] = "rec";
      O["qn"] = qname(RD);
      O["usr"] = usr(RD);
      O["repo"] = inRepo(RD->getLocation());
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        json::Array As;
        addArgs(As, S->getTemplateArgs().asArray());
        O["args"] = std::move(As);
      }
    } else if (isa<FunctionType>(P)) {
      O["k"] = "func";
    } else if (P->isNullPtrType()) {
      O["k"] = "nullptr";
    } else {
      O["k"] = "other";
    }
    Types[Id] = std::move(O);
    return Id;
  }
  void addArgs(json::Array &As, llvm::ArrayRef<TemplateArgument> L) {
    for (auto &A : L) {
      if (A.getKind() == TemplateArgument::Type)
        As.push_back(typeId(A.getAsType()));
      else if (A.getKind() == TemplateArgument::Integral)
        As.push_back(json::Object{{"i", std::string(llvm::toString(A.getAsIntegral(), 10))}});
      else if (A.getKind() == TemplateArgument::Pack)
        addArgs(As, A.pack_elements());
      else
        As.push_back(nullptr);
    }
  }
  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    int I = LocalIds.size();
    LocalIds[D] = I;
    return I;
  }
  static bool isLocalVar(const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) return V->isLocalVarDeclOrParm() && !V->isStaticLocal() && !V->hasExternalStorage();
    return isa<BindingDecl>(D);
  }

  json::Value exprOrNull(const Expr *E) {
    if (!E) return nullptr;
    return expr(E);
  }
  json::Object mk(const char *K, const Expr *E) {
    json::Object O;
    O["k"] = K;
    O["t"] = typeId(E->getType());
    O["l"] = line(E->getExprLoc());
    if (E->isGLValue()) O["lv"] = true;
    return O;
  }
  void fillCallee(json::Object &O, const FunctionDecl *F) {
    if (!F) return;
    O["fn"] = usr(F);
    O["qn"] = qname(F);
    O["repo"] = inRepo(F->getLocation());
    O["ft"] = typeId(F->getType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["cm"] = true;
      O["rec"] = typeId(C.getRecordType(M->getParent()));
      if (M->isDefaulted()) O["defaulted"] = true;
    }
    json::Array PT;
    for (auto *P : F->parameters()) PT.push_back(typeId(P->getType()));
    O["pt"] = std::move(PT);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array As;
      addArgs(As, TA->asArray());
      O["ta"] = std::move(As);
    }
  }
  json::Array args(const Expr *const *B, unsigned N) {
    json::Array A;
    for (unsigned I = 0; I < N; I++) A.push_back(expr(B[I]));
    return A;
  }
  json::Value expr(const Expr *E) {
    // fold integral constants
    if (!E->isValueDependent() && !E->isTypeDependent() && !E->isGLValue() &&
        E->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        if (R.Val.isInt()) {
          json::Object O = mk("int", E);
          O["v"] = std::string(llvm::toString(R.Val.getInt(), 10));
          return O;
        }
      }
    }
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      json::Object O = mk("mat", E);
      O["c"] = json::Array{expr(X->getSubExpr())};
      return O;
    }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      json::Object O = mk("stdinit", E);
      O["c"] = json::Array{expr(X->getSubExpr())};
      return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      json::Object O = mk("int", E);
      O["v"] = std::string(llvm::toString(llvm::APSInt(X->getValue()), 10));
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      json::Object O = mk("str", E);
      std::string H;
      static const char *HX = "0123456789abcdef";
      for (unsigned char Ch : X->getBytes()) { H += HX[Ch >> 4]; H += HX[Ch & 15]; }
      O["hex"] = H;
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E);
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { json::Object O = mk("float", E); O["v"] = X->getValueAsApproximateDouble(); return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      json::Object O = mk("ref", E);
      const ValueDecl *D = X->getDecl();
      O["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["r"] = "func";
        fillCallee(O, F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["r"] = "enumc";
        O["v"] = std::string(llvm::toString(EC->getInitVal(), 10));
      } else if (isa<FieldDecl>(D)) {
        O["r"] = "field";
      } else if (isLocalVar(D)) {
        O["r"] = "local";
        O["id"] = localId(D);
        if (isa<BindingDecl>(D)) O["binding"] = true;
      } else {
        O["r"] = "global";
        O["usr"] = usr(D);
        O["qn"] = qname(D);
        O["repo"] = inRepo(D->getLocation());
      }
      return O;
    }
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        json::Object O = mk("mem", E);
        O["n"] = F->getNameAsString();
        if (F->getNameAsString().empty()) O["n"] = std::string("#anon") + std::to_string(F->getFieldIndex());
        O["own"] = typeId(C.getRecordType(F->getParent()));
        O["arrow"] = X->isArrow();
        O["c"] = json::Array{expr(X->getBase())};
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        json::Object O = mk("ref", E);
        O["n"] = V->getNameAsString();
        O["r"] = "global";
        O["usr"] = usr(V);
        O["qn"] = qname(V);
        O["repo"] = inRepo(V->getLocation());
        return O;
      }
      json::Object O = mk("memfn", E);
      O["arrow"] = X->isArrow();
      O["c"] = json::Array{expr(X->getBase())};
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) fillCallee(O, F);
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object O = mk("call", E);
      const FunctionDecl *F = X->getDirectCallee();
      fillCallee(O, F);
      auto A = args(X->getArgs(), X->getNumArgs());
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        json::Array R;
        O["obj"] = std::move(A[0]);
        for (size_t I = 1; I < A.size(); I++) R.push_back(std::move(A[I]));
        O["c"] = std::move(R);
      } else
        O["c"] = std::move(A);
      O["op"] = getOperatorSpelling(X->getOperator());
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Object O = mk("call", E);
      fillCallee(O, X->getMethodDecl());
      const Expr *Callee = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(Callee)) {
        O["obj"] = expr(ME->getBase());
        O["arrow"] = ME->isArrow();
        if (X->getMethodDecl() && X->getMethodDecl()->isVirtual() && !ME->hasQualifier()) O["virt"] = true;
      } else
        O["dyn"] = expr(Callee);
      O["c"] = args(X->getArgs(), X->getNumArgs());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      json::Object O = mk("call", E);
      const FunctionDecl *F = X->getDirectCallee();
      fillCallee(O, F);
      if (F && isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isStatic()) O["static"] = true;
      if (!F) O["dyn"] = expr(X->getCallee());
      O["c"] = args(X->getArgs(), X->getNumArgs());
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      json::Object O = mk("ctor", E);
      fillCallee(O, X->getConstructor());
      O["inhfwd"] = true;
      O["c"] = json::Array{};
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      json::Object O = mk("ctor", E);
      fillCallee(O, X->getConstructor());
      if (X->getConstructor()->isCopyConstructor()) O["copy"] = true;
      if (X->getConstructor()->isMoveConstructor()) O["move"] = true;
      if (X->getConstructor()->isDefaultConstructor()) O["dflt"] = true;
      if (X->isElidable()) O["elide"] = true;
      if (X->isStdInitListInitialization()) O["stdlist"] = true;
      if (X->getConstructor()->isImplicit()) O["implicit"] = true;
      if (X->getConstructor()->isInheritingConstructor()) O["inh"] = usr(X->getConstructor()->getInheritedConstructor().getConstructor());
      O["c"] = args(X->getArgs(), X->getNumArgs());
      return O;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) return mk("zero", E);
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) return mk("zero", E);
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      json::Object O = mk("new", E);
      O["of"] = typeId(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) O["n"] = exprOrNull(*X->getArraySize());
      if (X->hasInitializer()) O["init"] = expr(X->getInitializer());
      O["place"] = (int)X->getNumPlacementArgs();
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      json::Object O = mk("delete", E);
      O["array"] = X->isArrayForm();
      O["of"] = typeId(X->getDestroyedType());
      O["c"] = json::Array{expr(X->getArgument())};
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      json::Object O = mk("un", E);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      if (X->isPostfix()) O["post"] = true;
      O["c"] = json::Array{expr(X->getSubExpr())};
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      json::Object O = mk("cassign", E);
      O["op"] = BinaryOperator::getOpcodeStr(X->getOpcode());
      O["ct"] = typeId(X->getComputationResultType());
      O["clt"] = typeId(X->getComputationLHSType());
      O["c"] = json::Array{expr(X->getLHS()), expr(X->getRHS())};
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      json::Object O = mk(X->getOpcode() == BO_Assign ? "assign" : "bin", E);
      O["op"] = BinaryOperator::getOpcodeStr(X->getOpcode());
      O["c"] = json::Array{expr(X->getLHS()), expr(X->getRHS())};
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      json::Object O = mk("cond", E);
      O["c"] = json::Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())};
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object O = mk("index", E);
      O["c"] = json::Array{expr(X->getBase()), expr(X->getIdx())};
      return O;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
        return expr(X->getSubExpr());
      default: break;
      }
      json::Object O = mk("cast", E);
      O["ck"] = X->getCastKindName();
      if (isa<ExplicitCastExpr>(E)) O["explicit"] = true;
      if (isa<CXXConstCastExpr>(E)) O["constcast"] = true;
      O["c"] = json::Array{expr(X->getSubExpr())};
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      json::Object O = mk("ilist", E);
      json::Array A;
      for (auto *I : S->inits()) A.push_back(exprOrNull(I));
      O["c"] = std::move(A);
      if (S->hasArrayFiller()) O["filler"] = exprOrNull(S->getArrayFiller());
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Object O = mk("lambda", E);
      json::Array Caps;
      auto FI = X->getLambdaClass()->field_begin();
      for (auto CI = X->capture_begin(); CI != X->capture_end(); ++CI) {
        json::Object CO;
        if (CI->capturesThis()) { CO["this"] = true; CO["byref"] = CI->getCaptureKind() == LCK_This; }
        else if (CI->capturesVariable()) {
          CO["id"] = localId(CI->getCapturedVar());
          CO["byref"] = CI->getCaptureKind() == LCK_ByRef;
          CO["n"] = CI->getCapturedVar()->getNameAsString();
        }
        Caps.push_back(std::move(CO));
      }
      (void)FI;
      O["caps"] = std::move(Caps);
      json::Array InitsA;
      for (auto I = X->capture_init_begin(); I != X->capture_init_end(); ++I) InitsA.push_back(exprOrNull(*I));
      O["capinit"] = std::move(InitsA);
      if (auto *Op = X->getCallOperator()) {
        json::Array Ps;
        for (auto *P : Op->parameters()) Ps.push_back(json::Object{{"id", localId(P)}, {"n", P->getNameAsString()}, {"t", typeId(P->getType())}});
        O["params"] = std::move(Ps);
        O["rt"] = typeId(Op->getReturnType());
        if (Op->isDependentContext()) {
          O["generic"] = true;
          json::Array Sp;
          if (auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator())
            for (auto *F : FT->specializations()) {
              const FunctionDecl *Def = nullptr;
              if (!F->hasBody(Def) || F->isDependentContext()) continue;
              json::Array P2;
              for (auto *P : Def->parameters()) P2.push_back(json::Object{{"id", localId(P)}, {"n", P->getNameAsString()}, {"t", typeId(P->getType())}});
              json::Object S2;
              S2["fn"] = usr(F);
              S2["params"] = std::move(P2);
              S2["rt"] = typeId(Def->getReturnType());
              S2["body"] = stmt(Def->getBody());
              Sp.push_back(std::move(S2));
            }
          O["specs"] = std::move(Sp);
        }
        else O["body"] = stmt(X->getBody());
      }
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      json::Object O = mk("throw", E);
      if (X->getSubExpr()) O["c"] = json::Array{expr(X->getSubExpr())};
      return O;
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      json::Object O = mk("arrcopy", E);
      O["c"] = json::Array{expr(X->getCommonExpr()->getSourceExpr())};
      return O;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
    }
    if (auto *X = dyn_cast<StmtExpr>(E)) {
      json::Object O = mk("stmtexpr", E);
      O["body"] = stmt(X->getSubStmt());
      return O;
    }
    json::Object O = mk("unsup", E);
    O["cls"] = E->getStmtClassName();
    json::Array A;
    for (auto *S : E->children())
      if (S) { if (auto *SE = dyn_cast<Expr>(S)) A.push_back(expr(SE)); }
    O["c"] = std::move(A);
    return O;
  }

  json::Object varDecl(const VarDecl *V) {
    json::Object O;
    O["n"] = V->getNameAsString();
    O["t"] = typeId(V->getType());
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal() || V->hasExternalStorage()) {
      O["static"] = true;
      O["usr"] = usr(V);
    } else
      O["id"] = localId(V);
    if (V->hasInit()) O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array Bs;
      for (auto *B : DD->bindings()) {
        json::Object BO{{"id", localId(B)}, {"n", B->getNameAsString()}, {"t", typeId(B->getType())}};
        if (auto *HV = B->getHoldingVar()) { BO["hv"] = localId(HV); if (HV->hasInit()) BO["init"] = expr(HV->getInit()); BO["hvt"] = typeId(HV->getType()); }
        else if (B->getBinding()) BO["expr"] = expr(B->getBinding());
        Bs.push_back(std::move(BO));
      }
      O["bindings"] = std::move(Bs);
    }
    return O;
  }
  json::Object mkS(const char *K, const Stmt *S) {
    json::Object O;
    O["k"] = K;
    O["l"] = line(S->getBeginLoc());
    return O;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<Expr>(S)) {
      json::Object O = mkS("expr", S);
      O["e"] = expr(X);
      return O;
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      json::Object O = mkS("block", S);
      json::Array A;
      for (auto *I : X->body()) A.push_back(stmt(I));
      O["c"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      json::Object O = mkS("decl", S);
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["vars"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      json::Object O = mkS("if", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      O["cond"] = exprOrNull(X->getCond());
      O["then"] = stmt(X->getThen());
      O["else"] = stmt(X->getElse());
      O["el"] = line(X->getEndLoc());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      json::Object O = mkS("while", S);
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      O["cond"] = exprOrNull(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      json::Object O = mkS("do", S);
      O["cond"] = exprOrNull(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      json::Object O = mkS("for", S);
      O["init"] = stmt(X->getInit());
      O["cond"] = exprOrNull(X->getCond());
      O["inc"] = exprOrNull(X->getInc());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object O = mkS("rangefor", S);
      O["init"] = stmt(X->getInit());
      O["range"] = exprOrNull(X->getRangeInit());
      O["var"] = varDecl(X->getLoopVariable());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      json::Object O = mkS("return", S);
      O["e"] = exprOrNull(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S)) return mkS("break", S);
    if (isa<ContinueStmt>(S)) return mkS("continue", S);
    if (isa<NullStmt>(S)) return mkS("null", S);
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      json::Object O = mkS("switch", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      O["cond"] = exprOrNull(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      json::Object O = mkS("case", S);
      O["v"] = exprOrNull(X->getLHS());
      if (X->getRHS()) O["v2"] = exprOrNull(X->getRHS());
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      json::Object O = mkS("default", S);
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      json::Object O = mkS("try", S);
      O["body"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); I++) {
        json::Object HO;
        HO["body"] = stmt(X->getHandler(I)->getHandlerBlock());
        if (auto *V = X->getHandler(I)->getExceptionDecl()) HO["var"] = varDecl(V);
        H.push_back(std::move(HO));
      }
      O["handlers"] = std::move(H);
      return O;
    }
    if (isa<AsmStmt>(S)) {
      json::Object O = mkS("asm", S);
      if (auto *G = dyn_cast<GCCAsmStmt>(S)) O["outs"] = (int)G->getNumOutputs();
      return O;
    }
    json::Object O = mkS("unsup", S);
    O["cls"] = S->getStmtClassName();
    return O;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Lower L;
  std::set<std::string> SeenF, SeenR, SeenG, SeenE;
  std::set<std::string> SeenProto;
  CompilerInstance &CI;
  V(ASTContext &C, CompilerInstance &CI) : L(C), CI(CI) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  void out(json::Object O) { llvm::outs() << json::Value(std::move(O)) << "\n"; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->getType()->isDependentType()) return true;
    if (!L.inRepo(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string U = L.usr(F);
    bool Body = F->doesThisDeclarationHaveABody();
    json::Object O;
    O["e"] = Body ? "fn" : "proto";
    O["usr"] = U;
    O["qn"] = L.qname(F);
    O["loc"] = L.loc(F->getLocation());
    O["rt"] = L.typeId(F->getReturnType());
    O["ft"] = L.typeId(F->getType());
    O["inline"] = F->isInlined();
    O["static"] = F->getStorageClass() == SC_Static || (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isStatic());
    O["linkage"] = F->hasExternalFormalLinkage() ? "ext" : "int";
    O["inst"] = F->isTemplateInstantiation();
    O["implicit"] = F->isImplicit();
    O["deleted"] = F->isDeleted();
    O["defaulted"] = F->isDefaulted();
    O["pure"] = F->isPureVirtual();
    O["noret"] = F->isNoReturn();
    json::Array Ps;
    for (auto *P : F->parameters())
      Ps.push_back(json::Object{{"id", L.localId(P)}, {"n", P->getNameAsString()}, {"t", L.typeId(P->getType())}});
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virtual"] = true;
      O["rec"] = L.typeId(L.C.getRecordType(M->getParent()));
      O["const"] = M->isConst();
      O["access"] = (int)M->getAccess();
      O["method"] = true;
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = true;
        O["copyctor"] = K->isCopyConstructor();
        O["movector"] = K->isMoveConstructor();
        O["dfltctor"] = K->isDefaultConstructor();
        if (Body) {
          json::Array Is;
          for (auto *I : K->inits()) {
            json::Object IO;
            if (I->isBaseInitializer()) { IO["base"] = L.typeId(QualType(I->getBaseClass(), 0)); }
            else if (I->isDelegatingInitializer()) IO["deleg"] = true;
            else if (I->isAnyMemberInitializer()) {
              const FieldDecl *FD = I->getAnyMember();
              IO["m"] = FD->getNameAsString();
              IO["mt"] = L.typeId(FD->getType());
            }
            IO["written"] = I->isWritten();
            IO["init"] = L.expr(I->getInit());
            Is.push_back(std::move(IO));
          }
          O["inits"] = std::move(Is);
        }
        if (K->isInheritingConstructor()) O["inh"] = L.usr(K->getInheritedConstructor().getConstructor());
      }
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      O["copyasg"] = M->isCopyAssignmentOperator();
      O["moveasg"] = M->isMoveAssignmentOperator();
    }
    if (Body) {
      if (!SeenF.insert(U).second) return true;
      O["body"] = L.stmt(F->getBody());
    } else {
      if (!SeenProto.insert(U + L.loc(F->getLocation())).second) return true;
    }
    out(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !L.inRepo(R->getLocation()) || R->isLambda()) return true;
    std::string U = L.usr(R);
    if (!SeenR.insert(U).second) return true;
    json::Object O;
    O["e"] = "rec";
    O["usr"] = U;
    O["qn"] = L.qname(R);
    O["loc"] = L.loc(R->getLocation());
    O["t"] = L.typeId(L.C.getRecordType(R));
    json::Array Fs, Bs;
    for (auto &B : R->bases()) Bs.push_back(L.typeId(B.getType()));
    for (auto *F : R->fields()) {
      json::Object FO{{"n", F->getNameAsString()}, {"t", L.typeId(F->getType())}, {"access", (int)F->getAccess()}, {"mutable", F->isMutable()}, {"l", L.line(F->getLocation())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = L.expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    O["bases"] = std::move(Bs);
    O["copyctor_user"] = R->hasUserDeclaredCopyConstructor();
    O["copyasg_user"] = R->hasUserDeclaredCopyAssignment();
    O["movector_user"] = R->hasUserDeclaredMoveConstructor();
    O["dtor_user"] = R->hasUserDeclaredDestructor();
    O["copyctor_usable"] = !R->defaultedCopyConstructorIsDeleted();
    bool CD = false, AD = false;
    for (auto *K : R->ctors()) if (K->isCopyConstructor() && K->isDeleted()) CD = true;
    for (auto *M : R->methods()) if (M->isCopyAssignmentOperator() && M->isDeleted()) AD = true;
    O["copyctor_deleted"] = CD;
    O["copyasg_deleted"] = AD;
    out(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->isLocalVarDeclOrParm() && !D->isStaticLocal()) return true;
    if (D->getDeclContext()->isDependentContext() || D->getType()->isDependentType()) return true;
    if (!L.inRepo(D->getLocation())) return true;
    std::string U = L.usr(D);
    bool Def = D->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (!SeenG.insert(U + (Def ? "D" : "d")).second) return true;
    json::Object O;
    O["e"] = "var";
    O["usr"] = U;
    O["qn"] = L.qname(D);
    O["def"] = Def;
    O["loc"] = L.loc(D->getLocation());
    O["t"] = L.typeId(D->getType());
    O["linkage"] = D->hasExternalFormalLinkage() ? "ext" : "int";
    O["staticlocal"] = D->isStaticLocal();
    O["inst"] = D->getTemplateSpecializationKind() != TSK_Undeclared;
    O["hasinit"] = D->getAnyInitializer() != nullptr;
    O["inline"] = D->isInline();
    if (Def && D->hasInit()) {
      O["init"] = L.expr(D->getInit());
    }
    out(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!L.inRepo(D->getLocation()) || !D->isCompleteDefinition()) return true;
    if (!SeenE.insert(L.usr(D)).second) return true;
    json::Object O{{"e", "enum"}, {"qn", L.qname(D)}};
    json::Array A;
    for (auto *E : D->enumerators()) A.push_back(json::Object{{"n", E->getNameAsString()}, {"v", std::string(llvm::toString(E->getInitVal(), 10))}});
    O["c"] = std::move(A);
    out(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;
public:
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    V X(C, CI);
    X.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O{{"e", "types"}, {"types", std::move(X.L.Types)}};
    X.out(std::move(O));
    json::Object D{{"e", "diag"}, {"errors", (int64_t)CI.getDiagnostics().getClient()->getNumErrors()}};
    X.out(std::move(D));
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, char **argv) {
  // irx ROOT[:ROOT...] FILE -- FLAGS...
  std::string R = argv[1], Cur;
  for (char c : R + ":") { if (c == ':') { if (!Cur.empty()) Roots.push_back(Cur); Cur.clear(); } else Cur += c; }
  std::vector<std::string> Flags;
  for (int I = 4; I < argc; I++) Flags.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB("/", Flags);
  tooling::ClangTool T(DB, {argv[2]});
  class F : public tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } Fac;
  return T.run(&Fac);
}
