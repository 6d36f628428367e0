// argos_facts: a libTooling front end that writes down the *resolved* program
// of one translation unit as JSON: classes, enums, and for every function
// defined in the repository its control-flow graph with typed expression
// nodes (callees, fields, enumerators and constants resolved by clang).
//
// usage: argos_facts OUT.json ROOT FILE -- <compiler flags>
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string OutPath, Root;

namespace {

class Extractor : public RecursiveASTVisitor<Extractor> {
public:
  explicit Extractor(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.AnonymousTagLocations = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  json::Array Functions, Classes, Enums, Globals;

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    return llvm::StringRef(F).starts_with(Root);
  }
  unsigned lineOf(SourceLocation L) {
    return SM.getExpansionLineNumber(L);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return S;
  }

  std::map<const Decl *, std::string> Ids;
  std::map<std::string, int> Used;
  std::string idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    llvm::SmallString<128> Buf;
    std::string S;
    if (!index::generateUSRForDecl(D, Buf)) S = std::string(Buf.str());
    else S = "nousr@" + fileOf(D->getLocation()) + ":" +
             std::to_string(SM.getFileOffset(SM.getExpansionLoc(D->getLocation())));
    int N = Used[S]++;
    if (N) S += "#" + std::to_string(N);
    Ids[D] = S;
    return S;
  }
  std::map<const Decl *, int> VarIds;
  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    int N = (int)VarIds.size() + 1;
    VarIds[D] = N;
    return N;
  }

  json::Object fnRef(const FunctionDecl *F) {
    json::Object O;
    O["id"] = idOf(F);
    O["q"] = qname(F);
    O["n"] = F->getNameAsString();
    O["t"] = ty(F->getReturnType());
    const FunctionDecl *Def = nullptr;
    bool Has = F->hasBody(Def) ;
    O["repo"] = inRepo(F->getLocation());
    if (Has && Def) O["body"] = inRepo(Def->getLocation());
    if (F->isNoReturn()) O["noreturn"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qname(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virtual"] = true;
      if (M->isCopyAssignmentOperator()) O["asg"] = "copy";
      if (M->isMoveAssignmentOperator()) O["asg"] = "move";
      if (M->isDefaulted()) O["defaulted"] = true;
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = C->isCopyConstructor() ? "copy"
                    : C->isMoveConstructor() ? "move"
                    : C->isDefaultConstructor() ? "default" : "other";
      }
      if (isa<CXXConversionDecl>(M)) O["conv"] = true;
    }
    json::Array PT;
    for (auto *P : F->parameters()) PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (unsigned I = 0; I < TA->size(); ++I) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        TA->get(I).print(PP, OS, true);
        A.push_back(S);
      }
      O["ta"] = std::move(A);
    }
    return O;
  }

  // ---- per function state ----
  json::Object *Nodes = nullptr;
  std::map<const Stmt *, int> NodeIds;
  int NextNode = 1;

  json::Array nodeList(llvm::ArrayRef<const Expr *> Es) {
    json::Array A;
    for (auto *E : Es) A.push_back(node(E));
    return A;
  }

  int passNode(const Stmt *S, const Expr *Sub, const char *Why) {
    int Id = newId(S);
    json::Object O;
    O["k"] = "pass";
    O["w"] = Why;
    O["x"] = node(Sub);
    finish(Id, S, O);
    return Id;
  }
  int newId(const Stmt *S) {
    int Id = NextNode++;
    NodeIds[S] = Id;
    return Id;
  }
  void finish(int Id, const Stmt *S, json::Object &O) {
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
      if (E->isGLValue()) O["lv"] = true;
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
          llvm::SmallString<24> Str;
          R.Val.getInt().toString(Str, 10);
          O["cv"] = std::string(Str.str());
        }
      }
    }
    O["l"] = (int)lineOf(S->getBeginLoc());
    (*Nodes)[std::to_string(Id)] = std::move(O);
  }

  int node(const Stmt *S) {
    if (!S) return 0;
    auto It = NodeIds.find(S);
    if (It != NodeIds.end()) return It->second;

    if (auto *P = dyn_cast<ParenExpr>(S)) return passNode(S, P->getSubExpr(), "paren");
    if (auto *P = dyn_cast<FullExpr>(S)) return passNode(S, P->getSubExpr(), "full");
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) return passNode(S, P->getSubExpr(), "mat");
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) return passNode(S, P->getSubExpr(), "bind");
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return passNode(S, P->getReplacement(), "subst");
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(S)) return passNode(S, P->getExpr(), "defarg");
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(S)) return passNode(S, P->getExpr(), "definit");
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(S)) return passNode(S, P->getSubExpr(), "stdinit");
    if (auto *P = dyn_cast<OpaqueValueExpr>(S)) {
      if (P->getSourceExpr()) return passNode(S, P->getSourceExpr(), "opaque");
    }

    int Id = newId(S);
    json::Object O;
    if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      O["k"] = "int"; llvm::SmallString<24> Str; E->getValue().toStringUnsigned(Str); O["v"] = std::string(Str.str());
    } else if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      O["k"] = "int"; O["v"] = std::to_string(E->getValue());
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["k"] = "int"; O["v"] = E->getValue() ? "1" : "0";
    } else if (isa<FloatingLiteral>(S)) {
      O["k"] = "float";
    } else if (auto *E = dyn_cast<StringLiteral>(S)) {
      O["k"] = "str"; 
      std::string V; 
      for (unsigned i = 0; i < E->getLength(); ++i) { auto c = E->getCodeUnit(i); V.push_back(c < 128 ? (char)c : '?'); }
      O["v"] = V;
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      O["k"] = "null";
    } else if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      declRef(E->getDecl(), O);
    } else if (isa<CXXThisExpr>(S)) {
      O["k"] = "this";
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      if (auto *F = dyn_cast<FieldDecl>(E->getMemberDecl())) {
        O["k"] = "mem"; O["f"] = F->getNameAsString(); O["cls"] = qname(F->getParent());
        O["b"] = node(E->getBase()); if (E->isArrow()) O["arrow"] = true;
        if (F->isMutable()) O["mut"] = true;
      } else if (auto *M = dyn_cast<CXXMethodDecl>(E->getMemberDecl())) {
        O["k"] = "memfn"; O["fn"] = fnRef(M); O["b"] = node(E->getBase());
        if (E->isArrow()) O["arrow"] = true;
      } else {
        declRef(E->getMemberDecl(), O);
      }
    } else if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      O["k"] = "call";
      O["op"] = getOperatorSpelling(E->getOperator());
      auto *F = E->getDirectCallee();
      unsigned Start = 0;
      if (F) {
        O["fn"] = fnRef(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
          if (!M->isStatic()) { O["obj"] = node(E->getArg(0)); }
          Start = 1;
          if (M->isStatic()) Start = 1;
        }
      }
      json::Array A;
      for (unsigned I = Start; I < E->getNumArgs(); ++I) A.push_back(node(E->getArg(I)));
      O["args"] = std::move(A);
    } else if (auto *E = dyn_cast<CXXRewrittenBinaryOperator>(S)) {
      O["k"] = "pass"; O["w"] = "rewritten"; O["x"] = node(E->getSemanticForm());
    } else if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      O["k"] = "call";
      if (auto *M = E->getMethodDecl()) O["fn"] = fnRef(M);
      if (auto *B = E->getImplicitObjectArgument()) {
        O["obj"] = node(B);
        if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) O["arrow"] = true;
          if (ME->hasQualifier()) O["nonvirt"] = true;
        }
      }
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(node(X));
      O["args"] = std::move(A);
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      O["k"] = "call";
      if (auto *F = E->getDirectCallee()) O["fn"] = fnRef(F);
      else O["cal"] = node(E->getCallee());
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(node(X));
      O["args"] = std::move(A);
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "ctor";
      O["fn"] = fnRef(E->getConstructor());
      O["cls"] = qname(E->getConstructor()->getParent());
      if (E->isElidable()) O["elide"] = true;
      if (E->isListInitialization()) O["list"] = true;
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(node(X));
      O["args"] = std::move(A);
    } else if (auto *E = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      O["k"] = "other"; (void)E;
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) O["post"] = true;
      O["x"] = node(E->getSubExpr());
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      if (E->isAssignmentOp()) { O["k"] = "asg"; }
      else O["k"] = "bin";
      O["op"] = E->getOpcodeStr().str();
      O["a"] = node(E->getLHS()); O["b"] = node(E->getRHS());
    } else if (auto *E = dyn_cast<AbstractConditionalOperator>(S)) {
      O["k"] = "cond"; O["c"] = node(E->getCond()); O["a"] = node(E->getTrueExpr()); O["b"] = node(E->getFalseExpr());
    } else if (auto *E = dyn_cast<CastExpr>(S)) {
      O["k"] = "cast"; O["ck"] = E->getCastKindName(); O["x"] = node(E->getSubExpr());
      if (!isa<ImplicitCastExpr>(E)) { O["expl"] = true; O["cast"] = E->getStmtClassName(); }
      if (E->getCastKind() == CK_UserDefinedConversion)
        if (auto *F = dyn_cast_or_null<FunctionDecl>(E->getConversionFunction())) O["fn"] = fnRef(F);
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      O["k"] = "lambda";
      auto *C = E->getLambdaClass();
      O["cls"] = idOf(C);
      if (auto *CO = E->getCallOperator()) {
        O["call"] = idOf(CO);
        if (auto *FT = CO->getDescribedFunctionTemplate()) {
          json::Array Sp;
          for (auto *S : FT->specializations()) Sp.push_back(idOf(S));
          O["calls"] = std::move(Sp);
        }
      }
      json::Array Caps;
      auto InitIt = E->capture_init_begin();
      for (auto &Cp : E->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) CO["kind"] = Cp.getCaptureKind() == LCK_StarThis ? "starthis" : "this";
        else if (Cp.capturesVariable()) {
          auto *V = Cp.getCapturedVar();
          CO["kind"] = Cp.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          CO["d"] = varId(V); CO["n"] = V->getNameAsString();
          if (V->isInitCapture()) CO["initcap"] = true;
        } else CO["kind"] = "other";
        if (*InitIt) CO["x"] = node(*InitIt);
        ++InitIt;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
    } else if (auto *E = dyn_cast<CXXThrowExpr>(S)) {
      O["k"] = "throw";
      if (E->getSubExpr()) { O["x"] = node(E->getSubExpr()); O["tt"] = ty(E->getSubExpr()->getType()); }
    } else if (auto *E = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "ret"; if (E->getRetValue()) O["x"] = node(E->getRetValue());
    } else if (auto *E = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      json::Array Vs;
      for (auto *D : E->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) Vs.push_back(varDecl(V));
      }
      O["vars"] = std::move(Vs);
    } else if (auto *E = dyn_cast<InitListExpr>(S)) {
      auto *Sem = E->isSemanticForm() ? E : E->getSemanticForm();
      if (!Sem) Sem = E;
      O["k"] = "ilist";
      json::Array A;
      for (auto *X : *Sem) A.push_back(node(X));
      O["elems"] = std::move(A);
      if (auto *RT = Sem->getType()->getAs<RecordType>()) {
        json::Array Fs;
        for (auto *F : RT->getDecl()->fields()) Fs.push_back(F->getNameAsString());
        O["fields"] = std::move(Fs);
        O["cls"] = qname(RT->getDecl());
      }
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      O["k"] = "new"; if (E->getInitializer()) O["x"] = node(E->getInitializer());
      O["nt"] = ty(E->getAllocatedType());
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      O["k"] = "delete"; O["x"] = node(E->getArgument());
    } else if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) {
      O["k"] = "sub"; O["a"] = node(E->getBase()); O["b"] = node(E->getIdx());
    } else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
      O["k"] = "zero";
    } else if (isa<UnaryExprOrTypeTraitExpr>(S) || isa<TypeTraitExpr>(S)) {
      O["k"] = "const";
    } else if (auto *E = dyn_cast<PredefinedExpr>(S)) {
      O["k"] = "str"; O["v"] = E->getFunctionName() ? E->getFunctionName()->getString().str() : "";
    } else if (auto *E = dyn_cast<CXXTypeidExpr>(S)) {
      O["k"] = "other"; (void)E;
    } else if (auto *E = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "stmt"; O["s"] = "for-range"; (void)E;
    } else {
      O["k"] = "other"; O["s"] = S->getStmtClassName();
      json::Array A;
      if (isa<Expr>(S)) for (auto *C : S->children()) if (auto *CE = dyn_cast_or_null<Expr>(C)) A.push_back(node(CE));
      O["args"] = std::move(A);
    }
    finish(Id, S, O);
    return Id;
  }

  json::Object varDecl(const VarDecl *V) {
    json::Object VO;
    VO["d"] = varId(V); VO["n"] = V->getNameAsString(); VO["t"] = ty(V->getType());
    if (V->isStaticLocal()) VO["static"] = true;
    if (V->getInit()) VO["x"] = node(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array Bs;
      int I = 0;
      for (auto *B : DD->bindings()) {
        json::Object BO; BO["d"] = varId(B); BO["i"] = I++; BO["n"] = B->getNameAsString();
        if (auto *H = B->getHoldingVar()) { BO["hold"] = varId(H); BO["t"] = ty(H->getType()); }
        else if (B->getBinding()) {
          if (auto *ME = dyn_cast<MemberExpr>(B->getBinding()->IgnoreParenImpCasts())) BO["f"] = ME->getMemberDecl()->getNameAsString();
          BO["t"] = ty(B->getType());
        }
        Bs.push_back(std::move(BO));
      }
      VO["binds"] = std::move(Bs);
    }
    return VO;
  }

  void declRef(const ValueDecl *D, json::Object &O) {
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      O["k"] = "enum"; O["n"] = EC->getNameAsString();
      O["e"] = qname(cast<EnumDecl>(EC->getDeclContext()));
      llvm::SmallString<24> Str; EC->getInitVal().toString(Str, 10); O["v"] = std::string(Str.str());
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["k"] = "fnref"; O["fn"] = fnRef(F);
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      O["k"] = "var"; O["d"] = varId(B); O["n"] = B->getNameAsString(); O["st"] = "binding";
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      O["k"] = "var"; O["d"] = varId(V); O["n"] = V->getNameAsString();
      O["dt"] = ty(V->getType());
      if (V->hasGlobalStorage() && !V->isStaticLocal()) {
        O["st"] = "global"; O["q"] = qname(V);
        if (V->getType().isConstQualified()) {
          if (const Expr *I = V->getAnyInitializer()) {
            if (!I->isValueDependent()) {
              if (auto *SL = dyn_cast<StringLiteral>(I->IgnoreParenImpCasts())) O["sv"] = SL->getString().str();
              else if (V->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult R;
                if (I->EvaluateAsInt(R, Ctx)) { llvm::SmallString<24> Str; R.Val.getInt().toString(Str, 10); O["cvv"] = std::string(Str.str()); }
              }
            }
          }
        }
      }
      else if (isa<ParmVarDecl>(V)) O["st"] = "param";
      else if (V->isStaticLocal()) O["st"] = "static";
      else O["st"] = "local";
    } else { O["k"] = "other"; O["s"] = "declref"; }
  }

  bool handled(const FunctionDecl *F) {
    return Done.count(F->getCanonicalDecl()) != 0;
  }
  std::set<const Decl *> Done;

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() ) return true;
    if (F->isDependentContext()) return true;
    if (!inRepo(F->getLocation())) return true;
    if (F->isDeleted()) return true;
    if (Done.count(F->getCanonicalDecl())) return true;
    Stmt *Body = F->getBody();
    if (!Body) return true;
    Done.insert(F->getCanonicalDecl());

    json::Object FO = fnRef(F);
    FO["file"] = fileOf(F->getLocation());
    FO["line"] = (int)lineOf(F->getLocation());
    FO["end"] = (int)lineOf(F->getEndLoc());
    FO["rt"] = ty(F->getReturnType());
    if (F->isInAnonymousNamespace() || F->getStorageClass() == SC_Static) FO["internal"] = true;
    FO["access"] = F->getAccess() == AS_private ? "private" : F->getAccess() == AS_protected ? "protected" : "public";
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) FO["noexcept"] = FPT->isNothrow();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) { FO["lambda"] = true; 
        // captured variables as fields
        json::Array CF;
        llvm::DenseMap<const ValueDecl *, FieldDecl *> Caps; FieldDecl *ThisCap = nullptr;
        M->getParent()->getCaptureFields(Caps, ThisCap);
        for (auto &P : Caps) { json::Object CO; CO["d"] = varId(P.first); CO["ref"] = P.second->getType()->isReferenceType(); CF.push_back(std::move(CO)); }
        FO["capfields"] = std::move(CF);
        if (ThisCap) FO["capthis"] = true;
      }
      if (M->isImplicit()) FO["implicit"] = true;
    }
    json::Array Ps;
    for (auto *P : F->parameters()) {
      json::Object PO; PO["d"] = varId(P); PO["n"] = P->getNameAsString(); PO["t"] = ty(P->getType());
      Ps.push_back(std::move(PO));
    }
    FO["params"] = std::move(Ps);

    {
      json::Array Tries; std::vector<const Stmt *> Work{Body};
      while (!Work.empty()) {
        const Stmt *S = Work.back(); Work.pop_back();
        if (!S) continue;
        if (auto *T = dyn_cast<CXXTryStmt>(S)) {
          json::Object TO; auto &M = Ctx.getSourceManager();
          TO["from"] = (int64_t)M.getExpansionLineNumber(T->getTryBlock()->getBeginLoc());
          TO["to"] = (int64_t)M.getExpansionLineNumber(T->getTryBlock()->getEndLoc());
          json::Array Cs;
          for (unsigned I = 0; I < T->getNumHandlers(); ++I) {
            auto Q = T->getHandler(I)->getCaughtType();
            Cs.push_back(Q.isNull() ? std::string("...") : ty(Q));
          }
          TO["catch"] = std::move(Cs); Tries.push_back(std::move(TO));
        }
        for (const Stmt *C : S->children()) Work.push_back(C);
      }
      if (!Tries.empty()) FO["tries"] = std::move(Tries);
    }

    json::Object NodeMap; Nodes = &NodeMap; NodeIds.clear(); NextNode = 1;
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddEHEdges = false;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.PruneTriviallyFalseEdges = true;
    auto G = CFG::buildCFG(F, Body, &Ctx, BO);
    if (!G) { FO["nocfg"] = true; Functions.push_back(std::move(FO)); return true; }
    json::Array Blocks;
    for (auto *B : *G) {
      json::Object B0; B0["id"] = (int)B->getBlockID();
      json::Array Es;
      for (auto &E : *B) {
        if (auto CS = E.getAs<CFGStmt>()) {
          Es.push_back(node(CS->getStmt()));
        } else if (auto AD = E.getAs<CFGAutomaticObjDtor>()) {
          const VarDecl *V = AD->getVarDecl();
          QualType T = V->getType();
          if (T->isReferenceType()) continue;
          auto *RD = T->getAsCXXRecordDecl();
          if (!RD || !inRepo(RD->getLocation())) continue;
          auto *DD = RD->getDestructor();
          if (!DD || !DD->isUserProvided()) continue;
          json::Object DO; DO["dtor"] = varId(V); DO["cls"] = qname(RD); DO["fn"] = fnRef(DD);
          DO["l"] = (int)lineOf(AD->getTriggerStmt()->getEndLoc());
          Es.push_back(std::move(DO));
        } else if (auto CI = E.getAs<CFGInitializer>()) {
          auto *I = CI->getInitializer();
          json::Object IO;
          if (I->isAnyMemberInitializer()) { IO["f"] = I->getAnyMember()->getNameAsString(); IO["ft"] = ty(I->getAnyMember()->getType()); }
          else if (I->isDelegatingInitializer()) IO["deleg"] = true;
          else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
          if (I->isWritten()) IO["written"] = true;
          IO["x"] = node(I->getInit());
          IO["l"] = (int)lineOf(I->getSourceLocation().isValid() ? I->getSourceLocation() : F->getLocation());
          Es.push_back(std::move(IO));
        }
      }
      B0["e"] = std::move(Es);
      if (const Stmt *T = B->getTerminatorStmt()) {
        B0["tk"] = T->getStmtClassName();
        B0["tl"] = (int)lineOf(T->getBeginLoc());
        if (auto *BO2 = dyn_cast<BinaryOperator>(T)) { B0["tn"] = node(BO2); B0["tc"] = node(BO2->getLHS()); B0["top"] = BO2->getOpcodeStr().str(); }
        else if (auto *CO = dyn_cast<AbstractConditionalOperator>(T)) { B0["tn"] = node(CO); B0["tc"] = node(CO->getCond()); }
        else if (const Stmt *C = B->getTerminatorCondition(true)) { B0["tc"] = node(C);}
        if (isa<SwitchStmt>(T)) {
          if (auto *SW = dyn_cast<SwitchStmt>(T)) { B0["tc"] = node(SW->getCond()); B0["allenum"] = SW->isAllEnumCasesCovered(); }
        }
        if (auto *FR = dyn_cast<CXXForRangeStmt>(T)) {
          B0["tc"] = node(FR->getCond());
          B0["lv"] = varId(FR->getLoopVariable());
          B0["range"] = node(FR->getRangeInit());
        }
        if (auto *FS = dyn_cast<ForStmt>(T)) { if (FS->getCond()) B0["tc"] = node(FS->getCond()); }
        if (auto *FS = dyn_cast<WhileStmt>(T)) { if (FS->getCond()) B0["tc"] = node(FS->getCond()); }
        if (auto *FS = dyn_cast<DoStmt>(T)) { if (FS->getCond()) B0["tc"] = node(FS->getCond()); }
        if (auto *FS = dyn_cast<IfStmt>(T)) { if (FS->getCond()) B0["tc"] = node(FS->getCond()); }
      }
      if (B->hasNoReturnElement()) B0["noret"] = true;
      if (auto *L = B->getLabel()) {
        if (auto *CS = dyn_cast<CaseStmt>(L)) {
          B0["case"] = node(CS->getLHS());
          Expr::EvalResult R;
          if (CS->getLHS()->EvaluateAsInt(R, Ctx)) { llvm::SmallString<24> Str; R.Val.getInt().toString(Str, 10); B0["casev"] = std::string(Str.str()); }
        } else if (isa<DefaultStmt>(L)) B0["default"] = true;
        else if (isa<CXXCatchStmt>(L)) {
          auto *C = cast<CXXCatchStmt>(L);
          B0["catch"] = C->getCaughtType().isNull() ? "..." : ty(C->getCaughtType());
        }
      }
      json::Array Ss;
      for (auto &Su : B->succs()) {
        if (auto *R = Su.getReachableBlock()) Ss.push_back((int)R->getBlockID());
        else Ss.push_back(nullptr);
      }
      B0["s"] = std::move(Ss);
      Blocks.push_back(std::move(B0));
    }
    FO["blocks"] = std::move(Blocks);
    FO["entry"] = (int)G->getEntry().getBlockID();
    FO["exit"] = (int)G->getExit().getBlockID();
    FO["nodes"] = std::move(NodeMap);
    Nodes = nullptr;
    Functions.push_back(std::move(FO));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!inRepo(R->getLocation()) || R->isLambda()) return true;
    json::Object O;
    O["q"] = qname(R); O["file"] = fileOf(R->getLocation()); O["line"] = (int)lineOf(R->getLocation());
    json::Array Fs;
    for (auto *F : R->fields()) {
      json::Object FO; FO["n"] = F->getNameAsString(); FO["t"] = ty(F->getType()); FO["st"] = F->getType().getAsString(PP);
      FO["line"] = (int)lineOf(F->getLocation());
      FO["access"] = F->getAccess() == AS_private ? "private" : F->getAccess() == AS_protected ? "protected" : "public";
      if (F->isMutable()) FO["mut"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) {
        FO["hasinit"] = true;
        Expr::EvalResult Rr;
        const Expr *I = F->getInClassInitializer();
        if (!I->isValueDependent() && F->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(Rr, Ctx)) {
          llvm::SmallString<24> Str; Rr.Val.getInt().toString(Str, 10); FO["iv"] = std::string(Str.str());
        }
      }
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    json::Array Bs;
    for (auto &B : R->bases()) Bs.push_back(ty(B.getType()));
    O["bases"] = std::move(Bs);
    json::Array Ms;
    for (auto *M : R->methods()) {
      json::Object MO = fnRef(M);
      MO["access"] = M->getAccess() == AS_private ? "private" : M->getAccess() == AS_protected ? "protected" : "public";
      if (M->isDeleted()) MO["deleted"] = true;
      if (M->isUserProvided()) MO["user"] = true;
      if (M->isImplicit()) MO["implicit"] = true;
      if (isa<CXXDestructorDecl>(M)) MO["dtor"] = true;
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    O["implicit_copy_ctor"] = R->needsImplicitCopyConstructor();
    O["implicit_copy_asg"] = R->needsImplicitCopyAssignment();
    Classes.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation())) return true;
    json::Object O; O["q"] = qname(E);
    json::Array A;
    for (auto *C : E->enumerators()) {
      json::Object CO; CO["n"] = C->getNameAsString(); llvm::SmallString<24> Str; C->getInitVal().toString(Str, 10); CO["v"] = std::string(Str.str());
      A.push_back(std::move(CO));
    }
    O["c"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRepo(V->getLocation())) return true;
    json::Object O; O["q"] = qname(V); O["t"] = ty(V->getType()); O["line"] = (int)lineOf(V->getLocation()); O["file"] = fileOf(V->getLocation());
    Globals.push_back(std::move(O));
    return true;
  }

private:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Extractor X(C);
    X.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O;
    O["functions"] = std::move(X.Functions);
    O["classes"] = std::move(X.Classes);
    O["enums"] = std::move(X.Enums);
    O["globals"] = std::move(X.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(3); }
    OS << json::Value(std::move(O));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

#include "clang/Tooling/CompilationDatabase.h"
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: argos_facts OUT ROOT FILE -- flags\n"; return 2; }
  OutPath = argv[1]; Root = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
