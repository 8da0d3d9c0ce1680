// Resolved-AST extractor: parses one translation unit with clang's own front
// end and writes every function / record / enum / global defined under the
// given source roots as JSON (types resolved, callees resolved, templates
// instantiated, macros expanded).  Nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

struct Ex {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  J::Array Funcs, Records, Enums, Globals, Files;
  std::set<std::string> seenF, seenR, seenE, seenG;
  std::map<const Decl *, int> ids;
  std::vector<const FunctionDecl *> lambdaQ;

  Ex(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end())
      return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0)
        return true;
    return false;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) {
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  // class name with template arguments
  std::string cn(const RecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  std::string mangle(const FunctionDecl *F) {
    if (F->isExternC())
      return F->getNameAsString();
    std::string n;
    if (F->isDependentContext())
      return "";
    if (isa<CXXConstructorDecl>(F))
      n = NG.getName(F);
    else
      n = NG.getName(F);
    if (!F->isExternallyVisible())
      n += "@" + file(F->getLocation());
    return n;
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_FloatingToIntegral:
        case CK_IntegralToFloating:
        case CK_IntegralCast:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
          return E;
        default:
          E = X->getSubExpr();
          continue;
        }
      }
      break;
    }
    return E;
  }

  J::Value ex(const Expr *E0) {
    if (!E0)
      return nullptr;
    const Expr *E = strip(E0);
    J::Object o;
    o["l"] = line(E->getBeginLoc());
    auto setT = [&] { o["t"] = ty(E->getType()); };
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      auto k = X->getCastKind();
      if (k == CK_DerivedToBase || k == CK_UncheckedDerivedToBase)
        return ex(X->getSubExpr());
      // constant folding of converted literals
      o["k"] = "ICast";
      o["ck"] = X->getCastKindName();
      o["e"] = ex(X->getSubExpr());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "Int";
      o["v"] = (int64_t)X->getValue().getLimitedValue();
      return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "Bool";
      o["v"] = X->getValue();
      return o;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "Char";
      o["v"] = (int64_t)X->getValue();
      return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "Float";
      o["v"] = X->getValueAsApproximateDouble();
      return o;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "Str";
      o["v"] = X->getCharByteWidth() == 1 ? J::fixUTF8(X->getString()) : std::string("?");
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "Null";
      return o;
    }
    if (isa<CXXThisExpr>(E)) {
      o["k"] = "This";
      setT();
      return o;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      o["k"] = "Ref";
      auto *D = X->getDecl();
      o["n"] = D->getNameAsString();
      setT();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "func";
        o["f"] = mangle(F);
        o["q"] = qn(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["dk"] = "enum";
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
        o["q"] = qn(EC);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["d"] = id(D);
        o["dt"] = ty(V->getType());
        if (V->isStaticDataMember() || (V->hasGlobalStorage())) {
          o["dk"] = V->isStaticLocal() ? "slocal" : "global";
          o["q"] = qn(V);
          o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        } else
          o["dk"] = isa<ParmVarDecl>(V) ? "parm" : "var";
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        o["dk"] = "binding";
        o["d"] = id(B);
      } else
        o["dk"] = D->getDeclKindName();
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      o["k"] = "Mem";
      o["n"] = D->getNameAsString();
      o["b"] = ex(X->getBase());
      o["ar"] = X->isArrow();
      setT();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        o["c"] = cn(FD->getParent());
        o["dt"] = ty(FD->getType());
      } else if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        o["f"] = mangle(M);
        o["q"] = qn(M);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "Ref";
        o["dk"] = "global";
        o["q"] = qn(V);
        o["d"] = id(V);
        o["dt"] = ty(V->getType());
      }
      return o;
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return ex(X->getSemanticForm());
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "Call";
      setT();
      J::Array a;
      const FunctionDecl *F = X->getDirectCallee();
      unsigned start = 0;
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
        o["o"] = ex(MC->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts())) {
          o["ar"] = ME->isArrow();
          if (auto *M = dyn_cast<CXXMethodDecl>(ME->getMemberDecl())) {
            o["virt"] = M->isVirtual() && !ME->hasQualifier() ;
            o["oc"] = cn(M->getParent());
          }
        } else
          o["callee"] = ex(MC->getCallee());
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        if (F && isa<CXXMethodDecl>(F)) {
          if (!cast<CXXMethodDecl>(F)->isStatic()) {
            o["o"] = ex(X->getArg(0));
            start = 1;
          }
          o["oc"] = cn(cast<CXXMethodDecl>(F)->getParent());
        }
      } else if (!F) {
        o["callee"] = ex(X->getCallee());
      } else if (auto *M = dyn_cast<CXXMethodDecl>(F))
        o["oc"] = cn(M->getParent());
      for (unsigned i = start; i < X->getNumArgs(); i++)
        a.push_back(ex(X->getArg(i)));
      o["a"] = std::move(a);
      if (F) {
        o["f"] = mangle(F);
        o["n"] = F->getNameAsString();
        o["q"] = qn(F);
        o["in"] = inRoot(F->getLocation());
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
          o["cm"] = M->isConst();
        J::Array ptys;
        for (auto *P : F->parameters())
          ptys.push_back(ty(P->getType()));
        o["pt"] = std::move(ptys);
        if (F->getNameAsString() == "make_unique" || F->getNameAsString() == "make_shared") {
          struct V : RecursiveASTVisitor<V> {
            const CXXConstructExpr *R = nullptr;
            bool VisitCXXNewExpr(CXXNewExpr *N) {
              if (N->getConstructExpr() && !N->isArray()) R = N->getConstructExpr();
              return true;
            }
          } v;
          if (F->getBody())
            v.TraverseStmt(F->getBody());
          if (v.R) {
            o["mk"] = mangle(v.R->getConstructor());
            o["mkc"] = cn(v.R->getConstructor()->getParent());
          }
          if (auto *TA = F->getTemplateSpecializationArgs())
            if (TA->size() && TA->get(0).getKind() == TemplateArgument::Type)
              o["mkt"] = ty(TA->get(0).getAsType());
        }
      }
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *F = X->getConstructor();
      // elide copy of temporaries
      if (X->isElidable() && X->getNumArgs() >= 1)
        return ex(X->getArg(0));
      o["k"] = "Ctor";
      o["c"] = cn(F->getParent());
      o["f"] = mangle(F);
      o["in"] = inRoot(F->getLocation());
      o["cp"] = F->isCopyOrMoveConstructor();
      o["li"] = X->isStdInitListInitialization();
      o["tmp"] = isa<CXXTemporaryObjectExpr>(X);
      J::Array a, ptys;
      for (auto *A : X->arguments())
        a.push_back(ex(A));
      for (auto *P : F->parameters())
        ptys.push_back(ty(P->getType()));
      o["pt"] = std::move(ptys);
      o["a"] = std::move(a);
      setT();
      return o;
    }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      const Expr *S = strip(X->getSubExpr());
      if (isa<CXXConstructExpr>(S)) {
        J::Value v = ex(S);
        if (auto *ob = v.getAsObject())
          (*ob)["tmp"] = true;
        return v;
      }
      o["k"] = "Cast";
      o["ck"] = "functional";
      o["e"] = ex(X->getSubExpr());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      o["k"] = "Cast";
      o["ck"] = isa<CXXConstCastExpr>(X) ? "const" : isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXStaticCastExpr>(X) ? "static" : isa<CXXDynamicCastExpr>(X) ? "dynamic" : "c";
      o["e"] = ex(X->getSubExpr());
      o["ft"] = ty(X->getSubExprAsWritten()->getType());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "p" : "");
      o["e"] = ex(X->getSubExpr());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "Bin";
      o["op"] = X->getOpcodeStr().str();
      // flatten very deep left chains lazily: recursion is fine here
      o["a"] = ex(X->getLHS());
      o["b"] = ex(X->getRHS());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "Cond";
      o["c"] = ex(X->getCond());
      o["a"] = ex(X->getTrueExpr());
      o["b"] = ex(X->getFalseExpr());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "Sub";
      o["b"] = ex(X->getBase());
      o["i"] = ex(X->getIdx());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "New";
      o["at"] = ty(X->getAllocatedType());
      o["arr"] = X->isArray();
      if (X->isArray() && X->getArraySize())
        o["n"] = ex(*X->getArraySize());
      if (X->getNumPlacementArgs())
        o["placement"] = true;
      if (X->getInitializer())
        o["init"] = ex(X->getInitializer());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "Delete";
      o["e"] = ex(X->getArgument());
      o["arr"] = X->isArrayForm();
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "Throw";
      if (X->getSubExpr()) {
        o["e"] = ex(X->getSubExpr());
        o["tt"] = ty(X->getSubExpr()->getType());
      }
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "Lambda";
      J::Array caps;
      for (auto &cp : X->captures()) {
        J::Object c;
        if (cp.capturesThis()) c["this"] = true;
        else if (cp.capturesVariable()) {
          c["d"] = id(cp.getCapturedVar());
          c["n"] = cp.getCapturedVar()->getNameAsString();
          c["t"] = ty(cp.getCapturedVar()->getType());
          c["global"] = isa<VarDecl>(cp.getCapturedVar()) && cast<VarDecl>(cp.getCapturedVar())->hasGlobalStorage();
        }
        c["ref"] = cp.getCaptureKind() == LCK_ByRef || cp.getCaptureKind()==LCK_This;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      J::Array ps;
      if (auto *M = X->getCallOperator()) {
        for (auto *P : M->parameters()) {
          J::Object p;
          p["d"] = id(P);
          p["n"] = P->getNameAsString();
          p["t"] = ty(P->getType());
          ps.push_back(std::move(p));
        }
        o["rt"] = ty(M->getReturnType());
      }
      o["p"] = std::move(ps);
      o["body"] = st(X->getBody());
      setT();
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      o["k"] = "InitList";
      setT();
      J::Array a;
      for (auto *I : S->inits())
        a.push_back(ex(I));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "Sizeof";
      o["at"] = ty(X->getTypeOfArgument());
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C))
        o["v"] = (int64_t)R.Val.getInt().getExtValue();
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      o["k"] = "ZeroInit";
      setT();
      return o;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr())
        return ex(X->getSourceExpr());
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "Ctor";
      o["c"] = cn(X->getConstructor()->getParent());
      o["f"] = mangle(X->getConstructor());
      o["a"] = J::Array();
      return o;
    }
    o["k"] = "X";
    o["xk"] = E->getStmtClassName();
    setT();
    J::Array ch;
    for (auto *S : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(S))
        ch.push_back(ex(CE));
    o["ch"] = std::move(ch);
    return o;
  }

  J::Object var(const VarDecl *V) {
    J::Object o;
    o["d"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["l"] = line(V->getLocation());
    o["static"] = V->isStaticLocal();
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    if (V->getInit())
      o["init"] = ex(V->getInit());
    if (V->isStaticLocal())
      global(V);
    return o;
  }

  J::Value st(const Stmt *S) {
    if (!S)
      return nullptr;
    J::Object o;
    o["l"] = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      o["k"] = "Expr";
      o["e"] = ex(E);
      return o;
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "Block";
      J::Array a;
      for (auto *c : X->body())
        a.push_back(st(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "Decl";
      J::Array a;
      for (auto *d : X->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) {
          a.push_back(var(V));
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            for (auto *b : DD->bindings()) { J::Object bo; bo["d"]=id(b); bo["n"]=b->getNameAsString(); bo["t"]=ty(b->getType()); bo["binding"]=true; a.push_back(std::move(bo)); }
          }
        }
      o["v"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "If";
      if (X->getInit()) o["init"] = st(X->getInit());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
      o["c"] = ex(X->getCond());
      o["a"] = st(X->getThen());
      if (X->getElse()) o["b"] = st(X->getElse());
      if (X->isConstexpr()) {
        o["cx"] = true;
        bool V = false;
        if (X->getCond() && !X->getCond()->isValueDependent() &&
            X->getCond()->EvaluateAsBooleanCondition(V, C))
          o["cxv"] = V;
      }
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "For";
      o["i"] = st(X->getInit());
      o["c"] = ex(X->getCond());
      o["n"] = ex(X->getInc());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "While";
      o["c"] = ex(X->getCond());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "DoWhile";
      o["c"] = ex(X->getCond());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "RangeFor";
      o["v"] = var(X->getLoopVariable());
      o["r"] = ex(X->getRangeInit());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "Switch";
      o["c"] = ex(X->getCond());
      o["ct"] = ty(X->getCond()->IgnoreParenImpCasts()->getType());
      o["b"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "Case";
      Expr::EvalResult R;
      if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C))
        o["v"] = (int64_t)R.Val.getInt().getExtValue();
      o["e"] = ex(X->getLHS());
      o["s"] = st(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "Default";
      o["s"] = st(X->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(S)) { o["k"] = "Break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "Continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "Null"; return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "Return";
      if (X->getRetValue()) o["e"] = ex(X->getRetValue());
      return o;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "Try";
      o["b"] = st(X->getTryBlock());
      J::Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *H = X->getHandler(i);
        J::Object ho;
        ho["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) {
          ho["t"] = ty(H->getCaughtType());
          ho["d"] = id(H->getExceptionDecl());
          ho["n"] = H->getExceptionDecl()->getNameAsString();
        } else
          ho["t"] = "...";
        ho["b"] = st(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (auto *X = dyn_cast<GotoStmt>(S)) {
      o["k"] = "Goto";
      o["n"] = X->getLabel()->getNameAsString();
      return o;
    }
    if (auto *X = dyn_cast<LabelStmt>(S)) {
      o["k"] = "Label";
      o["n"] = X->getDecl()->getNameAsString();
      o["s"] = st(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return st(X->getSubStmt());
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "OMP";
      o["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      J::Array cl;
      for (auto *c : X->clauses()) {
        if (c->isImplicit()) continue;
        J::Object co;
        co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        J::Array vs;
        for (auto *chd : c->children())
          if (auto *ce = dyn_cast_or_null<Expr>(chd)) vs.push_back(ex(ce));
        co["v"] = std::move(vs);
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (X->hasAssociatedStmt()) {
        const Stmt *b = X->getAssociatedStmt();
        while (auto *cs = dyn_cast_or_null<CapturedStmt>(b)) b = cs->getCapturedStmt();
        o["b"] = b ? st(b) : J::Value(nullptr);
      }
      return o;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S))
      return st(X->getCapturedStmt());
    o["k"] = "XS";
    o["xk"] = S->getStmtClassName();
    J::Array ch;
    for (auto *c : S->children())
      if (c) ch.push_back(st(c));
    o["ch"] = std::move(ch);
    return o;
  }

  void global(const VarDecl *V) {
    std::string f = file(V->getLocation());
    std::string key = qn(V) + "@" + f + ":" + std::to_string(line(V->getLocation()));
    if (!seenG.insert(key).second)
      return;
    J::Object o;
    o["q"] = qn(V);
    o["file"] = f;
    o["l"] = line(V->getLocation());
    o["t"] = ty(V->getType());
    o["const"] = V->getType().isConstQualified() || V->isConstexpr();
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    o["slocal"] = V->isStaticLocal();
    if (V->getInit())
      o["init"] = ex(V->getInit());
    Globals.push_back(std::move(o));
  }

  void func(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted() )
      return;
    if (F->isDependentContext())
      return;
    if (!F->doesThisDeclarationHaveABody()) {
      return;
    }
    if (!inRoot(F->getLocation()))
      return;
    if (F->isImplicit()) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return;
    std::string m = mangle(F);
    if (m.empty() || !seenF.insert(m).second)
      return;
    J::Object o;
    o["f"] = m;
    o["q"] = qn(F);
    o["n"] = F->getNameAsString();
    o["file"] = file(F->getLocation());
    o["l"] = line(F->getBeginLoc());
    o["el"] = line(F->getEndLoc());
    o["rt"] = ty(F->getReturnType());
    o["vararg"] = F->isVariadic();
    o["inst"] = F->isTemplateInstantiation();
    J::Array ps;
    for (auto *P : F->parameters()) {
      J::Object p;
      p["d"] = id(P);
      p["n"] = P->getNameAsString();
      p["t"] = ty(P->getType());
      if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg())
        p["def"] = ex(P->getDefaultArg());
      ps.push_back(std::move(p));
    }
    o["p"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["c"] = cn(M->getParent());
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["virt"] = M->isVirtual();
      o["access"] = (int)M->getAccess();
      J::Array ov;
      for (auto *b : M->overridden_methods())
        ov.push_back(mangle(b));
      o["ov"] = std::move(ov);
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      J::Array in;
      for (auto *I : CD->inits()) {
        J::Object io;
        if (I->isAnyMemberInitializer()) {
          io["m"] = I->getAnyMember()->getNameAsString();
        } else if (I->isBaseInitializer()) {
          io["base"] = ty(QualType(I->getBaseClass(), 0));
        } else if (I->isDelegatingInitializer())
          io["deleg"] = true;
        io["w"] = I->isWritten();
        io["e"] = ex(I->getInit());
        io["dflt"] = isa<CXXDefaultInitExpr>(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      o["nothrow"] = FPT->isNothrow();
    o["body"] = st(F->getBody());
    Funcs.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda())
      return;
    if (!inRoot(R->getLocation()))
      return;
    std::string n = cn(R);
    if (!seenR.insert(n + "@" + file(R->getLocation())).second)
      return;
    J::Object o;
    o["n"] = n;
    o["file"] = file(R->getLocation());
    o["l"] = line(R->getLocation());
    J::Array b;
    for (auto &x : R->bases())
      b.push_back(ty(x.getType()));
    o["bases"] = std::move(b);
    o["poly"] = R->isPolymorphic();
    o["abstract"] = R->isAbstract();
    o["vdtor"] = R->getDestructor() && R->getDestructor()->isVirtual();
    bool hasPublicDtorDecl = R->getDestructor() != nullptr;
    o["dtor"] = hasPublicDtorDecl;
    o["aggr"] = R->isAggregate();
    o["userctor"] = R->hasUserDeclaredConstructor();
    o["dfltctor"] = R->hasDefaultConstructor();
    o["userdfltctor"] = R->hasUserProvidedDefaultConstructor();
    J::Array f;
    for (auto *x : R->fields()) {
      J::Object fo;
      fo["n"] = x->getNameAsString();
      fo["t"] = ty(x->getType());
      fo["st"] = x->getType().getAsString(PP);
      fo["l"] = line(x->getLocation());
      fo["ini"] = x->hasInClassInitializer();
      if (x->hasInClassInitializer() && x->getInClassInitializer())
        fo["init"] = ex(x->getInClassInitializer());
      fo["mut"] = x->isMutable();
      f.push_back(std::move(fo));
    }
    o["fields"] = std::move(f);
    J::Array ms;
    for (auto *m : R->methods()) {
      J::Object mo;
      mo["n"] = m->getNameAsString();
      mo["f"] = mangle(m);
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["const"] = m->isConst();
      mo["impl"] = m->isImplicit();
      mo["del"] = m->isDeleted();
      mo["dfl"] = m->isDefaulted();
      mo["ctor"] = isa<CXXConstructorDecl>(m);
      if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) mo["copy"] = cd->isCopyOrMoveConstructor();
      J::Array ov;
      for (auto *b2 : m->overridden_methods())
        ov.push_back(mangle(b2));
      mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
  }
  void enm(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation()))
      return;
    std::string n = qn(E);
    if (!seenE.insert(n).second)
      return;
    J::Object o;
    o["n"] = n;
    o["file"] = file(E->getLocation());
    o["l"] = line(E->getLocation());
    J::Array v;
    for (auto *c : E->enumerators()) {
      J::Object co;
      co["n"] = c->getNameAsString();
      co["v"] = (int64_t)c->getInitVal().getExtValue();
      v.push_back(std::move(co));
    }
    o["v"] = std::move(v);
    Enums.push_back(std::move(o));
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Ex &X;
  Vis(Ex &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) { X.func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { X.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { X.enm(E); return true; }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->isLocalVarDecl() && V->hasGlobalStorage() && X.inRoot(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext() && V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly)
      X.global(V);
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Ex X(C);
    Vis V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    J::Object o;
    o["errors"] = C.getDiagnostics().hasErrorOccurred();
    std::set<std::string> fs;
    for (auto it = C.getSourceManager().fileinfo_begin(); it != C.getSourceManager().fileinfo_end(); ++it) {
      std::string n = it->first.getName().str();
      for (auto &r : Roots) if (n.compare(0, r.size(), r) == 0) fs.insert(n);
    }
    for (auto &f : fs) X.Files.push_back(f);
    o["files"] = std::move(X.Files);
    o["funcs"] = std::move(X.Funcs);
    o["records"] = std::move(X.Records);
    o["enums"] = std::move(X.Enums);
    o["globals"] = std::move(X.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << J::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Cons>();
  }
};

int main(int argc, const char **argv) {
  // extract OUT SRC root1,root2 -- flags...
  if (argc < 5) { llvm::errs() << "usage: extract OUT SRC roots -- flags\n"; return 2; }
  OutPath = argv[1];
  std::string src = argv[2];
  llvm::StringRef rs(argv[3]);
  llvm::SmallVector<llvm::StringRef, 8> parts;
  rs.split(parts, ',', -1, false);
  for (auto p : parts) Roots.push_back(p.str());
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  T.clearArgumentsAdjusters();
  T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  struct Fac : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
  } fac;
  int rc = T.run(&fac);
  return rc;
}
