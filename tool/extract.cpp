// Fact extractor: walks the type-checked program (every instantiated function whose body lies under
// --root) and prints, per function, its clang control-flow graph as JSON.  One JSON object per line.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::opt<std::string> Root("root", llvm::cl::init("/repo"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Roots2("root2", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> OutFile("out", llvm::cl::init("-"), llvm::cl::cat(Cat));

namespace {
class Ex : public RecursiveASTVisitor<Ex> {
 public:
  ASTContext &C;
  Sema &S;
  SourceManager &SM;
  llvm::raw_ostream &OS;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  std::set<const FunctionDecl *> Done;
  std::set<const RecordDecl *> RecDone;
  Ex(CompilerInstance &CI, llvm::raw_ostream &O)
      : C(CI.getASTContext()), S(CI.getSema()), SM(C.getSourceManager()), OS(O), MC(C.createMangleContext()),
        PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressInlineNamespace = false;
    PP.TerseOutput = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : "";
  }
  int lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? (int)P.getLine() : 0;
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.compare(0, Root.size(), Root) == 0) return true;
    for (auto &r : Roots2)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) { return D->getQualifiedNameAsString(); }
  std::string declLoc(const Decl *D) {
    return fileOf(D->getLocation()) + ":" + std::to_string(SM.getExpansionLineNumber(D->getLocation())) + ":" +
           std::to_string(SM.getExpansionColumnNumber(D->getLocation()));
  }
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (F->isDependentContext()) return "dep:" + qn(F) + "@" + declLoc(F);
    if (auto *MD = dyn_cast<CXXMethodDecl>(F))
      if (MD->getParent()->isLambda()) {
        // lambdas in templates: disambiguate by the enclosing function
        std::string enc;
        const DeclContext *DC = MD->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC && cast<FunctionDecl>(DC) != F) enc = fid(cast<FunctionDecl>(DC));
        std::string extra;
        if (F->isTemplateInstantiation()) {
          llvm::raw_string_ostream os(extra);
          F->getType().print(os, PP);
        }
        return "lam:" + enc + "@" + declLoc(MD->getParent()) + ":" + F->getNameAsString() + extra;
      }
    std::string s;
    llvm::raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
      GD = GlobalDecl(CD, Ctor_Complete);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F))
      GD = GlobalDecl(DD, Dtor_Complete);
    else
      GD = GlobalDecl(F);
    if (MC->shouldMangleDeclName(F))
      MC->mangleName(GD, os);
    else
      os << F->getNameAsString();
    os.flush();
    if (F->getFormalLinkage() == Linkage::Internal) s += "@" + fileOf(F->getLocation());
    return s;
  }
  std::string clsOf(const FunctionDecl *F) {
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
      if (MD->getParent()->isLambda()) return "<lambda>";
      return ty(C.getRecordType(MD->getParent()));
    }
    return "";
  }
  bool isNoexcept(const FunctionDecl *F) {
    auto *FPT = F->getType()->getAs<FunctionProtoType>();
    if (!FPT) return false;
    if (isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) {
      S.ResolveExceptionSpec(F->getLocation(), FPT);
      FPT = F->getType()->getAs<FunctionProtoType>();
      if (!FPT || isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) return false;
    }
    return FPT->isNothrow();
  }
  json::Object callee(const FunctionDecl *F) {
    json::Object o;
    o["id"] = fid(F);
    o["q"] = qn(F);
    o["n"] = F->getNameAsString();
    std::string c = clsOf(F);
    if (!c.empty()) o["cls"] = c;
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
      if (MD->isVirtual()) o["virt"] = true;
      if (MD->isStatic()) o["st"] = true;
      if (MD->isConst()) o["const"] = true;
    }
    if (isNoexcept(F)) o["ne"] = true;
    if (F->isNoReturn()) o["noret"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      if (CD->isCopyConstructor()) o["ck"] = "copy";
      else if (CD->isMoveConstructor()) o["ck"] = "move";
      else if (CD->isDefaultConstructor()) o["ck"] = "default";
    }
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
      if (MD->isMoveAssignmentOperator()) o["ck"] = "massign";
      else if (MD->isCopyAssignmentOperator()) o["ck"] = "cassign";
      if (MD->isTrivial()) o["triv"] = true;
      if (MD->isDefaulted()) o["dflt"] = true;
    }
    if (F->isDeleted()) o["del"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Type) ta.push_back(ty(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) ta.push_back(llvm::toString(A.getAsIntegral(), 10));
        else ta.push_back("?");
      }
      o["ta"] = std::move(ta);
    }
    json::Array pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
    o["rt"] = ty(F->getReturnType());
    return o;
  }

  // -------- per-function state
  std::map<const Stmt *, int> Ids;
  std::map<int, json::Object> Nodes;
  std::map<const ValueDecl *, int> VarIds;
  std::set<const Stmt *> Elems;
  int NextId = 0;
  std::vector<const LambdaExpr *> Lambdas;
  std::map<const Stmt *, std::vector<const CXXTryStmt *>> TryOf;
  std::map<const CXXTryStmt *, int> TryIds;

  const Stmt *strip(const Stmt *s) {
    while (s) {
      if (auto *e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<ExprWithCleanups>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<ConstantExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
      else if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) s = e->getExpr();
      else if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
      else if (auto *e = dyn_cast<CXXRewrittenBinaryOperator>(s)) s = e->getSemanticForm();
      else if (auto *e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<OpaqueValueExpr>(s)) { if (!e->getSourceExpr()) break; s = e->getSourceExpr(); }
      else if (auto *e = dyn_cast<ImplicitCastExpr>(s)) {
        switch (e->getCastKind()) {
          case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
          case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
            s = e->getSubExpr();
            continue;
          default: return s;
        }
      } else if (auto *e = dyn_cast<ExplicitCastExpr>(s)) {
        switch (e->getCastKind()) {
          case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
            s = e->getSubExpr();
            continue;
          default: return s;
        }
      } else break;
    }
    return s;
  }
  int var(const ValueDecl *D) {
    auto it = VarIds.find(D);
    if (it != VarIds.end()) return it->second;
    int id = (int)VarIds.size();
    VarIds[D] = id;
    return id;
  }
  json::Object varRef(const ValueDecl *D) {
    json::Object o;
    o["n"] = D->getNameAsString();
    o["ty"] = ty(D->getType());
    if (auto *VD = dyn_cast<VarDecl>(D)) {
      if (VD->hasGlobalStorage()) {
        o["kind"] = VD->isStaticLocal() ? "slocal" : "global";
        o["q"] = qn(VD);
        if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
      } else
        o["kind"] = isa<ParmVarDecl>(VD) ? "param" : "local";
    } else if (isa<BindingDecl>(D))
      o["kind"] = "binding";
    o["v"] = var(D);
    return o;
  }
  int node(const Stmt *s0) {
    if (!s0) return -1;
    const Stmt *s = strip(s0);
    auto it = Ids.find(s);
    if (it != Ids.end()) return it->second;
    int id = NextId++;
    Ids[s] = id;
    json::Object o;
    o["l"] = lineOf(s->getBeginLoc());
    fill(s, o);
    if (Elems.count(s)) o["e"] = true;
    Nodes[id] = std::move(o);
    return id;
  }
  json::Array nodes(llvm::iterator_range<ConstStmtIterator> r) {
    json::Array a;
    for (auto *x : r)
      if (x) a.push_back(node(x));
    return a;
  }
  void fill(const Stmt *s, json::Object &o) {
    if (auto *E = dyn_cast<Expr>(s)) {
      o["t"] = ty(E->getType());
      if (E->isLValue()) o["lv"] = 1;
      else if (E->isXValue()) o["lv"] = 2;
      // constant folding of side-effect-free integral expressions
      if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() &&
          E->getType()->isIntegralOrEnumerationType() && !isa<CallExpr>(E)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
          llvm::SmallString<32> str;
          R.Val.getInt().toString(str, 10);
          o["cv"] = std::string(str.str());
        }
      }
    }
    if (auto *e = dyn_cast<DeclRefExpr>(s)) {
      const ValueDecl *D = e->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fref";
        o["fn"] = callee(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "lit";
        llvm::SmallString<32> str;
        EC->getInitVal().toString(str, 10);
        o["v"] = std::string(str.str());
        o["en"] = EC->getNameAsString();
      } else {
        o["k"] = "ref";
        o["d"] = varRef(D);
      }
    } else if (auto *e = dyn_cast<MemberExpr>(s)) {
      const ValueDecl *D = e->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        o["k"] = "mem";
        o["b"] = node(e->getBase());
        if (e->isArrow()) o["arrow"] = true;
        o["f"] = F->getNameAsString();
        o["fc"] = ty(C.getRecordType(F->getParent()));
        o["ft"] = ty(F->getType());
        if (F->getType()->isReferenceType()) o["isref"] = true;
      } else if (auto *VD = dyn_cast<VarDecl>(D)) {
        o["k"] = "ref";
        o["d"] = varRef(VD);
        node(e->getBase());
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "lit";
        llvm::SmallString<32> str;
        EC->getInitVal().toString(str, 10);
        o["v"] = std::string(str.str());
        o["en"] = EC->getNameAsString();
      } else if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        o["k"] = "mref";
        o["b"] = node(e->getBase());
        if (e->isArrow()) o["arrow"] = true;
        o["fn"] = callee(M);
      } else
        o["k"] = "other";
    } else if (auto *e = dyn_cast<CXXThisExpr>(s)) {
      (void)e;
      o["k"] = "this";
    } else if (auto *e = dyn_cast<IntegerLiteral>(s)) {
      o["k"] = "lit";
      llvm::SmallString<32> str;
      e->getValue().toString(str, 10, e->getType()->isSignedIntegerType());
      o["v"] = std::string(str.str());
    } else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) {
      o["k"] = "lit";
      o["v"] = e->getValue() ? "1" : "0";
    } else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
      o["k"] = "lit";
      o["v"] = "null";
    } else if (auto *e = dyn_cast<CharacterLiteral>(s)) {
      o["k"] = "lit";
      o["v"] = std::to_string(e->getValue());
    } else if (auto *e = dyn_cast<StringLiteral>(s)) {
      o["k"] = "str";
      if (e->isOrdinary() || e->isUTF8()) o["v"] = e->getString().str();
    } else if (auto *e = dyn_cast<UnaryOperator>(s)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isPostfix()) o["post"] = true;
      o["a"] = node(e->getSubExpr());
    } else if (auto *e = dyn_cast<BinaryOperator>(s)) {
      o["k"] = "bin";
      o["op"] = BinaryOperator::getOpcodeStr(e->getOpcode()).str();
      o["a"] = node(e->getLHS());
      o["b"] = node(e->getRHS());
    } else if (auto *e = dyn_cast<ConditionalOperator>(s)) {
      o["k"] = "cond";
      o["c"] = node(e->getCond());
      o["a"] = node(e->getTrueExpr());
      o["b"] = node(e->getFalseExpr());
    } else if (auto *e = dyn_cast<CXXOperatorCallExpr>(s)) {
      fillCall(e, o);
    } else if (auto *e = dyn_cast<CallExpr>(s)) {
      fillCall(e, o);
    } else if (auto *e = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
      o["k"] = "ctor";
      o["fn"] = callee(e->getConstructor());
      o["args"] = json::Array();
      o["inherit"] = true;
    } else if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
      o["k"] = "ctor";
      o["fn"] = callee(e->getConstructor());
      json::Array a;
      for (auto *x : e->arguments()) a.push_back(node(x));
      o["args"] = std::move(a);
      if (e->isElidable()) o["elid"] = true;
      if (isa<CXXTemporaryObjectExpr>(e)) o["tmp"] = true;
      if (e->getConstructor()->isTrivial()) o["triv"] = true;
    } else if (auto *e = dyn_cast<CXXNewExpr>(s)) {
      o["k"] = "new";
      json::Array a;
      for (auto *x : e->placement_arguments()) a.push_back(node(x));
      o["pl"] = std::move(a);
      if (e->getInitializer()) o["init"] = node(e->getInitializer());
      if (e->isArray() && e->getArraySize() && *e->getArraySize()) o["asz"] = node(*e->getArraySize());
      o["at"] = ty(e->getAllocatedType());
      if (e->getOperatorNew()) o["fn"] = callee(e->getOperatorNew());
      o["sz"] = e->getAllocatedType()->isIncompleteType() ? -1
                                                        : (int64_t)C.getTypeSizeInChars(e->getAllocatedType()).getQuantity();
    } else if (auto *e = dyn_cast<CXXDeleteExpr>(s)) {
      o["k"] = "delete";
      o["a"] = node(e->getArgument());
      if (e->isArrayForm()) o["arr"] = true;
      QualType DT = e->getDestroyedType();
      if (!DT.isNull()) {
        o["dt"] = ty(DT);
        if (auto *RD = DT->getAsCXXRecordDecl())
          if (RD->hasDefinition() && RD->getDestructor()) o["dtor"] = callee(RD->getDestructor());
      }
    } else if (auto *e = dyn_cast<CastExpr>(s)) {
      if (e->getCastKind() == CK_LValueToRValue) {
        o["k"] = "load";
        o["a"] = node(e->getSubExpr());
      } else {
        o["k"] = "cast";
        o["ck"] = e->getCastKindName();
        o["a"] = node(e->getSubExpr());
      }
    } else if (auto *e = dyn_cast<MaterializeTemporaryExpr>(s)) {
      o["k"] = "mat";
      o["a"] = node(e->getSubExpr());
      if (e->getExtendingDecl()) o["ext"] = var(e->getExtendingDecl());
    } else if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) {
      o["k"] = "bindtmp";
      o["a"] = node(e->getSubExpr());
    } else if (auto *e = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto *D : e->decls()) {
        if (auto *VD = dyn_cast<VarDecl>(D)) {
          json::Object v = varRef(VD);
          if (VD->getInit()) v["init"] = node(VD->getInit());
          if (VD->getType()->isReferenceType()) v["isref"] = true;
          a.push_back(std::move(v));
        }
      }
      o["ds"] = std::move(a);
    } else if (auto *e = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      if (e->getRetValue()) o["a"] = node(e->getRetValue());
    } else if (auto *e = dyn_cast<CoreturnStmt>(s)) {
      o["k"] = "coret";
      if (e->getOperand()) o["a"] = node(e->getOperand());
    } else if (auto *e = dyn_cast<CoroutineSuspendExpr>(s)) {
      o["k"] = "coawait";
      if (e->getOperand()) o["a"] = node(e->getOperand());
    } else if (auto *e = dyn_cast<LambdaExpr>(s)) {
      o["k"] = "lambda";
      Lambdas.push_back(e);
      if (auto *op = e->getCallOperator()) o["fn"] = callee(op);
      json::Array caps;
      auto init = e->capture_init_begin();
      auto fld = e->getLambdaClass()->field_begin();
      for (auto &cap : e->captures()) {
        json::Object c;
        if (cap.capturesThis()) {
          c["n"] = "this";
          c["this"] = true;
          if (cap.getCaptureKind() == LCK_StarThis) c["copy"] = true;
        } else if (cap.capturesVariable()) {
          c["n"] = cap.getCapturedVar()->getNameAsString();
          c["ty"] = ty(cap.getCapturedVar()->getType());
        }
        if (cap.getCaptureKind() == LCK_ByRef) c["byref"] = true;
        if (init != e->capture_init_end() && *init) c["init"] = node(*init);
        if (fld != e->getLambdaClass()->field_end()) { c["fty"] = ty(fld->getType()); ++fld; }
        ++init;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
    } else if (auto *e = dyn_cast<CXXThrowExpr>(s)) {
      o["k"] = "throw";
      if (e->getSubExpr()) o["a"] = node(e->getSubExpr());
    } else if (auto *e = dyn_cast<InitListExpr>(s)) {
      o["k"] = "ilist";
      json::Array a, fs;
      const RecordDecl *RD = e->getType()->getAsRecordDecl();
      for (auto *x : e->inits()) a.push_back(node(x));
      if (RD) for (auto *F : RD->fields()) fs.push_back(F->getNameAsString());
      o["args"] = std::move(a);
      o["fs"] = std::move(fs);
    } else if (auto *e = dyn_cast<ArraySubscriptExpr>(s)) {
      o["k"] = "sub";
      o["a"] = node(e->getBase());
      o["b"] = node(e->getIdx());
    } else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      o["k"] = "sizeof";
      o["st"] = ty(e->isArgumentType() ? e->getArgumentType() : e->getArgumentExpr()->getType());
    } else if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) {
      o["k"] = "zero";
    } else if (auto *e = dyn_cast<AtomicExpr>(s)) {
      o["k"] = "atomic";
      o["args"] = nodes(e->children());
    } else if (auto *e = dyn_cast<GCCAsmStmt>(s)) {
      o["k"] = "asm";
      o["v"] = e->getAsmString()->getString().str();
    } else if (isa<CXXPseudoDestructorExpr>(s)) {
      o["k"] = "pdtor";
    } else if (auto *e = dyn_cast<CXXForRangeStmt>(s)) {
      (void)e;
      o["k"] = "forrange";
    } else if (auto *e = dyn_cast<CXXCatchStmt>(s)) {
      o["k"] = "catch";
      if (e->getExceptionDecl()) o["v"] = var(e->getExceptionDecl());
    } else if (auto *e = dyn_cast<CXXTypeidExpr>(s)) {
      o["k"] = "typeid";
      (void)e;
    } else {
      o["k"] = "other";
      o["cls"] = s->getStmtClassName();
      json::Array a;
      for (auto *x : s->children())
        if (x && isa<Expr>(x)) a.push_back(node(x));
      o["args"] = std::move(a);
    }
  }
  void fillCall(const CallExpr *e, json::Object &o) {
    o["k"] = "call";
    const FunctionDecl *F = e->getDirectCallee();
    json::Array a;
    if (auto *mc = dyn_cast<CXXMemberCallExpr>(e)) {
      if (mc->getImplicitObjectArgument()) {
        o["obj"] = node(mc->getImplicitObjectArgument());
        if (auto *me = dyn_cast<MemberExpr>(strip(mc->getCallee())))
          if (me->isArrow()) o["arrow"] = true;
        if (auto *me = dyn_cast<MemberExpr>(strip(mc->getCallee())))
          if (me->hasQualifier()) o["qual"] = true;
      }
      for (auto *x : e->arguments()) a.push_back(node(x));
    } else if (auto *oc = dyn_cast<CXXOperatorCallExpr>(e)) {
      unsigned i = 0;
      const CXXMethodDecl *MD = F ? dyn_cast<CXXMethodDecl>(F) : nullptr;
      if (MD && !MD->isStatic() && oc->getNumArgs() > 0) {
        o["obj"] = node(oc->getArg(0));
        i = 1;
      }
      for (; i < oc->getNumArgs(); ++i) a.push_back(node(oc->getArg(i)));
      o["opc"] = getOperatorSpelling(oc->getOperator());
    } else {
      for (auto *x : e->arguments()) a.push_back(node(x));
    }
    o["args"] = std::move(a);
    if (F)
      o["fn"] = callee(F);
    else
      o["ce"] = node(e->getCallee());
  }
  // ---- try nesting
  void walkTry(const Stmt *s, std::vector<const CXXTryStmt *> &st) {
    if (!s) return;
    if (auto *t = dyn_cast<CXXTryStmt>(s)) {
      if (!TryIds.count(t)) { int n = (int)TryIds.size(); TryIds[t] = n; }
      TryOf[s] = st;
      st.push_back(t);
      walkTry(t->getTryBlock(), st);
      st.pop_back();
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) walkTry(t->getHandler(i), st);
      return;
    }
    if (!st.empty()) TryOf[s] = st;
    if (isa<LambdaExpr>(s)) {
      for (auto *x : cast<LambdaExpr>(s)->capture_inits()) walkTry(x, st);
      return;
    }
    for (auto *x : s->children()) walkTry(x, st);
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    handle(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    if (auto *op = L->getCallOperator())
      if (!op->isDependentContext()) handle(op);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !inRoot(E->getLocation())) return true;
    json::Object o, vals;
    o["enum"] = qn(E);
    for (auto *c : E->enumerators()) vals[c->getNameAsString()] = (int64_t)c->getInitVal().getExtValue();
    o["vals"] = std::move(vals);
    OS << json::Value(std::move(o)) << "\n";
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    handleRec(R);
    return true;
  }
  void handleRec(const CXXRecordDecl *R) {
    if (!R->hasDefinition()) return;
    R = R->getDefinition();
    if (R->isDependentContext() || R->isLambda()) return;
    SourceLocation loc = R->getLocation();
    if (auto *pat = R->getTemplateInstantiationPattern()) loc = pat->getLocation();
    if (!inRoot(loc)) return;
    if (R->isInvalidDecl() || !RecDone.insert(R).second) return;
    json::Object o;
    o["rec"] = ty(C.getRecordType(R));
    o["q"] = qn(R);
    o["file"] = fileOf(loc);
    o["line"] = lineOf(loc);
    o["union"] = R->isUnion();
    const ASTRecordLayout *lay = nullptr;
    if (!R->isInvalidDecl() && R->isCompleteDefinition()) {
      lay = &C.getASTRecordLayout(R);
      o["size"] = (int64_t)lay->getSize().getQuantity();
    }
    json::Array bs, fs;
    for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
    for (auto *f : R->fields()) {
      json::Object x;
      x["n"] = f->getNameAsString();
      x["ty"] = ty(f->getType());
      x["acc"] = (int)f->getAccess();
      if (lay) x["off"] = (int64_t)(lay->getFieldOffset(f->getFieldIndex()) / 8);
      if (f->isMutable()) x["mut"] = true;
      fs.push_back(std::move(x));
    }
    json::Array ms;
    for (auto *m : R->methods()) {
      if (m->isImplicit()) continue;
      json::Object x = callee(m);
      x["acc"] = (int)m->getAccess();
      x["line"] = lineOf(m->getLocation());
      ms.push_back(std::move(x));
    }
    o["bases"] = std::move(bs);
    o["fields"] = std::move(fs);
    o["methods"] = std::move(ms);
    json::Object sp;
    auto spec = [&](const char *n, bool simple) { sp[n] = simple; };
    spec("trivially_copyable", R->isTriviallyCopyable());
    bool cc = false, ca = false, mcx = false, ma = false;
    for (auto *c : R->ctors()) {
      if (c->isCopyConstructor() && !c->isDeleted()) cc = true;
      if (c->isMoveConstructor() && !c->isDeleted()) mcx = true;
    }
    for (auto *m : R->methods()) {
      if (m->isCopyAssignmentOperator() && !m->isDeleted()) ca = true;
      if (m->isMoveAssignmentOperator() && !m->isDeleted()) ma = true;
    }
    sp["copy_ctor"] = cc || R->needsImplicitCopyConstructor();
    sp["copy_asg"] = ca;
    sp["move_ctor"] = mcx || R->needsImplicitMoveConstructor();
    sp["move_asg"] = ma;
    o["special"] = std::move(sp);
    OS << json::Value(std::move(o)) << "\n";
  }

  void handle(FunctionDecl *F) {
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) && !(F->isDefaulted() && F->doesThisDeclarationHaveABody())) return;
    if (!Def) Def = F;
    if (Def->isInvalidDecl()) return;
    if (!Done.insert(Def).second) return;
    SourceLocation L = Def->getLocation();
    if (!inRoot(L)) return;
    Stmt *Body = Def->getBody();
    if (!Body) return;
    // reset
    Ids.clear(); Nodes.clear(); VarIds.clear(); Elems.clear(); NextId = 0; Lambdas.clear(); TryOf.clear(); TryIds.clear();

    CFG::BuildOptions BO;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddTemporaryDtors = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddEHEdges = false;
    BO.setAllAlwaysAdd();
    bool IsCoro = false;
    if (auto *cb = dyn_cast<CoroutineBodyStmt>(Body)) {
      IsCoro = true;
      Body = cb->getBody();
    }
    std::unique_ptr<CFG> G = CFG::buildCFG(Def, Body, &C, BO);
    json::Object o = callee(Def);
    o["fdef"] = true;
    o["file"] = fileOf(L);
    o["line"] = lineOf(L);
    o["endline"] = lineOf(Body->getEndLoc());
    if (Def->isImplicit()) o["impl"] = true;
    if (IsCoro) o["coro"] = true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(Def)) {
      o["acc"] = (int)MD->getAccess();
      if (MD->getParent()->isLambda()) {
        o["lambda"] = true;
        llvm::DenseMap<const ValueDecl *, FieldDecl *> caps;
        FieldDecl *thisCap = nullptr;
        MD->getParent()->getCaptureFields(caps, thisCap);
        json::Array cv;
        for (auto &kv : caps) {
          json::Object x;
          x["v"] = var(kv.first);
          x["n"] = kv.first->getNameAsString();
          x["fty"] = ty(kv.second->getType());
          cv.push_back(std::move(x));
        }
        o["capvars"] = std::move(cv);
      }
      json::Array ov;
      for (auto *b : MD->overridden_methods()) ov.push_back(fid(b));
      o["over"] = std::move(ov);
    }
    if (isa<CXXConstructorDecl>(Def)) o["fk"] = "ctor";
    if (isa<CXXDestructorDecl>(Def)) o["fk"] = "dtor";
    json::Array ps;
    for (auto *P : Def->parameters()) {
      json::Object x = varRef(P);
      if (P->getType()->isReferenceType()) x["isref"] = true;
      ps.push_back(std::move(x));
    }
    o["params"] = std::move(ps);
    if (!G) {
      o["nocfg"] = true;
      OS << json::Value(std::move(o)) << "\n";
      return;
    }
    std::vector<const CXXTryStmt *> st;
    walkTry(Body, st);
    for (auto *B : *G)
      for (auto &El : *B)
        if (auto cs = El.getAs<CFGStmt>()) Elems.insert(strip(cs->getStmt()));
    json::Array blocks;
    for (auto *B : *G) {
      json::Object b;
      b["id"] = (int)B->getBlockID();
      json::Array els;
      for (auto &El : *B) {
        if (auto cs = El.getAs<CFGStmt>()) {
          const Stmt *s = cs->getStmt();
          if (strip(s) != s) continue;  // the stripped node has its own element
          int n = node(s);
          auto it = TryOf.find(s);
          if (it != TryOf.end()) {
            json::Array ta;
            for (auto *t : it->second) ta.push_back(TryIds[t]);
            Nodes[n]["try"] = std::move(ta);
          }
          els.push_back(n);
        } else if (auto ci = El.getAs<CFGInitializer>()) {
          auto *I = ci->getInitializer();
          json::Object x;
          x["k"] = "init";
          x["l"] = lineOf(I->getSourceLocation());
          if (I->isAnyMemberInitializer()) {
            x["f"] = I->getAnyMember()->getNameAsString();
            x["fc"] = ty(C.getRecordType(I->getAnyMember()->getParent()));
            x["ft"] = ty(I->getAnyMember()->getType());
            if (I->getAnyMember()->getType()->isReferenceType()) x["isref"] = true;
          } else if (I->isBaseInitializer()) {
            x["base"] = ty(QualType(I->getBaseClass(), 0));
          } else
            x["deleg"] = true;
          x["a"] = node(I->getInit());
          els.push_back(std::move(x));
        } else if (auto d = El.getAs<CFGAutomaticObjDtor>()) {
          json::Object x;
          x["k"] = "dtor";
          x["w"] = "auto";
          x["v"] = var(d->getVarDecl());
          x["t"] = ty(d->getVarDecl()->getType());
          x["l"] = lineOf(d->getTriggerStmt()->getEndLoc());
          if (auto *D = d->getDestructorDecl(C)) { x["fn"] = callee(D); if (D->isTrivial()) x["triv"] = true; }
          els.push_back(std::move(x));
        } else if (auto d = El.getAs<CFGTemporaryDtor>()) {
          json::Object x;
          x["k"] = "dtor";
          x["w"] = "temp";
          x["a"] = node(d->getBindTemporaryExpr());
          x["l"] = lineOf(d->getBindTemporaryExpr()->getBeginLoc());
          x["t"] = ty(d->getBindTemporaryExpr()->getType());
          if (auto *D = d->getDestructorDecl(C)) x["fn"] = callee(D);
          els.push_back(std::move(x));
        } else if (auto d = El.getAs<CFGMemberDtor>()) {
          json::Object x;
          x["k"] = "dtor";
          x["w"] = "member";
          x["f"] = d->getFieldDecl()->getNameAsString();
          x["fc"] = ty(C.getRecordType(d->getFieldDecl()->getParent()));
          x["t"] = ty(d->getFieldDecl()->getType());
          x["l"] = lineOf(d->getFieldDecl()->getLocation());
          if (auto *D = d->getDestructorDecl(C)) x["fn"] = callee(D);
          els.push_back(std::move(x));
        } else if (auto d = El.getAs<CFGBaseDtor>()) {
          json::Object x;
          x["k"] = "dtor";
          x["w"] = "base";
          x["t"] = ty(d->getBaseSpecifier()->getType());
          x["l"] = lineOf(L);
          if (auto *D = d->getDestructorDecl(C)) x["fn"] = callee(D);
          els.push_back(std::move(x));
        } else if (auto d = El.getAs<CFGDeleteDtor>()) {
          json::Object x;
          x["k"] = "dtor";
          x["w"] = "delete";
          x["a"] = node(d->getDeleteExpr()->getArgument());
          x["l"] = lineOf(d->getDeleteExpr()->getBeginLoc());
          if (auto *D = d->getDestructorDecl(C)) x["fn"] = callee(D);
          els.push_back(std::move(x));
        }
      }
      b["els"] = std::move(els);
      CFGTerminator T = B->getTerminator();
      if (T.isValid()) {
        json::Object t;
        const Stmt *ts = T.getStmt();
        if (T.isTemporaryDtorsBranch()) {
          t["k"] = "tmpdtor";
          t["a"] = node(ts);
        } else {
          t["k"] = ts ? ts->getStmtClassName() : "?";
          if (ts) t["l"] = lineOf(ts->getBeginLoc());
          if (auto *bo = dyn_cast_or_null<BinaryOperator>(ts)) t["op"] = bo->getOpcodeStr().str();
          if (ts && isa<Expr>(ts)) t["n"] = node(ts);
          if (const Stmt *c = B->getTerminatorCondition(false)) t["c"] = node(c);
          if (auto *tr = dyn_cast_or_null<CXXTryStmt>(ts)) t["try"] = TryIds.count(tr) ? TryIds[tr] : -1;
        }
        b["t"] = std::move(t);
      }
      if (const Stmt *lab = B->getLabel()) {
        if (auto *cs = dyn_cast<CaseStmt>(lab)) {
          Expr::EvalResult R;
          if (cs->getLHS()->EvaluateAsInt(R, C)) {
            llvm::SmallString<32> str;
            R.Val.getInt().toString(str, 10);
            b["case"] = std::string(str.str());
          }
          if (cs->getRHS()) b["caserange"] = true;
        } else if (isa<DefaultStmt>(lab))
          b["default"] = true;
        else if (auto *ct = dyn_cast<CXXCatchStmt>(lab)) {
          b["catch"] = true;
          if (ct->getExceptionDecl()) {
            b["catchty"] = ty(ct->getCaughtType());
            b["catchv"] = var(ct->getExceptionDecl());
          }
          // which try does this handler belong to
          for (auto &kv : TryIds)
            for (unsigned i = 0; i < kv.first->getNumHandlers(); ++i)
              if (kv.first->getHandler(i) == ct) b["catchof"] = kv.second;
        }
      }
      if (B->hasNoReturnElement()) b["noret"] = true;
      json::Array su;
      for (auto &s : B->succs()) {
        if (s.getReachableBlock())
          su.push_back((int)s.getReachableBlock()->getBlockID());
        else
          su.push_back(-1);
      }
      b["s"] = std::move(su);
      if (B == &G->getEntry()) o["entry"] = (int)B->getBlockID();
      if (B == &G->getExit()) o["exit"] = (int)B->getBlockID();
      blocks.push_back(std::move(b));
    }
    o["blocks"] = std::move(blocks);
    json::Object trys;
    for (auto &kv : TryIds) {
      json::Array ta;
      auto it = TryOf.find(kv.first);
      if (it != TryOf.end())
        for (auto *t : it->second) ta.push_back(TryIds[t]);
      trys[std::to_string(kv.second)] = std::move(ta);
    }
    if (!trys.empty()) o["trys"] = std::move(trys);
    json::Object ns;
    for (auto &kv : Nodes) ns[std::to_string(kv.first)] = std::move(kv.second);
    o["nodes"] = std::move(ns);
    OS << json::Value(std::move(o)) << "\n";
  }
};

class Cons : public ASTConsumer {
  CompilerInstance &CI;

 public:
  explicit Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) {
      llvm::errs() << "EXTRACT: errors in translation unit\n";
      return;
    }
    std::error_code EC;
    llvm::raw_fd_ostream out(OutFile, EC);
    Ex E(CI, out);
    E.TraverseDecl(Ctx.getTranslationUnitDecl());
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Cons>(CI);
  }
};
}  // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) {
    llvm::errs() << P.takeError();
    return 2;
  }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
