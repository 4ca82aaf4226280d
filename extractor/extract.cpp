// Source-to-facts extractor: dumps the type-resolved program (functions incl. template
// instantiations, records, enums, globals, OpenMP directives) as one JSON document per line.
// usage: extract OUT.jsonl ROOT -- flags... -- file1.cpp file2.cpp ...
#include <fstream>
#include <set>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "clang/Tooling/CompilationDatabase.h"

using namespace clang;
namespace J = llvm::json;

static std::string gRoot;
static std::unordered_set<std::string> gSeen;
static llvm::raw_ostream* gOut;
static unsigned gErrors = 0;
static std::vector<std::string> gErrMsgs;

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> localIds;
  std::vector<std::pair<const CXXMethodDecl*, const LambdaExpr*>> lambdas;
  Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.PrintCanonicalTypes = true;
  }
  std::string ty(QualType t) {
    if (t.isNull()) return "?";
    return t.getCanonicalType().getAsString(PP);
  }
  std::string sugar(QualType t) {
    if (t.isNull()) return "?";
    PrintingPolicy p2 = PP;
    p2.PrintCanonicalTypes = false;
    return t.getAsString(p2);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    return f;
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  static std::string clean(std::string f) {
    // normalise a/../b
    llvm::SmallString<256> s(f);
    llvm::sys::path::remove_dots(s, true);
    return std::string(s.str());
  }
  bool inRoot(SourceLocation L) {
    std::string f = clean(file(L));
    return f.rfind(gRoot, 0) == 0;
  }
  std::string rel(SourceLocation L) {
    std::string f = clean(file(L));
    if (f.rfind(gRoot, 0) == 0) return f.substr(gRoot.size());
    return f;
  }
  std::string qname(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return s;
  }
  void targ(const TemplateArgument& A, llvm::raw_ostream& os) {
    if (A.getKind() == TemplateArgument::Declaration)
      if (auto* G = dyn_cast<FunctionDecl>(A.getAsDecl()))
        if (G->getTemplateSpecializationArgs()) {
          os << "&" << key(G);
          return;
        }
    A.print(PP, os, true);
  }
  std::string key(const FunctionDecl* F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        os << "lambda@" << rel(F->getLocation()) << ":" << line(F->getLocation()) << ":"
           << SM.getExpansionColumnNumber(F->getLocation());
        if (auto* ctx = dyn_cast_or_null<FunctionDecl>(M->getParent()->getDeclContext()))
          os << "@" << key(ctx);
        return os.str();
      }
      os << ty(C.getRecordType(M->getParent())) << "::";
      std::string n = M->getNameAsString();
      os << n;
    } else {
      F->printQualifiedName(os, PP);
    }
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      os << "<";
      for (unsigned i = 0; i < TA->size(); ++i) {
        if (i) os << ",";
        targ(TA->get(i), os);
      }
      os << ">";
    }
    os << "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      if (i) os << ",";
      os << ty(F->getParamDecl(i)->getType());
    }
    os << ")";
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) os << "const";
    if (!isa<CXXMethodDecl>(F) && F->getFormalLinkage() == Linkage::Internal &&
        SM.isInMainFile(SM.getExpansionLoc(F->getLocation())))
      os << "@" << rel(F->getLocation());
    return os.str();
  }
  int lid(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = localIds.find(D);
    if (it != localIds.end()) return it->second;
    int n = (int)localIds.size() + 1;
    localIds[D] = n;
    return n;
  }
  void loc(J::Object& o, const Stmt* S) { o["l"] = line(S->getBeginLoc()); }

  J::Object varInfo(const VarDecl* V) {
    J::Object o;
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["st"] = sugar(V->getType());
    if (V->hasGlobalStorage() && !V->isStaticDataMember() && !V->isLocalVarDecl()) {
      o["g"] = "global";
      o["q"] = qname(V);
    } else if (V->isStaticDataMember()) {
      o["g"] = "smember";
      o["q"] = qname(V);
    } else if (V->isStaticLocal()) {
      o["g"] = V->getTLSKind() != VarDecl::TLS_None ? "tls" : "static";
    } else {
      o["g"] = isa<ParmVarDecl>(V) ? "param" : "local";
    }
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (V->isConstexpr()) o["cx"] = true;
    o["id"] = lid(V);
    return o;
  }

  J::Value S(const Stmt* s);
  J::Array list(Stmt::const_child_range r) {
    J::Array a;
    for (const Stmt* c : r)
      if (c) a.push_back(S(c));
    return a;
  }
  J::Value fn(const FunctionDecl* F) {
    J::Object o;
    o["key"] = key(F);
    std::string q;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) q = "lambda";
      else {
        q = qname(M->getParent()) + "::" + M->getNameAsString();
        o["cls"] = ty(C.getRecordType(M->getParent()));
        o["clsq"] = qname(M->getParent());
      }
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
      J::Array ov;
      for (auto* b : M->overridden_methods()) ov.push_back(key(b));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    } else
      q = qname(F);
    o["q"] = q;
    o["name"] = F->getNameAsString();
    o["file"] = rel(F->getLocation());
    o["l"] = line(F->getLocation());
    o["el"] = line(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    if (F->isTemplateInstantiation()) o["inst"] = true;
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      J::Array ta;
      for (unsigned i = 0; i < TA->size(); ++i) {
        std::string s;
        llvm::raw_string_ostream os(s);
        targ(TA->get(i), os);
        ta.push_back(os.str());
      }
      o["targs"] = std::move(ta);
    }
    if (F->isDependentContext()) o["dep"] = true;
    J::Array ps;
    for (auto* p : F->parameters()) {
      J::Object po = varInfo(p);
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
      J::Array in;
      for (auto* I : K->inits()) {
        J::Object io;
        io["n"] = I->isMemberInitializer() ? I->getMember()->getNameAsString()
                  : I->isBaseInitializer() ? "(base)" : "(delegating)";
        io["w"] = I->isWritten();
        io["e"] = S(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
    const FunctionDecl* def = nullptr;
    if (F->getBody(def) && def) o["body"] = S(F->getBody());
    return o;
  }
  void callee(J::Object& o, const FunctionDecl* F) {
    o["f"] = key(F);
    std::string q;
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      q = M->getParent()->isLambda() ? "lambda" : qname(M->getParent()) + "::" + M->getNameAsString();
    else
      q = qname(F);
    o["n"] = q;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o["mc"] = true;
      if (M->isStatic()) o["ms"] = true;
      if (M->isVirtual()) o["virt"] = true;
    }
    J::Array pt;
    for (auto* p : F->parameters()) pt.push_back(ty(p->getType()));
    o["pt"] = std::move(pt);
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      J::Array ta;
      for (unsigned i = 0; i < TA->size(); ++i) {
        std::string s;
        llvm::raw_string_ostream os(s);
        targ(TA->get(i), os);
        ta.push_back(os.str());
      }
      o["ta"] = std::move(ta);
    }
  }
};

static std::string macroOf(SourceManager& SM, const LangOptions& LO, SourceLocation L) {
  if (!L.isMacroID()) return "";
  return Lexer::getImmediateMacroName(L, SM, LO).str();
}

J::Value Dumper::S(const Stmt* s) {
  J::Object o;
  if (!s) return nullptr;
  o["l"] = line(s->getBeginLoc());
  auto kids = [&](const char* k) {
    o["k"] = k;
    o["c"] = list(s->children());
  };
  // transparent nodes
  if (auto* e = dyn_cast<ParenExpr>(s)) return S(e->getSubExpr());
  if (auto* e = dyn_cast<ExprWithCleanups>(s)) return S(e->getSubExpr());
  if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) return S(e->getSubExpr());
  if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) return S(e->getSubExpr());
  if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return S(e->getReplacement());
  if (auto* e = dyn_cast<ConstantExpr>(s)) return S(e->getSubExpr());
  if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) {
    o["k"] = "defarg";
    o["c"] = J::Array{S(e->getExpr())};
    return o;
  }
  if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) return S(e->getExpr());
  if (auto* e = dyn_cast<AttributedStmt>(s)) return S(e->getSubStmt());
  if (auto* e = dyn_cast<CapturedStmt>(s)) return S(e->getCapturedStmt());
  if (auto* e = dyn_cast<FullExpr>(s)) return S(e->getSubExpr());
  if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) return S(e->getSemanticForm());
  if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
    switch (e->getCastKind()) {
      case CK_IntegralCast:
      case CK_FloatingCast:
      case CK_IntegralToFloating:
      case CK_FloatingToIntegral: {
        o["k"] = "icast";
        o["t"] = ty(e->getType());
        o["ft"] = ty(e->getSubExpr()->getType());
        Expr::EvalResult R;
        if (!e->isValueDependent() && e->EvaluateAsInt(R, C)) o["cv"] = llvm::toString(R.Val.getInt(), 10);
        o["c"] = J::Array{S(e->getSubExpr())};
        return o;
      }
      default:
        return S(e->getSubExpr());
    }
  }
  if (auto* e = dyn_cast<ExplicitCastExpr>(s)) {
    o["k"] = "cast";
    o["ck"] = e->getStmtClassName();
    o["t"] = ty(e->getTypeAsWritten());
    o["ft"] = ty(e->getSubExprAsWritten()->getType());
    Expr::EvalResult R;
    if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(R, C))
      o["cv"] = llvm::toString(R.Val.getInt(), 10);
    o["c"] = J::Array{S(e->getSubExpr())};
    return o;
  }
  // statements
  if (isa<CompoundStmt>(s)) { kids("seq"); o["el"] = line(s->getEndLoc()); return o; }
  if (auto* i = dyn_cast<IfStmt>(s)) {
    o["k"] = "if";
    if (i->isConstexpr()) {
      o["cx"] = true;
      Expr::EvalResult R;
      if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsInt(R, C))
        o["cv"] = (int)R.Val.getInt().getBoolValue();
    }
    std::string m = macroOf(SM, C.getLangOpts(), i->getBeginLoc());
    if (!m.empty()) o["macro"] = m;
    if (i->getInit()) o["init"] = S(i->getInit());
    if (i->getConditionVariableDeclStmt()) o["cdecl"] = S(i->getConditionVariableDeclStmt());
    o["cond"] = S(i->getCond());
    o["then"] = S(i->getThen());
    if (i->getElse()) o["else"] = S(i->getElse());
    return o;
  }
  if (auto* f = dyn_cast<ForStmt>(s)) {
    o["k"] = "for";
    if (f->getInit()) o["init"] = S(f->getInit());
    if (f->getCond()) o["cond"] = S(f->getCond());
    if (f->getInc()) o["inc"] = S(f->getInc());
    o["body"] = S(f->getBody());
    return o;
  }
  if (auto* f = dyn_cast<CXXForRangeStmt>(s)) {
    o["k"] = "rfor";
    o["var"] = varInfo(f->getLoopVariable());
    o["range"] = S(f->getRangeInit());
    if (f->getInit()) o["init"] = S(f->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(f->getLoopVariable())) {
      J::Array b;
      for (auto* bd : dd->bindings()) {
        J::Object bo;
        bo["n"] = bd->getNameAsString();
        bo["id"] = lid(bd);
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    o["body"] = S(f->getBody());
    return o;
  }
  if (auto* w = dyn_cast<WhileStmt>(s)) {
    o["k"] = "while";
    if (w->getConditionVariableDeclStmt()) o["cdecl"] = S(w->getConditionVariableDeclStmt());
    o["cond"] = S(w->getCond());
    o["body"] = S(w->getBody());
    return o;
  }
  if (auto* w = dyn_cast<DoStmt>(s)) {
    o["k"] = "do";
    o["cond"] = S(w->getCond());
    o["body"] = S(w->getBody());
    return o;
  }
  if (auto* w = dyn_cast<SwitchStmt>(s)) {
    o["k"] = "switch";
    if (w->getInit()) o["init"] = S(w->getInit());
    o["cond"] = S(w->getCond());
    o["body"] = S(w->getBody());
    return o;
  }
  if (auto* c = dyn_cast<CaseStmt>(s)) {
    o["k"] = "case";
    o["v"] = S(c->getLHS());
    Expr::EvalResult R;
    if (!c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsInt(R, C))
      o["cv"] = llvm::toString(R.Val.getInt(), 10);
    o["body"] = S(c->getSubStmt());
    return o;
  }
  if (auto* c = dyn_cast<DefaultStmt>(s)) {
    o["k"] = "default";
    o["body"] = S(c->getSubStmt());
    return o;
  }
  if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
  if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
  if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
  if (auto* r = dyn_cast<ReturnStmt>(s)) {
    o["k"] = "return";
    if (r->getRetValue()) o["e"] = S(r->getRetValue());
    return o;
  }
  if (auto* g = dyn_cast<GotoStmt>(s)) { o["k"] = "goto"; o["n"] = g->getLabel()->getNameAsString(); return o; }
  if (auto* g = dyn_cast<LabelStmt>(s)) {
    o["k"] = "label"; o["n"] = g->getName(); o["body"] = S(g->getSubStmt()); return o;
  }
  if (auto* d = dyn_cast<DeclStmt>(s)) {
    o["k"] = "decl";
    J::Array vs;
    for (auto* D : d->decls()) {
      if (auto* V = dyn_cast<VarDecl>(D)) {
        J::Object v = varInfo(V);
        v["l"] = line(V->getLocation());
        if (V->getInit()) v["init"] = S(V->getInit());
        if (auto* rd = V->getType()->getAsCXXRecordDecl())
          if (rd->getDestructor()) v["dtor"] = key(rd->getDestructor());
        if (auto* dd = dyn_cast<DecompositionDecl>(V)) {
          J::Array b;
          for (auto* bd : dd->bindings()) {
            J::Object bo;
            bo["n"] = bd->getNameAsString();
            bo["id"] = lid(bd);
            b.push_back(std::move(bo));
          }
          v["bind"] = std::move(b);
        }
        vs.push_back(std::move(v));
      }
    }
    o["vars"] = std::move(vs);
    return o;
  }
  if (auto* t = dyn_cast<CXXTryStmt>(s)) {
    o["k"] = "try";
    o["body"] = S(t->getTryBlock());
    J::Array hs;
    for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
      J::Object h;
      auto* ch = t->getHandler(i);
      h["t"] = ch->getExceptionDecl() ? ty(ch->getCaughtType()) : std::string("...");
      if (ch->getExceptionDecl()) h["var"] = varInfo(ch->getExceptionDecl());
      h["body"] = S(ch->getHandlerBlock());
      h["l"] = line(ch->getBeginLoc());
      hs.push_back(std::move(h));
    }
    o["h"] = std::move(hs);
    return o;
  }
  if (auto* d = dyn_cast<OMPExecutableDirective>(s)) {
    o["k"] = "omp";
    o["d"] = llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()).str();
    if (auto* cr = dyn_cast<OMPCriticalDirective>(s)) o["nm"] = cr->getDirectiveName().getAsString();
    J::Array cl;
    for (auto* c : d->clauses()) {
      if (!c || c->isImplicit()) continue;
      J::Object co;
      co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
      J::Array vs;
      auto vl = [&](auto* lc) {
        for (auto* e : lc->varlists()) vs.push_back(S(e));
      };
      if (auto* x = dyn_cast<OMPPrivateClause>(c)) vl(x);
      else if (auto* x = dyn_cast<OMPFirstprivateClause>(c)) vl(x);
      else if (auto* x = dyn_cast<OMPLastprivateClause>(c)) vl(x);
      else if (auto* x = dyn_cast<OMPSharedClause>(c)) vl(x);
      else if (auto* x = dyn_cast<OMPReductionClause>(c)) {
        vl(x);
        co["op"] = x->getNameInfo().getAsString();
      } else if (auto* x = dyn_cast<OMPCollapseClause>(c)) {
        Expr::EvalResult R;
        if (x->getNumForLoops()->EvaluateAsInt(R, C)) co["v"] = (int)R.Val.getInt().getExtValue();
      } else if (auto* x = dyn_cast<OMPNumThreadsClause>(c)) {
        co["e"] = S(x->getNumThreads());
      } else if (auto* x = dyn_cast<OMPIfClause>(c)) {
        co["e"] = S(x->getCondition());
      }
      co["vars"] = std::move(vs);
      cl.push_back(std::move(co));
    }
    o["cl"] = std::move(cl);
    if (d->hasAssociatedStmt()) {
      const Stmt* b = d->getAssociatedStmt();
      while (auto* cs = dyn_cast<CapturedStmt>(b)) b = cs->getCapturedStmt();
      o["body"] = S(b);
    }
    return o;
  }
  // expressions
  auto* E = dyn_cast<Expr>(s);
  if (E) o["t"] = ty(E->getType());
  if (auto* e = dyn_cast<DeclRefExpr>(s)) {
    const ValueDecl* D = e->getDecl();
    o["n"] = D->getNameAsString();
    if (auto* V = dyn_cast<VarDecl>(D)) {
      o["k"] = "ref";
      if (V->hasGlobalStorage() && !V->isStaticLocal()) {
        o["g"] = V->isStaticDataMember() ? "smember" : "global";
        o["q"] = qname(V);
      } else if (V->isStaticLocal()) {
        o["g"] = V->getTLSKind() != VarDecl::TLS_None ? "tls" : "static";
      } else
        o["g"] = isa<ParmVarDecl>(V) ? "param" : "local";
      o["d"] = lid(V);
      if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
      Expr::EvalResult R;
      if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(R, C))
        o["cv"] = llvm::toString(R.Val.getInt(), 10);
    } else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
      o["k"] = "enum";
      o["q"] = qname(EC);
      o["cv"] = llvm::toString(EC->getInitVal(), 10);
    } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
      o["k"] = "fref";
      callee(o, F);
    } else if (auto* B = dyn_cast<BindingDecl>(D)) {
      o["k"] = "ref";
      o["g"] = "local";
      o["d"] = lid(B);
      o["bind"] = true;
    } else {
      o["k"] = "ref";
      o["g"] = "other";
      o["d"] = lid(D);
    }
    return o;
  }
  if (auto* e = dyn_cast<MemberExpr>(s)) {
    o["k"] = "mem";
    auto* D = e->getMemberDecl();
    o["n"] = D->getNameAsString();
    if (isa<FieldDecl>(D)) o["mk"] = "field";
    else if (isa<CXXMethodDecl>(D)) o["mk"] = "method";
    else o["mk"] = "static";
    if (auto* RD = dyn_cast<CXXRecordDecl>(D->getDeclContext())) o["cls"] = qname(RD);
    if (auto* F = dyn_cast<FunctionDecl>(D)) callee(o, F);
    if (e->isArrow()) o["arrow"] = true;
    o["b"] = S(e->getBase());
    return o;
  }
  if (auto* e = dyn_cast<CXXThisExpr>(s)) { o["k"] = "this"; (void)e; return o; }
  if (auto* e = dyn_cast<CXXMemberCallExpr>(s)) {
    o["k"] = "call";
    if (auto* M = e->getMethodDecl()) {
      callee(o, M);
      if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParenImpCasts())) {
        if (me->hasQualifier()) o["virt"] = false;
      }
    } else {
      o["fe"] = S(e->getCallee());
    }
    if (e->getImplicitObjectArgument()) o["obj"] = S(e->getImplicitObjectArgument());
    J::Array a;
    for (auto* x : e->arguments()) a.push_back(S(x));
    o["a"] = std::move(a);
    o["rl"] = line(e->getExprLoc());
    return o;
  }
  if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
    o["k"] = "call";
    o["op"] = getOperatorSpelling(e->getOperator());
    const FunctionDecl* F = e->getDirectCallee();
    if (F) callee(o, F);
    else o["fe"] = S(e->getCallee());
    unsigned st = 0;
    if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && e->getNumArgs() > 0) {
      o["obj"] = S(e->getArg(0));
      st = 1;
    }
    J::Array a;
    for (unsigned i = st; i < e->getNumArgs(); ++i) a.push_back(S(e->getArg(i)));
    o["a"] = std::move(a);
    return o;
  }
  if (auto* e = dyn_cast<CallExpr>(s)) {
    o["k"] = "call";
    const FunctionDecl* F = e->getDirectCallee();
    if (F) {
      callee(o, F);
      // object for static method call through pointer ignored
    } else
      o["fe"] = S(e->getCallee());
    J::Array a;
    for (auto* x : e->arguments()) a.push_back(S(x));
    o["a"] = std::move(a);
    std::string m = macroOf(SM, C.getLangOpts(), e->getBeginLoc());
    if (!m.empty()) o["macro"] = m;
    return o;
  }
  if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
    o["k"] = "ctor";
    if (e->isListInitialization() || e->isStdInitListInitialization()) o["li"] = true;
    callee(o, e->getConstructor());
    o["cls"] = qname(e->getConstructor()->getParent());
    if (isa<CXXTemporaryObjectExpr>(s)) o["tmp"] = true;
    if (e->isElidable()) o["el"] = true;
    J::Array a;
    for (auto* x : e->arguments()) a.push_back(S(x));
    o["a"] = std::move(a);
    return o;
  }
  if (auto* e = dyn_cast<LambdaExpr>(s)) {
    o["k"] = "lambda";
    o["f"] = key(e->getCallOperator());
    J::Array cs;
    auto ii = e->capture_init_begin();
    for (auto& c : e->captures()) {
      J::Object co;
      co["k"] = c.capturesThis() ? "this" : c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
      if (c.capturesVariable()) {
        co["n"] = c.getCapturedVar()->getNameAsString();
        co["d"] = lid(c.getCapturedVar());
      }
      if (ii != e->capture_init_end()) { if (*ii) co["e"] = S(*ii); ++ii; }
      cs.push_back(std::move(co));
    }
    o["caps"] = std::move(cs);
    J::Array ps;
    for (auto* p : e->getCallOperator()->parameters()) ps.push_back(varInfo(p));
    o["params"] = std::move(ps);
    o["body"] = S(e->getBody());
    return o;
  }
  if (auto* e = dyn_cast<BinaryOperator>(s)) {
    o["k"] = e->isAssignmentOp() ? "asg" : "bin";
    o["op"] = e->getOpcodeStr().str();
    o["c"] = J::Array{S(e->getLHS()), S(e->getRHS())};
    Expr::EvalResult R;
    if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !e->isAssignmentOp() && e->EvaluateAsInt(R, C))
      o["cv"] = llvm::toString(R.Val.getInt(), 10);
    return o;
  }
  if (auto* e = dyn_cast<UnaryOperator>(s)) {
    o["k"] = "un";
    o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
    if (e->isPostfix()) o["post"] = true;
    Expr::EvalResult R;
    if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(R, C))
      o["cv"] = llvm::toString(R.Val.getInt(), 10);
    o["c"] = J::Array{S(e->getSubExpr())};
    return o;
  }
  if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
    o["k"] = "sub";
    o["c"] = J::Array{S(e->getBase()), S(e->getIdx())};
    return o;
  }
  if (auto* e = dyn_cast<ConditionalOperator>(s)) {
    o["k"] = "cond";
    o["c"] = J::Array{S(e->getCond()), S(e->getTrueExpr()), S(e->getFalseExpr())};
    return o;
  }
  if (auto* e = dyn_cast<IntegerLiteral>(s)) {
    o["k"] = "lit"; o["v"] = llvm::toString(e->getValue(), 10, e->getType()->isSignedIntegerType()); return o;
  }
  if (auto* e = dyn_cast<FloatingLiteral>(s)) { o["k"] = "lit"; o["v"] = std::to_string(e->getValueAsApproximateDouble()); return o; }
  if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) { o["k"] = "lit"; o["v"] = e->getValue() ? "true" : "false"; return o; }
  if (auto* e = dyn_cast<clang::StringLiteral>(s)) {
    o["k"] = "str";
    std::string v = e->isOrdinary() || e->isUTF8() ? e->getString().str() : "";
    o["v"] = llvm::json::fixUTF8(v);
    return o;
  }
  if (auto* e = dyn_cast<CharacterLiteral>(s)) { o["k"] = "lit"; o["v"] = std::to_string(e->getValue()); return o; }
  if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { o["k"] = "null_ptr"; return o; }
  if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
    o["k"] = "sizeof";
    o["of"] = ty(e->getTypeOfArgument());
    Expr::EvalResult R;
    if (!e->isValueDependent() && e->EvaluateAsInt(R, C)) o["cv"] = llvm::toString(R.Val.getInt(), 10);
    return o;
  }
  if (auto* e = dyn_cast<CXXNewExpr>(s)) {
    o["k"] = "new";
    o["of"] = ty(e->getAllocatedType());
    if (e->isArray()) o["arr"] = true;
    J::Array a;
    if (e->isArray() && e->getArraySize() && *e->getArraySize()) a.push_back(S(*e->getArraySize()));
    if (e->getInitializer()) a.push_back(S(e->getInitializer()));
    o["c"] = std::move(a);
    return o;
  }
  if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
    o["k"] = "delete";
    if (e->isArrayForm()) o["arr"] = true;
    o["c"] = J::Array{S(e->getArgument())};
    return o;
  }
  if (auto* e = dyn_cast<CXXThrowExpr>(s)) {
    o["k"] = "throw";
    J::Array a;
    if (e->getSubExpr()) a.push_back(S(e->getSubExpr()));
    o["c"] = std::move(a);
    return o;
  }
  if (auto* e = dyn_cast<InitListExpr>(s)) {
    o["k"] = "ilist";
    J::Array a;
    for (auto* x : e->inits()) a.push_back(S(x));
    o["c"] = std::move(a);
    return o;
  }
  if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) return S(e->getSubExpr());
  if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) { o["k"] = "zero"; return o; }
  if (auto* e = dyn_cast<PredefinedExpr>(s)) { (void)e; o["k"] = "str"; o["v"] = "__func__"; return o; }
  if (auto* e = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
    o["k"] = "dmem";
    o["n"] = e->getMember().getAsString();
    if (!e->isImplicitAccess()) o["b"] = S(e->getBase());
    return o;
  }
  if (auto* e = dyn_cast<OverloadExpr>(s)) { o["k"] = "ovl"; o["n"] = e->getName().getAsString(); return o; }
  o["k"] = "other";
  o["cn"] = s->getStmtClassName();
  o["c"] = list(s->children());
  return o;
}

class V : public RecursiveASTVisitor<V> {
 public:
  ASTContext& C;
  SourceManager& SM;
  explicit V(ASTContext& c) : C(c), SM(c.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  void emit(const char* kind, J::Value v) {
    J::Object o;
    o["K"] = kind;
    o["v"] = std::move(v);
    *gOut << J::Value(std::move(o)) << "\n";
  }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (!F->isThisDeclarationADefinition() && !F->isDefaulted()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    Dumper D(C);
    if (!D.inRoot(F->getLocation())) return true;
    if (F->isDependentContext()) {
      // remember only that the template exists
      std::string k = "T:" + D.rel(F->getLocation()) + ":" + std::to_string(D.line(F->getLocation()));
      if (gSeen.insert(k).second) {
        J::Object o;
        o["q"] = D.qname(F);
        o["file"] = D.rel(F->getLocation());
        o["l"] = D.line(F->getLocation());
        emit("tmpl", std::move(o));
      }
      return true;
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;  // dumped inline
    std::string k = D.key(F);
    if (!gSeen.insert("F:" + k).second) return true;
    emit("fn", D.fn(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
    Dumper D(C);
    if (!D.inRoot(R->getLocation())) return true;
    bool dep = R->isDependentContext();
    std::string k = D.ty(C.getRecordType(R));
    if (!gSeen.insert((dep ? "RT:" : "R:") + k).second) return true;
    J::Object o;
    o["t"] = k;
    o["q"] = D.qname(R);
    o["dep"] = dep;
    o["file"] = D.rel(R->getLocation());
    o["l"] = D.line(R->getLocation());
    o["abstract"] = !dep && R->isAbstract();
    J::Array fs;
    for (auto* f : R->fields()) {
      J::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = D.ty(f->getType());
      fo["st"] = D.sugar(f->getType());
      fo["l"] = D.line(f->getLocation());
      fo["acc"] = (int)f->getAccess();
      if (f->hasInClassInitializer() && f->getInClassInitializer() && !dep) fo["init"] = D.S(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    J::Array bs;
    for (auto& b : R->bases()) bs.push_back(D.ty(b.getType()));
    o["bases"] = std::move(bs);
    J::Array ms;
    for (auto* m : R->methods()) {
      J::Object mo;
      mo["n"] = m->getNameAsString();
      mo["f"] = D.key(m);
      if (m->isConst()) mo["const"] = true;
      if (m->isStatic()) mo["static"] = true;
      if (m->isVirtual()) mo["virt"] = true;
      mo["acc"] = (int)m->getAccess();
      mo["del"] = m->isDeleted();
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    emit("rec", std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!E->isThisDeclarationADefinition()) return true;
    Dumper D(C);
    if (!D.inRoot(E->getLocation())) return true;
    std::string k = D.rel(E->getLocation()) + ":" + std::to_string(D.line(E->getLocation()));
    if (!gSeen.insert("E:" + k).second) return true;
    J::Object o;
    o["q"] = D.qname(E);
    o["file"] = D.rel(E->getLocation());
    o["l"] = D.line(E->getLocation());
    J::Array es;
    for (auto* e : E->enumerators()) {
      J::Object eo;
      eo["n"] = e->getNameAsString();
      eo["q"] = D.qname(e);
      eo["v"] = llvm::toString(e->getInitVal(), 10);
      es.push_back(std::move(eo));
    }
    o["e"] = std::move(es);
    emit("enum", std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* W) {
    if (!W->hasGlobalStorage() || W->isStaticLocal()) return true;
    Dumper D(C);
    if (!D.inRoot(W->getLocation())) return true;
    if (W->getDeclContext()->isDependentContext() || W->getType()->isDependentType()) return true;
    std::string k = D.qname(W) + D.rel(W->getLocation()) + D.ty(W->getType());
    if (!W->isThisDeclarationADefinition()) return true;
    if (!gSeen.insert("V:" + k).second) return true;
    J::Object o = D.varInfo(W);
    o["q"] = D.qname(W);
    o["file"] = D.rel(W->getLocation());
    o["l"] = D.line(W->getLocation());
    if (W->getInit()) {
      o["init"] = D.S(W->getInit());
      Expr::EvalResult R;
      if (!W->getInit()->isValueDependent() && W->getType()->isIntegralOrEnumerationType() &&
          W->getInit()->EvaluateAsInt(R, C))
        o["cv"] = llvm::toString(R.Val.getInt(), 10);
    }
    emit("var", std::move(o));
    return true;
  }
};

class Cons : public ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    return std::make_unique<Cons>();
  }
};
class DC : public DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic& I) override {
    if (L < DiagnosticsEngine::Error) return;
    llvm::SmallString<200> b;
    I.FormatDiagnostic(b);
    std::string f = "?";
    if (I.hasSourceManager() && I.getLocation().isValid()) {
      auto P = I.getSourceManager().getPresumedLoc(I.getLocation());
      if (P.isValid()) f = std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
    }
    gErrMsgs.push_back(f + ": " + b.str().str());
    ++gErrors;
  }
};

int main(int argc, char** argv) {
  std::string out = argv[1];
  gRoot = argv[2];
  std::vector<std::string> flags, files;
  int i = 3;
  for (++i; i < argc && std::string(argv[i]) != "--"; ++i) flags.push_back(argv[i]);
  for (++i; i < argc; ++i) files.push_back(argv[i]);
  std::error_code ec;
  llvm::raw_fd_ostream os(out, ec);
  if (ec) { llvm::errs() << "cannot open " << out << "\n"; return 2; }
  gOut = &os;
  tooling::FixedCompilationDatabase db("/", flags);
  for (auto& f : files) {
    unsigned before = gErrors;
    gErrMsgs.clear();
    tooling::ClangTool T(db, {f});
    T.clearArgumentsAdjusters();
    T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    DC dc;
    T.setDiagnosticConsumer(&dc);
    T.setPrintErrorMessage(false);
    T.run(tooling::newFrontendActionFactory<Act>().get());
    J::Object o, v;
    v["file"] = f;
    v["errors"] = (int)(gErrors - before);
    J::Array m;
    for (size_t k = 0; k < gErrMsgs.size() && k < 20; ++k) m.push_back(gErrMsgs[k]);
    v["msgs"] = std::move(m);
    o["K"] = "tu";
    o["v"] = std::move(v);
    os << J::Value(std::move(o)) << "\n";
  }
  return 0;
}
