// Exports the type-checked, template-instantiated program reachable from a
// witness translation unit as JSON: functions with resolved callees, records
// with layouts, types.  Only functions whose definition lies under one of the
// --root directories (or in the main file) get their bodies exported; all
// others (the standard library) are exported as signatures only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
using J = json::Value;
using O = json::Object;
using A = json::Array;

static std::vector<std::string> roots;
static std::string outFile;

struct Ex {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> declIds;
  std::map<const void *, int> typeIds;
  A types;
  std::map<int, O> fns, recs, vars;
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *> queued;
  std::set<const CXXRecordDecl *> recDone;
  std::map<std::string, int> fileIds;
  A files;
  std::map<std::string, int> unknown;

  Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true;
  }

  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }
  int fileId(const std::string &f) {
    auto it = fileIds.find(f);
    if (it != fileIds.end()) return it->second;
    int n = files.size();
    files.push_back(f);
    fileIds[f] = n;
    return n;
  }
  J loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return A{-1, 0};
    return A{fileId(SM.getFilename(L).str()), (int)SM.getExpansionLineNumber(L)};
  }
  bool inRoots(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    if (SM.isInMainFile(L)) return true;
    std::string f = SM.getFilename(L).str();
    for (auto &r : roots)
      if (f.find(r) != std::string::npos) return true;
    return false;
  }

  int type(QualType T) {
    T = T.getCanonicalType();
    auto it = typeIds.find(T.getAsOpaquePtr());
    if (it != typeIds.end()) return it->second;
    int n = types.size();
    typeIds[T.getAsOpaquePtr()] = n;
    types.push_back(nullptr);
    O o;
    o["s"] = T.getAsString(PP);
    if (T.isConstQualified()) o["c"] = 1;
    const Type *t = T.getTypePtr();
    if (auto *r = dyn_cast<LValueReferenceType>(t)) {
      o["k"] = "lref"; o["p"] = type(r->getPointeeType());
    } else if (auto *r = dyn_cast<RValueReferenceType>(t)) {
      o["k"] = "rref"; o["p"] = type(r->getPointeeType());
    } else if (auto *r = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr"; o["p"] = type(r->getPointeeType());
    } else if (t->isRecordType()) {
      o["k"] = "rec";
      if (auto *rd = t->getAsCXXRecordDecl()) o["r"] = rec(rd);
    } else if (t->isBooleanType()) o["k"] = "bool";
    else if (t->isIntegralOrEnumerationType()) {
      o["k"] = "int"; if (t->isUnsignedIntegerOrEnumerationType()) o["u"] = 1;
    } else if (t->isVoidType()) o["k"] = "void";
    else if (t->isFunctionType()) o["k"] = "fn";
    else if (t->isNullPtrType()) o["k"] = "nullptr";
    else if (auto *at = dyn_cast<ArrayType>(t)) {
      o["k"] = "arr"; o["p"] = type(at->getElementType());
      if (auto *ca = dyn_cast<ConstantArrayType>(t)) o["n"] = (int64_t)ca->getSize().getZExtValue();
    } else o["k"] = "other";
    if (!t->isIncompleteType() && !t->isFunctionType() && !t->isReferenceType() && !t->isDependentType() && !t->isVoidType() && !t->isUndeducedType())
      o["z"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
    types[n] = std::move(o);
    return n;
  }

  J targ(const TemplateArgument &a) {
    switch (a.getKind()) {
    case TemplateArgument::Type: return O{{"t", type(a.getAsType())}};
    case TemplateArgument::Integral: return O{{"i", (int64_t)a.getAsIntegral().getExtValue()}};
    case TemplateArgument::Pack: {
      A r; for (auto &x : a.pack_elements()) r.push_back(targ(x));
      return O{{"pack", std::move(r)}};
    }
    default: return O{{"o", (int)a.getKind()}};
    }
  }

  int rec(const CXXRecordDecl *R) {
    if (auto *D = R->getDefinition()) R = D;
    int id = did(R);
    if (!recDone.insert(R).second) return id;
    O o;
    o["q"] = R->getQualifiedNameAsString();
    o["s"] = C.getRecordType(R).getAsString(PP);
    o["loc"] = loc(R->getLocation());
    o["in"] = inRoots(R->getLocation());
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      A ta; for (auto &x : S->getTemplateArgs().asArray()) ta.push_back(targ(x));
      o["ta"] = std::move(ta);
    }
    if (R->isLambda()) o["lambda"] = 1;
    if (R->hasDefinition() && !R->isDependentType() && !R->isInvalidDecl()) {
      const ASTRecordLayout *L = nullptr;
      bool complete = true;
      L = &C.getASTRecordLayout(R);
      o["z"] = (int64_t)L->getSize().getQuantity();
      A b, f;
      for (auto &bs : R->bases()) {
        auto *br = bs.getType()->getAsCXXRecordDecl();
        if (!br) { complete = false; continue; }
        O x{{"r", rec(br)}};
        if (bs.isVirtual()) x["v"] = 1;
        else x["off"] = (int64_t)L->getBaseClassOffset(br->getDefinition()).getQuantity();
        x["acc"] = (int)bs.getAccessSpecifier();
        b.push_back(std::move(x));
      }
      for (auto *fd : R->fields()) {
        O x{{"id", did(fd)}, {"n", fd->getNameAsString()}, {"t", type(fd->getType())}};
        if (fd->isMutable()) x["mut"] = 1;
        if (!fd->isBitField()) x["off"] = (int64_t)(L->getFieldOffset(fd->getFieldIndex()) / 8);
        if (o["in"] == J(true) && fd->hasInClassInitializer() && fd->getInClassInitializer()) x["init"] = expr(fd->getInClassInitializer());
        x["acc"] = (int)fd->getAccess();
        f.push_back(std::move(x));
      }
      o["bases"] = std::move(b);
      o["fields"] = std::move(f);
      if (R->isPolymorphic()) o["poly"] = 1;
      if (R->isUnion()) o["union"] = 1;
      if (R->hasTrivialDestructor()) o["tdtor"] = 1;
      if (R->isEmpty()) o["empty"] = 1;
      if (auto *D = R->getDestructor()) o["dtor"] = fn(D);
      (void)complete;
      if (R->isPolymorphic() && inRoots(R->getLocation())) {
        A vm;
        for (auto *m : R->methods()) if (m->isVirtual()) vm.push_back(fn(m));
        o["vm"] = std::move(vm);
      }
      if (inRoots(R->getLocation())) {
        A ms;
        for (auto *m : R->methods()) {
          O x{{"id", did(m)}, {"n", m->getNameAsString()}};
          if (m->isConst()) x["const"] = 1;
          if (m->isStatic()) x["static"] = 1;
          x["acc"] = (int)m->getAccess();
          ms.push_back(std::move(x));
        }
        o["methods"] = std::move(ms);
      }
    }
    recs[id] = std::move(o);
    return id;
  }

  const FunctionDecl *def(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    if (F->isDefaulted() || F->isDeleted()) return F;
    return F;
  }

  int fn(const FunctionDecl *F) {
    int id = did(F);
    const FunctionDecl *K = F->getCanonicalDecl();
    if (!queued.insert(K).second) return id;
    work.push_back(K);
    return id;
  }

  void drain() {
    while (!work.empty()) {
      const FunctionDecl *K = work.front();
      work.pop_front();
      emitFn(K);
    }
  }

  void emitFn(const FunctionDecl *K) {
    const FunctionDecl *F = def(K);
    int id = did(K);
    O o;
    o["q"] = F->getQualifiedNameAsString();
    o["n"] = F->getNameAsString();
    o["loc"] = loc(F->getLocation());
    bool in = inRoots(F->getLocation());
    if (F->isImplicit() || F->isDefaulted())
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) in = inRoots(M->getParent()->getLocation());
    o["in"] = in;
    o["ret"] = type(F->getReturnType());
    A ps;
    for (auto *p : F->parameters()) {
      O x{{"id", did(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}};
      ps.push_back(std::move(x));
    }
    o["ps"] = std::move(ps);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      A ta; for (auto &x : TA->asArray()) ta.push_back(targ(x));
      o["ta"] = std::move(ta);
    }
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      auto es = FPT->getExceptionSpecType();
      if (es != EST_Unevaluated && es != EST_Uninstantiated && FPT->isNothrow()) o["nx"] = 1;
      else if (es == EST_Unevaluated || es == EST_Uninstantiated) o["nx"] = -1;
    }
    if (F->isDeleted()) o["del"] = 1;
    if (F->isDefaulted()) o["dfl"] = 1;
    if (F->isImplicit()) o["imp"] = 1;
    if (F->isTrivial()) o["triv"] = 1;
    if (F->isNoReturn()) o["noret"] = 1;
    if (F->isVariadic()) o["variadic"] = 1;
    o["op"] = (int)F->getOverloadedOperator();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = rec(M->getParent());
      if (M->isConst()) o["const"] = 1;
      if (M->isStatic()) o["static"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isPureVirtual()) o["pure"] = 1;
      o["acc"] = (int)M->getAccess();
      if (M->getRefQualifier() == RQ_RValue) o["rq"] = 2;
      if (M->isCopyAssignmentOperator()) o["sk"] = "ca";
      if (M->isMoveAssignmentOperator()) o["sk"] = "ma";
      A ov; for (auto *x : M->overridden_methods()) ov.push_back(fn(x));
      if (!ov.empty()) o["ov"] = std::move(ov);
    }
    if (auto *M = dyn_cast<CXXConstructorDecl>(F)) {
      o["kind"] = "ctor";
      if (M->isCopyConstructor()) o["sk"] = "cc";
      else if (M->isMoveConstructor()) o["sk"] = "mc";
      else if (M->isDefaultConstructor()) o["sk"] = "dc";
      if (M->isExplicit()) o["explicit"] = 1;
      if (in && F->doesThisDeclarationHaveABody()) {
        A is;
        for (auto *I : M->inits()) {
          O x;
          if (I->isAnyMemberInitializer()) { x["f"] = did(I->getAnyMember()); x["n"] = I->getAnyMember()->getNameAsString(); x["t"] = type(I->getAnyMember()->getType()); }
          else if (I->isBaseInitializer()) x["b"] = rec(I->getBaseClass()->getAsCXXRecordDecl());
          else if (I->isDelegatingInitializer()) x["d"] = 1;
          if (I->isWritten()) x["w"] = 1;
          x["e"] = expr(I->getInit());
          x["loc"] = loc(I->getSourceLocation());
          is.push_back(std::move(x));
        }
        o["inits"] = std::move(is);
      }
    } else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
    else if (isa<CXXConversionDecl>(F)) o["kind"] = "conv";
    else if (isa<CXXMethodDecl>(F)) o["kind"] = "method";
    else o["kind"] = "func";
    if (in && F->doesThisDeclarationHaveABody() && F->getBody() && !F->isDependentContext())
      o["body"] = stmt(F->getBody());
    fns[id] = std::move(o);
  }

  void varInfo(const VarDecl *V) {
    int id = did(V);
    if (vars.count(id)) return;
    vars[id] = O{};
    O o{{"n", V->getQualifiedNameAsString()}, {"t", type(V->getType())}};
    o["loc"] = loc(V->getLocation());
    if (V->hasGlobalStorage() || V->isStaticLocal()) o["g"] = 1;
    if (V->isStaticLocal()) o["sl"] = 1;
    if (V->hasGlobalStorage() && inRoots(V->getLocation()) && V->getInit()) o["init"] = expr(V->getInit());
    vars[id] = std::move(o);
  }

  J body(const Stmt *S) { return S ? stmt(S) : J(nullptr); }

  J declVar(const VarDecl *V) {
    varInfo(V);
    O o{{"id", did(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}};
    if (V->getInit()) o["e"] = expr(V->getInit());
    if (V->isStaticLocal()) o["static"] = 1;
    o["loc"] = loc(V->getLocation());
    return o;
  }

  J stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return O{{"k", "Expr"}, {"e", expr(E)}, {"loc", loc(E->getBeginLoc())}};
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      A a; for (auto *x : cast<CompoundStmt>(S)->body()) a.push_back(stmt(x));
      return O{{"k", "Block"}, {"s", std::move(a)}};
    }
    case Stmt::DeclStmtClass: {
      A a;
      for (auto *d : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(declVar(V));
      return O{{"k", "Decl"}, {"v", std::move(a)}, {"loc", loc(S->getBeginLoc())}};
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      O o{{"k", "If"}, {"c", expr(I->getCond())}, {"loc", loc(S->getBeginLoc())}};
      if (I->isConstexpr()) {
        o["cx"] = 1;
        auto nd = I->getNondiscardedCase(C);
        if (nd) { 
          if (*nd) return stmt(*nd);
          return O{{"k", "Null"}};
        }
      }
      if (I->getInit()) o["i"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = declVar(I->getConditionVariable());
      o["a"] = body(I->getThen());
      o["b"] = body(I->getElse());
      return o;
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(S);
      return O{{"k", "For"}, {"i", body(I->getInit())}, {"c", I->getCond() ? expr(I->getCond()) : J(nullptr)},
               {"n", I->getInc() ? expr(I->getInc()) : J(nullptr)}, {"b", body(I->getBody())}, {"loc", loc(S->getBeginLoc())}};
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(S);
      return O{{"k", "For"}, {"i", nullptr}, {"c", expr(I->getCond())}, {"n", nullptr}, {"b", body(I->getBody())}, {"loc", loc(S->getBeginLoc())}};
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(S);
      return O{{"k", "Do"}, {"c", expr(I->getCond())}, {"b", body(I->getBody())}, {"loc", loc(S->getBeginLoc())}};
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *I = cast<CXXForRangeStmt>(S);
      A b; 
      if (I->getInit()) b.push_back(stmt(I->getInit()));
      b.push_back(stmt(I->getRangeStmt()));
      b.push_back(stmt(I->getBeginStmt()));
      b.push_back(stmt(I->getEndStmt()));
      A inner; inner.push_back(stmt(I->getLoopVarStmt())); inner.push_back(body(I->getBody()));
      b.push_back(O{{"k", "For"}, {"i", nullptr}, {"c", expr(I->getCond())}, {"n", expr(I->getInc())},
                    {"b", O{{"k", "Block"}, {"s", std::move(inner)}}}, {"loc", loc(S->getBeginLoc())}, {"range", 1}});
      return O{{"k", "Block"}, {"s", std::move(b)}};
    }
    case Stmt::ReturnStmtClass: {
      auto *R = cast<ReturnStmt>(S);
      O o{{"k", "Return"}, {"loc", loc(S->getBeginLoc())}};
      if (R->getRetValue()) o["e"] = expr(R->getRetValue());
      return o;
    }
    case Stmt::BreakStmtClass: return O{{"k", "Break"}};
    case Stmt::ContinueStmtClass: return O{{"k", "Continue"}};
    case Stmt::NullStmtClass: return O{{"k", "Null"}};
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      A h;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        O x{{"b", stmt(H->getHandlerBlock())}, {"loc", loc(H->getBeginLoc())}};
        if (H->getExceptionDecl()) { x["v"] = declVar(H->getExceptionDecl()); x["ct"] = type(H->getCaughtType()); }
        h.push_back(std::move(x));
      }
      return O{{"k", "Try"}, {"b", stmt(T->getTryBlock())}, {"h", std::move(h)}, {"loc", loc(S->getBeginLoc())}};
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::SwitchStmtClass: {
      auto *I = cast<SwitchStmt>(S);
      return O{{"k", "Switch"}, {"c", expr(I->getCond())}, {"b", body(I->getBody())}, {"loc", loc(S->getBeginLoc())}};
    }
    case Stmt::CaseStmtClass: {
      auto *I = cast<CaseStmt>(S);
      return O{{"k", "Case"}, {"v", expr(I->getLHS())}, {"b", body(I->getSubStmt())}};
    }
    case Stmt::DefaultStmtClass: return O{{"k", "Default"}, {"b", body(cast<DefaultStmt>(S)->getSubStmt())}};
    default:
      unknown[S->getStmtClassName()]++;
      return O{{"k", "?"}, {"c", S->getStmtClassName()}, {"loc", loc(S->getBeginLoc())}};
    }
  }

  O mk(const char *k, const Expr *E) {
    O o{{"k", k}, {"t", type(E->getType())}};
    if (E->isLValue()) o["vc"] = "l";
    else if (E->isXValue()) o["vc"] = "x";
    return o;
  }
  A args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    A a; for (auto *x : r) a.push_back(expr(x)); return a;
  }

  int64_t pathOff(const CastExpr *E, QualType from) {
    // cumulative base offset along the cast path
    CharUnits off = CharUnits::Zero();
    QualType T = from;
    if (T->isPointerType() || T->isReferenceType()) T = T->getPointeeType();
    const CXXRecordDecl *R = T->getAsCXXRecordDecl();
    for (auto it = E->path_begin(); it != E->path_end(); ++it) {
      auto *B = (*it)->getType()->getAsCXXRecordDecl();
      if (!R || !B) return 0;
      if ((*it)->isVirtual()) return -1;
      off += C.getASTRecordLayout(R->getDefinition()).getBaseClassOffset(B->getDefinition());
      R = B;
    }
    return off.getQuantity();
  }

  J expr(const Expr *E) {
    if (!E) return nullptr;
    if (E->isValueDependent() || E->isTypeDependent()) return O{{"k", "Dep"}};
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: { O o = mk("Full", E); o["e"] = expr(cast<ExprWithCleanups>(E)->getSubExpr()); return o; }
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: { O o = mk("Tmp", E); o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
      if (cast<MaterializeTemporaryExpr>(E)->getStorageDuration() != SD_FullExpression) o["ext"] = 1; return o; }
    case Stmt::IntegerLiteralClass: {
      O o = mk("Int", E); o["v"] = (int64_t)cast<IntegerLiteral>(E)->getValue().getZExtValue(); return o; }
    case Stmt::CharacterLiteralClass: { O o = mk("Int", E); o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue(); return o; }
    case Stmt::CXXBoolLiteralExprClass: { O o = mk("Int", E); o["v"] = (int64_t)cast<CXXBoolLiteralExpr>(E)->getValue(); return o; }
    case Stmt::StringLiteralClass: return mk("Str", E);
    case Stmt::PredefinedExprClass: return mk("Str", E);
    case Stmt::FloatingLiteralClass: { O o = mk("Flt", E); o["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble(); return o; }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: return mk("Null", E);
    case Stmt::CXXScalarValueInitExprClass:
    case Stmt::ImplicitValueInitExprClass: return mk("Zero", E);
    case Stmt::CXXThisExprClass: return mk("This", E);
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
      Expr::EvalResult R;
      O o = mk("Int", E);
      if (E->EvaluateAsInt(R, C)) o["v"] = (int64_t)R.Val.getInt().getExtValue();
      if (U->getKind() == UETT_SizeOf) o["szof"] = type(U->getTypeOfArgument());
      return o;
    }
    case Stmt::TypeTraitExprClass:
    case Stmt::CXXNoexceptExprClass: {
      Expr::EvalResult R; O o = mk("Int", E);
      if (E->EvaluateAsInt(R, C)) o["v"] = (int64_t)R.Val.getInt().getExtValue();
      return o;
    }
    case Stmt::SizeOfPackExprClass: { O o = mk("Int", E); o["v"] = (int64_t)cast<SizeOfPackExpr>(E)->getPackLength(); return o; }
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E);
      const ValueDecl *V = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) { O o = mk("Fn", E); o["f"] = fn(F); return o; }
      if (isa<EnumConstantDecl>(V)) { O o = mk("Int", E); o["v"] = (int64_t)cast<EnumConstantDecl>(V)->getInitVal().getExtValue(); return o; }
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->getType()->isIntegralOrEnumerationType() && VD->getType().isConstQualified() && (VD->hasGlobalStorage())) {
          Expr::EvalResult R;
          if (E->EvaluateAsInt(R, C)) { O o = mk("Int", E); o["v"] = (int64_t)R.Val.getInt().getExtValue(); return o; }
        }
        varInfo(VD);
      }
      O o = mk("Var", E); o["id"] = did(V); o["n"] = V->getNameAsString();
      if (isa<BindingDecl>(V)) { o["bind"] = 1; if (auto *b = cast<BindingDecl>(V)->getBinding()) return expr(b); }
      if (D->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
      return o;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        O o = mk("Fld", E); o["f"] = did(F); o["n"] = F->getNameAsString(); o["b"] = expr(M->getBase());
        if (M->isArrow()) o["arrow"] = 1;
        if (auto *PR = dyn_cast<CXXRecordDecl>(F->getParent())) o["cls"] = rec(PR);
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        Expr::EvalResult R;
        if (V->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) { O o = mk("Int", E); o["v"] = (int64_t)R.Val.getInt().getExtValue(); return o; }
        varInfo(V);
        O o = mk("Var", E); o["id"] = did(V); o["n"] = V->getNameAsString(); return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) { O o = mk("Fn", E); o["f"] = fn(F); return o; }
      return mk("?", E);
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *M = cast<CXXMemberCallExpr>(E);
      O o = mk("MCall", E); o["loc"] = loc(E->getExprLoc());
      if (auto *D = M->getMethodDecl()) {
        o["f"] = fn(D);
        auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens());
        if (ME) {
          o["o"] = expr(ME->getBase());
          if (ME->isArrow()) o["arrow"] = 1;
          if (D->isVirtual() && !ME->hasQualifier()) o["virt"] = 1;
        }
      } else o["fe"] = expr(M->getCallee());
      o["a"] = args(M->arguments());
      return o;
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *M = cast<CXXOperatorCallExpr>(E);
      auto *D = dyn_cast_or_null<FunctionDecl>(M->getCalleeDecl());
      A a = args(M->arguments());
      O o;
      if (D && isa<CXXMethodDecl>(D) && !cast<CXXMethodDecl>(D)->isStatic()) {
        o = mk("MCall", E); o["f"] = fn(D);
        o["o"] = std::move(a[0]);
        A r; for (size_t i = 1; i < a.size(); ++i) r.push_back(std::move(a[i]));
        o["a"] = std::move(r);
        if (cast<CXXMethodDecl>(D)->isVirtual()) o["virt"] = 1;
      } else { o = mk("Call", E); if (D) o["f"] = fn(D); o["a"] = std::move(a); }
      o["loc"] = loc(E->getExprLoc());
      o["oper"] = 1;
      return o;
    }
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto *M = cast<CallExpr>(E);
      O o = mk("Call", E); o["loc"] = loc(E->getExprLoc());
      if (auto *D = dyn_cast_or_null<FunctionDecl>(M->getCalleeDecl())) {
        o["f"] = fn(D);
        if (unsigned b = D->getBuiltinID()) { (void)b; 
          Expr::EvalResult R; if (E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) { O z = mk("Int", E); z["v"] = (int64_t)R.Val.getInt().getExtValue(); return z; } }
      } else o["fe"] = expr(M->getCallee());
      if (isa<CXXPseudoDestructorExpr>(M->getCallee()->IgnoreParens())) { O z = mk("PDtor", E); z["e"] = expr(cast<CXXPseudoDestructorExpr>(M->getCallee()->IgnoreParens())->getBase()); return z; }
      o["a"] = args(M->arguments());
      return o;
    }
    case Stmt::CXXTemporaryObjectExprClass:
    case Stmt::CXXConstructExprClass: {
      auto *M = cast<CXXConstructExpr>(E);
      O o = mk("Ctor", E); o["f"] = fn(M->getConstructor());
      A a; for (auto *x : M->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a); o["loc"] = loc(E->getExprLoc());
      if (M->isElidable()) o["el"] = 1;
      if (M->isListInitialization()) o["li"] = 1;
      if (M->requiresZeroInitialization()) o["zi"] = 1;
      return o;
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      auto *M = cast<CXXInheritedCtorInitExpr>(E);
      O o = mk("InhCtor", E); o["f"] = fn(M->getConstructor()); return o;
    }
    case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    case Stmt::InitListExprClass: {
      auto *M = cast<InitListExpr>(E);
      if (M->getSemanticForm()) M = M->getSemanticForm();
      if (M->isTransparent() && M->getNumInits() == 1) return expr(M->getInit(0));
      O o = mk("Init", E); A a; for (auto *x : M->inits()) a.push_back(expr(x)); o["a"] = std::move(a);
      return o;
    }
    case Stmt::CXXStdInitializerListExprClass: { O o = mk("StdInit", E); o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr()); return o; }
    case Stmt::ArraySubscriptExprClass: {
      auto *M = cast<ArraySubscriptExpr>(E); O o = mk("Idx", E); o["b"] = expr(M->getBase()); o["i"] = expr(M->getIdx()); return o; }
    case Stmt::UnaryOperatorClass: {
      auto *M = cast<UnaryOperator>(E); O o = mk("Un", E); o["op"] = UnaryOperator::getOpcodeStr(M->getOpcode()).str();
      if (M->isPostfix()) o["post"] = 1; o["e"] = expr(M->getSubExpr()); o["loc"] = loc(E->getExprLoc()); return o; }
    case Stmt::CompoundAssignOperatorClass:
    case Stmt::BinaryOperatorClass: {
      auto *M = cast<BinaryOperator>(E); O o = mk("Bin", E); o["op"] = M->getOpcodeStr().str(); o["a"] = expr(M->getLHS()); o["b"] = expr(M->getRHS());
      o["loc"] = loc(E->getExprLoc()); return o; }
    case Stmt::ConditionalOperatorClass: {
      auto *M = cast<ConditionalOperator>(E); O o = mk("Cond", E); o["c"] = expr(M->getCond()); o["a"] = expr(M->getTrueExpr()); o["b"] = expr(M->getFalseExpr()); return o; }
    case Stmt::CXXNewExprClass: {
      auto *M = cast<CXXNewExpr>(E); O o = mk("New", E); o["at"] = type(M->getAllocatedType());
      A a; for (auto *x : M->placement_arguments()) a.push_back(expr(x)); o["pl"] = std::move(a);
      if (M->getInitializer()) o["e"] = expr(M->getInitializer());
      if (M->getOperatorNew()) o["f"] = fn(M->getOperatorNew());
      if (M->isGlobalNew()) o["glob"] = 1;
      o["loc"] = loc(E->getExprLoc()); return o; }
    case Stmt::CXXDeleteExprClass: { O o = mk("Delete", E); o["e"] = expr(cast<CXXDeleteExpr>(E)->getArgument()); o["loc"] = loc(E->getExprLoc()); return o; }
    case Stmt::CXXThrowExprClass: { auto *M = cast<CXXThrowExpr>(E); O o = mk("Throw", E); if (M->getSubExpr()) o["e"] = expr(M->getSubExpr()); o["loc"] = loc(E->getExprLoc()); return o; }
    case Stmt::CXXTypeidExprClass: {
      auto *M = cast<CXXTypeidExpr>(E); O o = mk("Typeid", E);
      if (M->isTypeOperand()) o["tt"] = type(M->getTypeOperand(C)); else { o["e"] = expr(M->getExprOperand()); if (M->isPotentiallyEvaluated()) o["dyn"] = 1; }
      o["loc"] = loc(E->getExprLoc()); return o; }
    case Stmt::LambdaExprClass: {
      auto *M = cast<LambdaExpr>(E); O o = mk("Lambda", E);
      o["cls"] = rec(M->getLambdaClass());
      A caps; auto ci = M->capture_init_begin();
      for (auto &c : M->captures()) {
        O x;
        if (c.capturesThis()) x["this"] = 1;
        else if (c.capturesVariable()) { x["id"] = did(c.getCapturedVar()); x["n"] = c.getCapturedVar()->getNameAsString(); }
        if (c.getCaptureKind() == LCK_ByRef) x["ref"] = 1;
        if (ci != M->capture_init_end() && *ci) x["e"] = expr(*ci);
        ++ci;
        caps.push_back(std::move(x));
      }
      o["caps"] = std::move(caps);
      if (auto *co = M->getLambdaClass()->getLambdaCallOperator()) if (!co->isDependentContext() && !M->isGenericLambda()) o["f"] = fn(co);
      o["loc"] = loc(E->getExprLoc());
      return o;
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      auto *M = cast<CastExpr>(E);
      CastKind ck = M->getCastKind();
      if (isa<ImplicitCastExpr>(E)) {
        switch (ck) {
        case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: case CK_UserDefinedConversion: case CK_ConstructorConversion:
          return expr(M->getSubExpr());
        case CK_NoOp: {
          // qualification adjustment only
          O o = mk("Q", E); o["e"] = expr(M->getSubExpr()); return o;
        }
        default: break;
        }
      } else if (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion) return expr(M->getSubExpr());
      if (ck == CK_LValueToRValue) {
        O o = mk("Ld", E);
        o["e"] = expr(M->getSubExpr()); return o;
      }
      if (ck == CK_NullToPointer) return mk("Null", E);
      O o = mk("Cast", E);
      o["ck"] = M->getCastKindName();
      const char *ek = "imp";
      if (isa<CStyleCastExpr>(E)) ek = "c"; else if (isa<CXXFunctionalCastExpr>(E)) ek = "fun"; else if (isa<CXXStaticCastExpr>(E)) ek = "static";
      else if (isa<CXXReinterpretCastExpr>(E)) ek = "reint"; else if (isa<CXXConstCastExpr>(E)) ek = "const"; else if (isa<CXXDynamicCastExpr>(E)) ek = "dyn";
      o["ek"] = ek;
      o["loc"] = loc(E->getExprLoc());
      if (ck == CK_DerivedToBase || ck == CK_UncheckedDerivedToBase) o["off"] = pathOff(M, M->getSubExpr()->getType());
      if (ck == CK_BaseToDerived) o["off"] = -pathOff(M, E->getType());
      o["e"] = expr(M->getSubExpr());
      return o;
    }
    case Stmt::CXXPseudoDestructorExprClass: return mk("?", E);
    case Stmt::StmtExprClass: { O o = mk("StmtExpr", E); o["s"] = stmt(cast<StmtExpr>(E)->getSubStmt()); return o; }
    case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
    case Stmt::ArrayInitLoopExprClass: return mk("ArrInit", E);
    case Stmt::SourceLocExprClass: return mk("?", E);
    case Stmt::ConceptSpecializationExprClass:
    case Stmt::RequiresExprClass: {
      Expr::EvalResult R; O o = mk("Int", E);
      if (E->EvaluateAsInt(R, C)) o["v"] = (int64_t)R.Val.getInt().getExtValue();
      return o;
    }
    case Stmt::CXXFoldExprClass: return mk("?", E);
    default:
      unknown[E->getStmtClassName()]++;
      { O o = mk("?", E); o["c"] = E->getStmtClassName(); o["loc"] = loc(E->getExprLoc()); return o; }
    }
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  struct Roots : RecursiveASTVisitor<Roots> {
    Ex &X; A entries;
    Roots(Ex &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
      if (F->isDependentContext()) return true;
      bool main = X.SM.isInMainFile(X.SM.getExpansionLoc(F->getLocation()));
      if (!main && !X.inRoots(F->getLocation())) return true;
      if (!main && !F->doesThisDeclarationHaveABody()) return true;
      int id = X.fn(F);
      if (main) entries.push_back(id);
      return true;
    }
  };
  void HandleTranslationUnit(ASTContext &C) override {
    Ex X(C);
    Roots R(X);
    R.TraverseDecl(C.getTranslationUnitDecl());
    X.drain();
    O out;
    O f, r, v;
    for (auto &p : X.fns) f[std::to_string(p.first)] = std::move(p.second);
    for (auto &p : X.recs) r[std::to_string(p.first)] = std::move(p.second);
    for (auto &p : X.vars) v[std::to_string(p.first)] = std::move(p.second);
    out["fns"] = std::move(f);
    out["recs"] = std::move(r);
    out["vars"] = std::move(v);
    out["types"] = std::move(X.types);
    out["files"] = std::move(X.files);
    out["entries"] = std::move(R.entries);
    O u; for (auto &p : X.unknown) u[p.first] = p.second;
    out["unknown"] = std::move(u);
    out["errors"] = (int)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(outFile, ec);
    os << J(std::move(out));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

int main(int argc, char **argv) {
  // extract OUT.json ROOT[,ROOT...] SOURCE -- compiler flags
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  outFile = argv[1];
  std::string rs = argv[2];
  for (size_t p = 0; p != std::string::npos;) {
    size_t q = rs.find(',', p);
    roots.push_back(rs.substr(p, q == std::string::npos ? q : q - p));
    p = q == std::string::npos ? q : q + 1;
  }
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
