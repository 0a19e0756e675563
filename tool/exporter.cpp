// Exports the type-checked program (functions reachable from the project's own
// sources, with resolved callees) of one translation unit as compact JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;

static std::vector<std::string> gRoots;
static std::string gOut;
static int gErrors = 0;

struct J {  // tiny JSON writer producing strings
  static std::string esc(llvm::StringRef s) {
    std::string o = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o + "\"";
  }
};

class Obj {
  std::string s = "{";
  bool first = true;
public:
  Obj() {}
  explicit Obj(const char * k) { str("k", k); }
  Obj & raw(const char * key, const std::string & v) {
    if (!first) s += ',';
    first = false;
    s += '"'; s += key; s += "\":"; s += v;
    return *this;
  }
  Obj & str(const char * key, llvm::StringRef v) { return raw(key, J::esc(v)); }
  Obj & num(const char * key, long long v) { return raw(key, std::to_string(v)); }
  Obj & boo(const char * key, bool v) { return raw(key, v ? "true" : "false"); }
  std::string done() { return s + "}"; }
};

static std::string arr(const std::vector<std::string> & v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += v[i]; }
  return s + "]";
}

class Exporter {
public:
  ASTContext & C;
  SourceManager & SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, int> declIds;
  std::map<const void *, int> typeIds;
  std::vector<std::string> types;
  std::map<const FunctionDecl *, int> fnIds;
  std::vector<std::string> fns;            // callee info
  std::vector<std::string> bodies;         // function bodies
  std::set<const FunctionDecl *> bodyDone;
  std::map<std::string, std::string> records;
  std::map<std::string, std::string> globals;
  std::vector<std::string> files;
  std::map<std::string, int> fileIds;

  explicit Exporter(ASTContext & c)
  : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), MC(c.createMangleContext()) {
    PP.SuppressInlineNamespace = true;
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  std::string fileOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    return f.str();
  }
  bool inProject(SourceLocation l) {
    std::string f = fileOf(l);
    for (auto & r : gRoots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int fileId(SourceLocation l) {
    std::string f = fileOf(l);
    auto it = fileIds.find(f);
    if (it != fileIds.end()) return it->second;
    int id = files.size();
    files.push_back(f);
    fileIds[f] = id;
    return id;
  }
  unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }

  int declId(const Decl * d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int id = declIds.size() + 1;
    declIds[d] = id;
    return id;
  }

  std::string qname(const NamedDecl * nd) {
    std::string s;
    llvm::raw_string_ostream os(s);
    nd->printQualifiedName(os, PP);
    os.flush();
    return s;
  }

  int type(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    auto it = typeIds.find(q.getAsOpaquePtr());
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    typeIds[q.getAsOpaquePtr()] = id;
    types.push_back("");
    Obj o;
    o.str("s", q.getAsString(PP));
    if (q.isConstQualified()) o.boo("c", true);
    const Type * t = q.getTypePtr();
    if (t->isDependentType()) {
      o.str("k", "dep");
    } else if (t->isBooleanType()) {
      o.str("k", "bool");
    } else if (auto * et = t->getAs<EnumType>()) {
      o.str("k", "enum").str("n", qname(et->getDecl()));
      QualType it2 = et->getDecl()->getIntegerType();
      if (!it2.isNull()) {
        o.num("bits", C.getTypeSize(it2)).boo("u", it2->isUnsignedIntegerOrEnumerationType());
      }
      std::vector<std::string> es;
      for (auto * e : et->getDecl()->enumerators()) {
        Obj eo;
        eo.str("n", e->getNameAsString()).raw("v", llvm::toString(e->getInitVal(), 10));
        es.push_back(eo.done());
      }
      o.raw("e", arr(es));
    } else if (t->isIntegerType()) {
      o.str("k", "int").num("bits", C.getTypeSize(q)).boo("u", t->isUnsignedIntegerType());
    } else if (t->isFloatingType()) {
      o.str("k", "float").num("bits", C.getTypeSize(q));
    } else if (t->isNullPtrType()) {
      o.str("k", "nullptr");
    } else if (t->isPointerType()) {
      o.str("k", "ptr").num("p", type(t->getPointeeType()));
    } else if (t->isReferenceType()) {
      o.str("k", t->isRValueReferenceType() ? "rref" : "ref").num("p", type(t->getPointeeType()));
    } else if (auto * cat = C.getAsConstantArrayType(q)) {
      o.str("k", "array").num("p", type(cat->getElementType()))
        .raw("n", llvm::toString(cat->getSize(), 10, false));
    } else if (t->isFunctionType()) {
      o.str("k", "func");
    } else if (t->isVoidType()) {
      o.str("k", "void");
    } else if (auto * rt = t->getAs<RecordType>()) {
      auto * rd = rt->getDecl();
      o.str("k", "rec").str("n", qname(rd));
      if (auto * cs = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        std::vector<std::string> as;
        std::vector<TemplateArgument> flat;
        for (auto & a : cs->getTemplateArgs().asArray()) {
          if (a.getKind() == TemplateArgument::Pack) flat.insert(flat.end(), a.pack_begin(), a.pack_end());
          else flat.push_back(a);
        }
        for (auto & a : flat) {
          if (a.getKind() == TemplateArgument::Type) as.push_back(std::to_string(type(a.getAsType())));
          else if (a.getKind() == TemplateArgument::Integral)
            as.push_back(J::esc(llvm::toString(a.getAsIntegral(), 10)));
          else as.push_back("null");
        }
        o.raw("a", arr(as));
      }
      if (auto * cr = dyn_cast<CXXRecordDecl>(rd)) {
        if (cr->isLambda()) o.boo("lam", true);
        if (cr->hasDefinition()) {
          o.boo("agg", cr->isAggregate());
          o.boo("triv", cr->hasTrivialDefaultConstructor());
        }
      }
      exportRecord(rd);
    } else {
      o.str("k", "other");
    }
    types[id] = o.done();
    return id;
  }

  std::set<const RecordDecl *> recSeen;
  void exportRecord(const RecordDecl * rd) {
    rd = rd->getDefinition();
    if (!rd || !recSeen.insert(rd).second) return;
    bool proj = inProject(rd->getLocation());
    auto * cr = dyn_cast<CXXRecordDecl>(rd);
    if (!proj) return;
    std::vector<std::string> fs;
    for (auto * f : rd->fields()) {
      Obj o;
      o.str("n", f->getNameAsString()).num("d", declId(f)).num("t", type(f->getType()));
      o.boo("mutable", f->isMutable());
      o.num("l", line(f->getLocation()));
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        o.raw("i", expr(f->getInClassInitializer()));
      fs.push_back(o.done());
    }
    Obj o;
    o.raw("f", arr(fs)).num("l", line(rd->getLocation())).num("file", fileId(rd->getLocation()));
    std::string nm = qname(rd);
    if (cr) {
      std::vector<std::string> bs;
      if (cr->hasDefinition()) for (auto & b : cr->bases()) bs.push_back(std::to_string(type(b.getType())));
      o.raw("b", arr(bs));
      if (cr->isLambda()) nm += "@" + std::to_string(declId(rd));
      o.boo("usercopy", cr->hasUserDeclaredCopyConstructor() || cr->hasUserDeclaredMoveConstructor());
    }
    if (isa<ClassTemplateSpecializationDecl>(rd)) {
      nm = C.getRecordType(rd).getCanonicalType().getAsString(PP);
    }
    records[nm] = o.done();
  }

  std::string mangled(const FunctionDecl * f) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (isa<CXXDeductionGuideDecl>(f) || f->isDependentContext()) return qname(f);
    if (auto * cd = dyn_cast<CXXConstructorDecl>(f)) {
      MC->mangleName(GlobalDecl(cd, Ctor_Complete), os);
    } else if (auto * dd = dyn_cast<CXXDestructorDecl>(f)) {
      MC->mangleName(GlobalDecl(dd, Dtor_Complete), os);
    } else if (MC->shouldMangleDeclName(f)) {
      MC->mangleName(GlobalDecl(f), os);
    } else {
      os << f->getNameAsString();
    }
    os.flush();
    return s;
  }

  int fn(const FunctionDecl * f) {
    f = f->getCanonicalDecl();
    auto it = fnIds.find(f);
    if (it != fnIds.end()) return it->second;
    int id = fns.size();
    fnIds[f] = id;
    fns.push_back("");
    Obj o;
    o.str("q", qname(f));
    o.str("m", mangled(f));
    o.str("n", f->getNameAsString());
    const FunctionDecl * def = nullptr;
    bool hasBody = f->hasBody(def);
    bool internal = f->getFormalLinkage() == Linkage::Internal ||
      f->getFormalLinkage() == Linkage::None || f->isInAnonymousNamespace();
    o.boo("internal", internal);
    o.boo("variadic", f->isVariadic());
    std::vector<std::string> ps;
    for (auto * p : f->parameters()) ps.push_back(std::to_string(type(p->getType())));
    o.raw("p", arr(ps));
    o.num("r", type(f->getReturnType()));
    if (auto * m = dyn_cast<CXXMethodDecl>(f)) {
      if (!m->isStatic()) {
        o.boo("method", true).boo("const", m->isConst()).boo("hidden", m->getAccess() != AS_public);
      }
      if (m->isVirtual()) o.boo("virtual", true);
      o.str("rec", qname(m->getParent()));
      if (m->getParent()->isLambda()) o.boo("lambda", true);
      o.num("rt", type(C.getRecordType(m->getParent())));
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o.boo("copyasg", true);
      if (m->isDefaulted()) o.boo("defaulted", true);
    }
    if (auto * cd = dyn_cast<CXXConstructorDecl>(f)) {
      o.boo("ctor", true);
      if (cd->isCopyOrMoveConstructor()) o.boo("copyctor", true);
      if (cd->isDefaultConstructor()) o.boo("defctor", true);
    }
    if (isa<CXXDestructorDecl>(f)) o.boo("dtor", true);
    if (f->isOverloadedOperator()) o.str("op", getOperatorSpelling(f->getOverloadedOperator()));
    if (auto * ta = f->getTemplateSpecializationArgs()) {
      std::vector<std::string> as;
      for (auto & a : ta->asArray()) {
        if (a.getKind() == TemplateArgument::Type) as.push_back(std::to_string(type(a.getAsType())));
        else if (a.getKind() == TemplateArgument::Integral)
          as.push_back(J::esc(llvm::toString(a.getAsIntegral(), 10)));
        else as.push_back("null");
      }
      o.raw("ta", arr(as));
    }
    bool noex = false;
    if (auto * fpt = f->getType()->getAs<FunctionProtoType>()) noex = fpt->isNothrow();
    o.boo("noexcept", noex);
    bool proj = inProject((def ? def : f)->getLocation());
    o.boo("proj", proj);
    o.num("l", line((def ? def : f)->getLocation()));
    o.num("file", fileId((def ? def : f)->getLocation()));
    if (f->hasAttr<WarnUnusedResultAttr>()) o.boo("nodiscard", true);
    fns[id] = o.done();
    if (hasBody && proj && def) exportBody(def, id);
    return id;
  }

  const FunctionDecl * curFn = nullptr;

  void exportBody(const FunctionDecl * def, int id) {
    if (def->isDependentContext()) return;
    if (!bodyDone.insert(def->getCanonicalDecl()).second) return;
    if (auto * m = dyn_cast<CXXMethodDecl>(def)) {
      if (m->isDefaulted() && (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator())) return;
      if (auto * cd = dyn_cast<CXXConstructorDecl>(def))
        if (cd->isDefaulted() && cd->isCopyOrMoveConstructor()) return;
    }
    Obj o;
    o.num("fn", id);
    o.num("file", fileId(def->getLocation())).num("l", line(def->getLocation()));
    o.num("l2", line(def->getEndLoc()));
    std::vector<std::string> ps;
    for (auto * p : def->parameters()) {
      Obj po;
      po.num("d", declId(p)).str("n", p->getNameAsString()).num("t", type(p->getType()));
      ps.push_back(po.done());
    }
    o.raw("p", arr(ps));
    auto * outerFn = curFn;
    curFn = def;
    if (auto * cd = dyn_cast<CXXConstructorDecl>(def)) {
      std::vector<std::string> is;
      for (auto * i : cd->inits()) {
        Obj io;
        if (i->isAnyMemberInitializer()) io.str("f", i->getAnyMember()->getNameAsString());
        else if (i->isBaseInitializer()) io.boo("base", true);
        else io.boo("deleg", true);
        if (i->getInit()) io.raw("i", expr(i->getInit()));
        is.push_back(io.done());
      }
      o.raw("inits", arr(is));
    }
    o.raw("b", stmt(def->getBody()));
    curFn = outerFn;
    bodies.push_back(o.done());
  }

  static bool isEmptyLike(const Stmt * s) { return !s || isa<NullStmt>(s); }

  std::string varDecl(const VarDecl * v) {
    Obj o;
    o.num("d", declId(v)).str("n", v->getNameAsString()).num("t", type(v->getType()));
    o.num("l", line(v->getLocation()));
    if (v->isStaticLocal()) o.boo("static", true);
    if (v->hasInit()) o.raw("i", expr(v->getInit()));
    if (auto * crd = v->getType().getCanonicalType()->getAsCXXRecordDecl()) {
      if (crd->hasDefinition() && inProject(crd->getLocation()) && crd->getDestructor() &&
        !crd->getDestructor()->isTrivial()) o.num("dt", fn(crd->getDestructor()));
    }
    if (auto * dd = dyn_cast<DecompositionDecl>(v)) {
      std::vector<std::string> bs;
      for (auto * b : dd->bindings()) {
        Obj bo;
        bo.num("d", declId(b)).str("n", b->getNameAsString());
        if (auto * hv = b->getHoldingVar()) {
          bo.num("h", declId(hv));
          if (hv->hasInit()) bo.raw("i", expr(hv->getInit()));
        } else if (b->getBinding()) {
          bo.raw("e", expr(b->getBinding()));
        }
        bs.push_back(bo.done());
      }
      o.raw("binds", arr(bs));
    }
    return o.done();
  }

  std::string declStmt(const DeclStmt * ds) {
    std::vector<std::string> vs;
    for (auto * d : ds->decls())
      if (auto * v = dyn_cast<VarDecl>(d)) vs.push_back(varDecl(v));
    return Obj("decl").num("l", line(ds->getBeginLoc())).raw("v", arr(vs)).done();
  }

  std::string stmt(const Stmt * s) {
    if (!s) return "null";
    if (auto * e = dyn_cast<Expr>(s)) {
      return Obj("ex").num("l", line(e->getExprLoc())).raw("e", expr(e)).done();
    }
    unsigned ln = line(s->getBeginLoc());
    switch (s->getStmtClass()) {
      case Stmt::NullStmtClass: return Obj("nop").done();
      case Stmt::CompoundStmtClass: {
        std::vector<std::string> v;
        for (auto * c : cast<CompoundStmt>(s)->body()) v.push_back(stmt(c));
        return Obj("blk").num("l", ln).num("l2", line(s->getEndLoc())).raw("s", arr(v)).done();
      }
      case Stmt::DeclStmtClass: return declStmt(cast<DeclStmt>(s));
      case Stmt::IfStmtClass: {
        auto * i = cast<IfStmt>(s);
        Obj o("if");
        o.num("l", ln);
        if (i->isConstexpr()) {
          // discarded branches are not instantiated; keep whatever is there
          o.boo("cx", true);
        }
        if (i->getInit()) o.raw("init", stmt(i->getInit()));
        if (i->getConditionVariableDeclStmt()) o.raw("cv", declStmt(i->getConditionVariableDeclStmt()));
        o.raw("c", expr(i->getCond()));
        o.raw("a", stmt(i->getThen()));
        if (i->getElse()) o.raw("b", stmt(i->getElse()));
        return o.done();
      }
      case Stmt::ForStmtClass: {
        auto * f = cast<ForStmt>(s);
        Obj o("for");
        o.num("l", ln);
        if (f->getInit()) o.raw("init", stmt(f->getInit()));
        if (f->getConditionVariableDeclStmt()) o.raw("cv", declStmt(f->getConditionVariableDeclStmt()));
        if (f->getCond()) o.raw("c", expr(f->getCond()));
        if (f->getInc()) o.raw("inc", expr(f->getInc()));
        o.raw("b", stmt(f->getBody()));
        return o.done();
      }
      case Stmt::WhileStmtClass: {
        auto * w = cast<WhileStmt>(s);
        Obj o("while");
        o.num("l", ln);
        if (w->getConditionVariableDeclStmt()) o.raw("cv", declStmt(w->getConditionVariableDeclStmt()));
        o.raw("c", expr(w->getCond())).raw("b", stmt(w->getBody()));
        return o.done();
      }
      case Stmt::DoStmtClass: {
        auto * d = cast<DoStmt>(s);
        return Obj("do").num("l", ln).raw("c", expr(d->getCond())).raw("b", stmt(d->getBody())).done();
      }
      case Stmt::CXXForRangeStmtClass: {
        auto * f = cast<CXXForRangeStmt>(s);
        Obj o("forr");
        o.num("l", ln);
        if (f->getInit()) o.raw("init", stmt(f->getInit()));
        o.raw("r", expr(f->getRangeInit()));
        o.raw("v", varDecl(f->getLoopVariable()));
        o.raw("b", stmt(f->getBody()));
        return o.done();
      }
      case Stmt::ReturnStmtClass: {
        auto * r = cast<ReturnStmt>(s);
        Obj o("ret");
        o.num("l", ln);
        if (r->getRetValue()) o.raw("e", expr(r->getRetValue()));
        return o.done();
      }
      case Stmt::BreakStmtClass: return Obj("break").num("l", ln).done();
      case Stmt::ContinueStmtClass: return Obj("cont").num("l", ln).done();
      case Stmt::GotoStmtClass:
        return Obj("goto").num("l", ln).num("d", declId(cast<GotoStmt>(s)->getLabel())).done();
      case Stmt::LabelStmtClass: {
        auto * l = cast<LabelStmt>(s);
        return Obj("label").num("l", ln).num("d", declId(l->getDecl())).str("n", l->getName())
               .raw("s", stmt(l->getSubStmt())).done();
      }
      case Stmt::SwitchStmtClass: {
        auto * w = cast<SwitchStmt>(s);
        Obj o("switch");
        o.num("l", ln);
        if (w->getInit()) o.raw("init", stmt(w->getInit()));
        if (w->getConditionVariableDeclStmt()) o.raw("cv", declStmt(w->getConditionVariableDeclStmt()));
        o.raw("c", expr(w->getCond())).raw("b", stmt(w->getBody()));
        return o.done();
      }
      case Stmt::CaseStmtClass: {
        auto * c = cast<CaseStmt>(s);
        Obj o("case");
        o.num("l", ln).raw("v", expr(c->getLHS()));
        if (c->getRHS()) o.raw("v2", expr(c->getRHS()));
        o.raw("s", stmt(c->getSubStmt()));
        return o.done();
      }
      case Stmt::DefaultStmtClass:
        return Obj("default").num("l", ln).raw("s", stmt(cast<DefaultStmt>(s)->getSubStmt())).done();
      case Stmt::CXXTryStmtClass: {
        auto * t = cast<CXXTryStmt>(s);
        std::vector<std::string> hs;
        for (unsigned i = 0; i < t->getNumHandlers(); i++) {
          auto * h = t->getHandler(i);
          Obj o;
          o.num("l", line(h->getBeginLoc()));
          if (h->getExceptionDecl()) o.raw("v", varDecl(h->getExceptionDecl()));
          o.raw("b", stmt(h->getHandlerBlock()));
          hs.push_back(o.done());
        }
        return Obj("try").num("l", ln).raw("b", stmt(t->getTryBlock())).raw("h", arr(hs)).done();
      }
      case Stmt::AttributedStmtClass:
        return stmt(cast<AttributedStmt>(s)->getSubStmt());
      default: {
        std::vector<std::string> ch;
        for (auto * c : s->children()) ch.push_back(stmt(c));
        return Obj("unk").str("cls", s->getStmtClassName()).num("l", ln).raw("ch", arr(ch)).done();
      }
    }
  }

  std::string intNode(const Expr * e, const llvm::APSInt & v) {
    Obj o("int");
    o.raw("v", llvm::toString(v, 10)).num("t", type(e->getType()));
    const Expr * in = e->IgnoreParenImpCasts();
    if (auto * dr = dyn_cast<DeclRefExpr>(in)) {
      if (auto * ec = dyn_cast<EnumConstantDecl>(dr->getDecl())) o.str("en", ec->getNameAsString());
    }
    if (isa<CharacterLiteral>(in)) o.boo("ch", true);
    return o.done();
  }

  std::string args(llvm::iterator_range<CallExpr::const_arg_iterator> as, unsigned skip = 0) {
    std::vector<std::string> v;
    unsigned n = 0;
    for (auto * a : as) {
      if (n++ < skip) continue;
      v.push_back(expr(a));
    }
    return arr(v);
  }

  std::string expr(const Expr * e) {
    if (!e) return "null";
    // constant folding
    if (!e->isValueDependent() && !e->isTypeDependent()) {
      QualType qt = e->getType();
      if (e->isPRValue() && !qt.isNull() && qt->isIntegralOrEnumerationType()) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && r.Val.isInt()) {
          return intNode(e, r.Val.getInt());
        }
      }
    }
    unsigned ln = line(e->getExprLoc());
    switch (e->getStmtClass()) {
      case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(e)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass: {
        auto * m = cast<MaterializeTemporaryExpr>(e);
        Obj o("tmp");
        o.num("l", ln).num("t", type(e->getType()));
        if (auto * crd = e->getType().getCanonicalType()->getAsCXXRecordDecl()) {
          if (crd->hasDefinition() && inProject(crd->getLocation()) && crd->getDestructor() &&
            !crd->getDestructor()->isTrivial()) o.num("dt", fn(crd->getDestructor()));
        }
        if (m->getExtendingDecl()) o.boo("ext", true);
        return o.raw("e", expr(m->getSubExpr())).done();
      }
      case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
      case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(e)->getSubExpr());
      case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
      case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass:
        return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
      case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
      case Stmt::StringLiteralClass: {
        auto * sl = cast<StringLiteral>(e);
        return Obj("str").num("l", ln).str("v", sl->getCharByteWidth() == 1 ? sl->getString() : "?").done();
      }
      case Stmt::PredefinedExprClass: return Obj("str").str("v", "__func__").boo("fnname", true).done();
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass: return Obj("null").done();
      case Stmt::FloatingLiteralClass: {
        llvm::SmallString<32> s;
        cast<FloatingLiteral>(e)->getValue().toString(s);
        return Obj("flt").str("v", s).done();
      }
      case Stmt::CXXThisExprClass: return Obj("this").num("l", ln).done();
      case Stmt::DeclRefExprClass: {
        auto * d = cast<DeclRefExpr>(e)->getDecl();
        if (auto * f = dyn_cast<FunctionDecl>(d)) return Obj("fn").num("l", ln).num("f", fn(f)).done();
        if (auto * b = dyn_cast<BindingDecl>(d)) {
          return Obj("ref").num("l", ln).num("d", declId(b)).str("n", b->getNameAsString())
                 .num("t", type(b->getType())).done();
        }
        Obj o("ref");
        o.num("l", ln).num("d", declId(d)).str("n", d->getNameAsString()).num("t", type(d->getType()));
        if (auto * v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage()) {
            std::string q = v->isStaticLocal() ? v->getNameAsString() : qname(v);
            o.str("g", q);
            exportGlobal(v);
          }
        }
        return o.done();
      }
      case Stmt::MemberExprClass: {
        auto * m = cast<MemberExpr>(e);
        if (auto * v = dyn_cast<VarDecl>(m->getMemberDecl())) {
          exportGlobal(v);
          return Obj("ref").num("l", ln).num("d", declId(v)).str("n", v->getNameAsString())
                 .num("t", type(v->getType())).str("g", qname(v)).done();
        }
        if (auto * f = dyn_cast<FunctionDecl>(m->getMemberDecl()))
          return Obj("fn").num("l", ln).num("f", fn(f)).raw("o", expr(m->getBase())).done();
        return Obj("mem").num("l", ln).raw("b", expr(m->getBase())).boo("arrow", m->isArrow())
               .str("f", m->getMemberDecl()->getNameAsString()).num("t", type(e->getType()))
               .str("rec", [&]() -> std::string {
            if (auto * fd = dyn_cast<FieldDecl>(m->getMemberDecl())) return qname(fd->getParent());
            return "";
          } ()).done();
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto * c = cast<CXXOperatorCallExpr>(e);
        auto * f = c->getDirectCallee();
        if (!f) break;
        Obj o("call");
        o.num("l", ln).num("c", fn(f)).num("t", type(e->getType()));
        o.boo("lv", e->isGLValue());
        if (auto * m = dyn_cast<CXXMethodDecl>(f); m && !m->isStatic()) {
          o.raw("o", expr(c->getArg(0)));
          o.raw("a", args(c->arguments(), 1));
        } else {
          o.raw("a", args(c->arguments()));
        }
        return o.done();
      }
      case Stmt::CXXMemberCallExprClass: {
        auto * c = cast<CXXMemberCallExpr>(e);
        auto * f = c->getMethodDecl();
        if (!f) {
          auto * bo = dyn_cast<BinaryOperator>(c->getCallee()->IgnoreParens());
          if (!bo || !bo->isPtrMemOp()) break;
          Obj o("icall");
          o.num("l", ln).num("t", type(e->getType())).boo("lv", e->isGLValue());
          o.raw("o", expr(bo->getLHS())).boo("arrow", bo->getOpcode() == BO_PtrMemI);
          o.raw("fe", expr(bo->getRHS())).raw("a", args(c->arguments()));
          return o.done();
        }
        Obj o("call");
        o.num("l", ln).num("c", fn(f)).num("t", type(e->getType()));
        o.boo("lv", e->isGLValue());
        if (auto * me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) if (me->hasQualifier()) o.boo("qual", true);
        const Expr * ob = c->getImplicitObjectArgument();
        bool ptr = ob && ob->getType()->isPointerType();
        if (ptr) o.boo("arrow", true);
        o.raw("o", expr(ob));
        o.raw("a", args(c->arguments()));
        return o.done();
      }
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto * c = cast<CallExpr>(e);
        auto * f = c->getDirectCallee();
        Obj o(f ? "call" : "icall");
        o.num("l", ln).num("t", type(e->getType()));
        o.boo("lv", e->isGLValue());
        if (f) o.num("c", fn(f));
        else o.raw("fe", expr(c->getCallee()));
        o.raw("a", args(c->arguments()));
        return o.done();
      }
      case Stmt::CXXTemporaryObjectExprClass:
      case Stmt::CXXConstructExprClass: {
        auto * c = cast<CXXConstructExpr>(e);
        Obj o("ctor");
        o.num("l", ln).num("t", type(e->getType())).num("c", fn(c->getConstructor()));
        if (c->isListInitialization()) o.boo("list", true);
        if (c->isStdInitListInitialization()) o.boo("stdil", true);
        if (c->requiresZeroInitialization()) o.boo("zero", true);
        std::vector<std::string> v;
        for (auto * a : c->arguments()) v.push_back(expr(a));
        o.raw("a", arr(v));
        return o.done();
      }
      case Stmt::CXXInheritedCtorInitExprClass:
        if (curFn) {
          auto * c = cast<CXXInheritedCtorInitExpr>(e);
          std::vector<std::string> v;
          for (auto * p : curFn->parameters()) {
            Obj r("ref");
            r.num("l", ln).num("d", declId(p)).str("n", p->getNameAsString()).num("t", type(p->getType()));
            if (p->getType()->isReferenceType() || p->getType()->isRecordType()) v.push_back(r.done());
            else v.push_back(Obj("l2r").num("l", ln).num("t", type(p->getType())).raw("e", r.done()).done());
          }
          return Obj("ctor").num("l", ln).num("t", type(e->getType())).num("c", fn(c->getConstructor())).raw("a", arr(v)).done();
        }
        return Obj("unk").str("cls", "CXXInheritedCtorInitExpr").num("l", ln).done();
      case Stmt::CXXStdInitializerListExprClass:
        return Obj("stdil").num("l", ln).raw("e", expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr())).done();
      case Stmt::InitListExprClass: {
        auto * il = cast<InitListExpr>(e);
        if (il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm();
        std::vector<std::string> v;
        for (auto * i : il->inits()) v.push_back(expr(i));
        Obj o("il");
        o.num("l", ln).num("t", type(e->getType())).raw("a", arr(v));
        if (il->hasArrayFiller()) o.raw("filler", expr(il->getArrayFiller()));
        if (auto * rt = e->getType()->getAs<RecordType>()) {
          std::vector<std::string> fs;
          if (auto * cr = dyn_cast<CXXRecordDecl>(rt->getDecl()))
            for (auto & b : cr->bases()) { (void)b; fs.push_back("\"<base>\""); }
          for (auto * f : rt->getDecl()->fields()) fs.push_back(J::esc(f->getNameAsString()));
          o.raw("f", arr(fs));
        }
        return o.done();
      }
      case Stmt::ImplicitValueInitExprClass:
      case Stmt::CXXScalarValueInitExprClass:
        return Obj("zero").num("l", ln).num("t", type(e->getType())).done();
      case Stmt::ImplicitCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXDynamicCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXFunctionalCastExprClass:
      case Stmt::BuiltinBitCastExprClass: {
        auto * c = cast<CastExpr>(e);
        switch (c->getCastKind()) {
          case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
          case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
            return expr(c->getSubExpr());
          case CK_LValueToRValue:
            return Obj("l2r").num("l", ln).num("t", type(e->getType())).raw("e", expr(c->getSubExpr())).done();
          case CK_ArrayToPointerDecay:
            return Obj("decay").num("l", ln).raw("e", expr(c->getSubExpr())).done();
          case CK_NullToPointer: return Obj("null").done();
          case CK_ToVoid: return Obj("void").num("l", ln).raw("e", expr(c->getSubExpr())).done();
          case CK_PointerToBoolean: case CK_IntegralToBoolean: case CK_MemberPointerToBoolean:
            return Obj("tobool").num("l", ln).raw("e", expr(c->getSubExpr())).done();
          default:
            return Obj("cast").num("l", ln).str("ck", c->getCastKindName()).num("t", type(e->getType())).boo("lv", e->isGLValue())
                   .num("ft", type(c->getSubExpr()->getType())).raw("e", expr(c->getSubExpr())).done();
        }
      }
      case Stmt::UnaryOperatorClass: {
        auto * u = cast<UnaryOperator>(e);
        if (u->getOpcode() == UO_Extension || u->getOpcode() == UO_Plus) return expr(u->getSubExpr());
        if (u->getOpcode() == UO_AddrOf) {
          auto * dr = dyn_cast<DeclRefExpr>(u->getSubExpr()->IgnoreParens());
          if (dr && isa<FieldDecl>(dr->getDecl()))
            return Obj("mptr").num("l", ln).str("f", dr->getDecl()->getNameAsString()).done();
        }
        std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        if (u->isPostfix()) op = "p" + op;
        return Obj("un").num("l", ln).str("op", op).num("t", type(e->getType()))
               .raw("e", expr(u->getSubExpr())).done();
      }
      case Stmt::CompoundAssignOperatorClass:
      case Stmt::BinaryOperatorClass: {
        auto * b = cast<BinaryOperator>(e);
        if (b->isPtrMemOp())
          return Obj("pmem").num("l", ln).raw("b", expr(b->getLHS())).boo("arrow", b->getOpcode() == BO_PtrMemI)
                 .raw("fe", expr(b->getRHS())).num("t", type(e->getType())).done();
        Obj o(b->isAssignmentOp() ? "asg" : "bin");
        o.num("l", ln).str("op", BinaryOperator::getOpcodeStr(b->getOpcode())).num("t", type(e->getType()));
        if (auto * ca = dyn_cast<CompoundAssignOperator>(b)) o.num("ct", type(ca->getComputationResultType()));
        o.raw("a", expr(b->getLHS())).raw("b", expr(b->getRHS()));
        return o.done();
      }
      case Stmt::ConditionalOperatorClass: {
        auto * c = cast<ConditionalOperator>(e);
        return Obj("cond").num("l", ln).num("t", type(e->getType())).boo("lv", e->isGLValue()).raw("c", expr(c->getCond()))
               .raw("a", expr(c->getTrueExpr())).raw("b", expr(c->getFalseExpr())).done();
      }
      case Stmt::ArraySubscriptExprClass: {
        auto * a = cast<ArraySubscriptExpr>(e);
        return Obj("idx").num("l", ln).raw("b", expr(a->getBase())).raw("i", expr(a->getIdx()))
               .num("t", type(e->getType())).done();
      }
      case Stmt::LambdaExprClass: {
        auto * l = cast<LambdaExpr>(e);
        std::vector<std::string> caps;
        auto ii = l->capture_init_begin();
        for (auto & c : l->captures()) {
          Obj o;
          if (c.capturesThis()) {
            o.boo("this", true).boo("star", c.getCaptureKind() == LCK_StarThis);
          } else if (c.capturesVariable()) {
            o.num("d", declId(c.getCapturedVar())).str("n", c.getCapturedVar()->getNameAsString());
            o.boo("ref", c.getCaptureKind() == LCK_ByRef);
            if (auto * cv = dyn_cast<VarDecl>(c.getCapturedVar()); cv && cv->isInitCapture() && cv->getInit())
              o.raw("i", expr(cv->getInit()));
          } else {
            o.boo("other", true);
          }
          (void)ii;
          caps.push_back(o.done());
        }
        int fid = -1;
        std::vector<std::string> alts;
        if (l->isGenericLambda()) {
          auto * ft = l->getLambdaClass()->getLambdaCallOperator()->getDescribedFunctionTemplate();
          if (ft) for (auto * sp : ft->specializations()) alts.push_back(std::to_string(fn(sp)));
        } else {
          fid = fn(l->getCallOperator());
        }
        return Obj("lambda").num("l", ln).num("f", fid).raw("alts", arr(alts)).raw("caps", arr(caps))
               .num("t", type(e->getType())).done();
      }
      case Stmt::CXXNewExprClass: {
        auto * n = cast<CXXNewExpr>(e);
        Obj o("new");
        o.num("l", ln).num("t", type(n->getAllocatedType()));
        if (n->isArray()) o.boo("array", true);
        if (n->isArray() && n->getArraySize()) o.raw("n", expr(*n->getArraySize()));
        if (n->getInitializer()) o.raw("i", expr(n->getInitializer()));
        return o.done();
      }
      case Stmt::CXXDeleteExprClass:
        return Obj("delete").num("l", ln).raw("e", expr(cast<CXXDeleteExpr>(e)->getArgument())).done();
      case Stmt::CXXThrowExprClass: {
        auto * t = cast<CXXThrowExpr>(e);
        Obj o("throw");
        o.num("l", ln);
        if (t->getSubExpr()) o.raw("e", expr(t->getSubExpr()));
        return o.done();
      }
      case Stmt::StmtExprClass:
        return Obj("stmtexpr").num("l", ln).raw("b", stmt(cast<StmtExpr>(e)->getSubStmt())).done();
      case Stmt::VAArgExprClass:
        return Obj("vaarg").num("l", ln).raw("e", expr(cast<VAArgExpr>(e)->getSubExpr())).done();
      default: break;
    }
    std::vector<std::string> ch;
    for (auto * c : e->children())
      if (auto * ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
    return Obj("unk").str("cls", e->getStmtClassName()).num("l", ln).num("t", type(e->getType()))
           .raw("ch", arr(ch)).done();
  }

  void exportGlobal(const VarDecl * v) {
    const VarDecl * def = v->getDefinition();
    if (!def) def = v;
    std::string key = std::to_string(declId(v));
    if (globals.count(key)) return;
    globals[key] = "{}";
    Obj o;
    o.num("d", declId(v)).str("q", v->isStaticLocal() ? v->getNameAsString() : qname(v)).num("t", type(v->getType()));
    o.boo("const", v->getType().isConstQualified() || v->isConstexpr());
    o.boo("proj", inProject(def->getLocation()));
    o.boo("staticlocal", v->isStaticLocal());
    o.boo("tls", v->getTLSKind() != VarDecl::TLS_None);
    o.num("l", line(def->getLocation())).num("file", fileId(def->getLocation()));
    const VarDecl * idef = nullptr;
    const Expr * init = def->getAnyInitializer(idef);
    if (init && inProject(def->getLocation())) o.raw("i", expr(init));
    globals[key] = o.done();
  }

  std::string finish() {
    Obj o;
    o.num("errors", gErrors);
    o.raw("types", arr(types));
    o.raw("fns", arr(fns));
    o.raw("bodies", arr(bodies));
    std::vector<std::string> fl;
    for (auto & f : files) fl.push_back(J::esc(f));
    o.raw("files", arr(fl));
    std::string rs = "{";
    bool first = true;
    for (auto & kv : records) {
      if (!first) rs += ',';
      first = false;
      rs += J::esc(kv.first) + ":" + kv.second;
    }
    o.raw("records", rs + "}");
    std::string gs = "{";
    first = true;
    for (auto & kv : globals) {
      if (!first) gs += ',';
      first = false;
      gs += "\"" + kv.first + "\":" + kv.second;
    }
    o.raw("globals", gs + "}");
    return o.done();
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Exporter & X;
  explicit Visitor(Exporter & x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const {return true;}
  bool shouldVisitImplicitCode() const {return false;}
  bool TraverseDecl(Decl * d) {
    if (!d) return true;
    // prune non project top-level subtrees for speed
    if (!isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d)) {
      if (!X.inProject(d->getLocation())) return true;
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl * f) {
    if (f->isDependentContext()) return true;
    if (X.inProject(f->getLocation())) X.fn(f);
    return true;
  }
  bool VisitVarDecl(VarDecl * v) {
    if (v->isFileVarDecl() && X.inProject(v->getLocation()) && !v->getDeclContext()->isDependentContext())
      X.exportGlobal(v);
    return true;
  }
  bool VisitRecordDecl(RecordDecl * r) {
    if (X.inProject(r->getLocation()) && r->isCompleteDefinition() && !r->isDependentContext())
      X.exportRecord(r);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext & C) override {
    gErrors = C.getDiagnostics().getClient()->getNumErrors();
    Exporter x(C);
    if (gErrors == 0) {
      Visitor v(x);
      v.TraverseDecl(C.getTranslationUnitDecl());
    }
    std::string out = x.finish();
    FILE * f = fopen(gOut.c_str(), "w");
    if (!f) { perror("fopen"); exit(3); }
    fwrite(out.data(), 1, out.size(), f);
    fclose(f);
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: exporter OUT ROOT1,ROOT2 SRC -- flags...
int main(int argc, char ** argv) {
  if (argc < 4) { fprintf(stderr, "usage\n"); return 3; }
  gOut = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(',', p);
    if (q == std::string::npos) q = roots.size();
    if (q > p) gRoots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  std::vector<std::string> cmd{"clang++"};
  for (auto & f : flags) cmd.push_back(f);
  cmd.push_back("-fsyntax-only");
  cmd.push_back(argv[3]);
  llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  clang::tooling::ToolInvocation inv(cmd, std::make_unique<Action>(), fm.get());
  bool ok = inv.run();
  return ok ? 0 : 2;
}
