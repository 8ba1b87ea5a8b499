// clang plugin: mechanical extraction of function bodies for the VC generator.
//
//   clang++ -fsyntax-only -fplugin=k2extract.so \
//      -fplugin-arg-k2extract-out=FILE -fplugin-arg-k2extract-fn=k2::Foo ...
//
// For every function definition (template instantiations included) whose
// qualified name is one of the requested names, and for every function with a
// body under /repo that is reachable from it, one record is written that holds
// the statements and expressions of the body after Sema: overloads resolved,
// templates instantiated, implicit conversions explicit.
//
// What the extraction drops: parentheses, cleanups/temporaries bookkeeping
// (ExprWithCleanups, MaterializeTemporary, BindTemporary), const/volatile
// qualifiers, attributes, and statically dead branches of `?:` / `if` whose
// condition is a compile-time constant.  Everything else that is not
// understood is emitted as ["unsupported", class-name] and makes the function
// unverifiable (never silently skipped).
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;
using J = json::Value;
using A = json::Array;
using O = json::Object;

namespace {

std::string g_out;
std::set<std::string> g_targets;
std::set<std::string> g_stop;
std::string g_root = "/repo/";

class Emitter {
 public:
  explicit Emitter(ASTContext &ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getPrintingPolicy()) {
    pp_.SuppressTagKeyword = true;
    pp_.FullyQualifiedName = true;
    pp_.PrintCanonicalTypes = true;
    pp_.SuppressUnwrittenScope = true;
    pp_.Bool = true;
  }

  int Id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    int n = ids_.size() + 1;
    ids_[d] = n;
    return n;
  }

  int Line(SourceLocation l) { return sm_.getExpansionLineNumber(l); }
  std::string File(SourceLocation l) {
    return sm_.getFilename(sm_.getExpansionLoc(l)).str();
  }

  J Type(QualType q) {
    q = q.getCanonicalType().getUnqualifiedType();
    const clang::Type *t = q.getTypePtr();
    if (auto *r = dyn_cast<ReferenceType>(t))
      return A{"ref", Type(r->getPointeeType())};
    if (auto *p = dyn_cast<PointerType>(t))
      return A{"ptr", Type(p->getPointeeType())};
    if (auto *a = dyn_cast<ConstantArrayType>(t))
      return A{"arr", Type(a->getElementType()),
               (int64_t)a->getSize().getSExtValue()};
    if (t->isBooleanType()) return A{"bool"};
    if (auto *b = dyn_cast<BuiltinType>(t)) {
      if (b->isInteger())
        return A{"int", (int64_t)ctx_.getTypeSize(q), b->isSignedInteger()};
      if (b->isFloatingPoint())
        return A{"float", (int64_t)ctx_.getTypeSize(q)};
      if (b->isVoidType()) return A{"void"};
      return A{"other", q.getAsString(pp_)};
    }
    if (auto *e = dyn_cast<EnumType>(t))
      return A{"enum", q.getAsString(pp_),
               (int64_t)ctx_.getTypeSize(q)};
    if (auto *r = dyn_cast<RecordType>(t)) {
      auto *rd = r->getDecl();
      if (auto *c = dyn_cast<CXXRecordDecl>(rd))
        if (c->isLambda()) return A{"lam", Id(c)};
      std::string n = q.getAsString(pp_);
      Record(rd, n);
      return A{"rec", n};
    }
    if (t->isFunctionType()) return A{"fn", q.getAsString(pp_)};
    return A{"other", q.getAsString(pp_)};
  }

  void Record(const RecordDecl *rd, const std::string &name) {
    if (records_.count(name)) return;
    records_.insert(name);
    // the element types of arrays and ragged arrays
    if (auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(rd))
      for (auto &ta : ts->getTemplateArgs().asArray())
        if (ta.getKind() == TemplateArgument::Type) Type(ta.getAsType());
    auto *def = rd->getDefinition();
    if (!def) return;
    std::string f = File(def->getLocation());
    if (f.rfind(g_root, 0) != 0) return;
    A fields;
    for (auto *fd : def->fields())
      fields.push_back(
          O{{"name", fd->getNameAsString()}, {"type", Type(fd->getType())}});
    A bases;
    if (auto *c = dyn_cast<CXXRecordDecl>(def))
      for (auto &b : c->bases()) bases.push_back(Type(b.getType()));
    rec_out_[name] = O{{"fields", std::move(fields)}, {"bases", std::move(bases)}};
  }

  std::string QName(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy p(pp_);
    p.SuppressUnwrittenScope = true;
    d->printQualifiedName(os, p);
    return os.str();
  }

  J FnRef(const FunctionDecl *f) {
    Enqueue(f);
    O o{{"fn", Id(Def(f))}, {"q", QName(f)}};
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = ctx_.getRecordType(m->getParent())
                     .getCanonicalType()
                     .getUnqualifiedType()
                     .getAsString(pp_);
      if (m->getParent()->isLambda()) o["lam"] = Id(m->getParent());
      if (m->isStatic()) o["static"] = true;
    }
    A pts;
    for (auto *p : f->parameters()) pts.push_back(Type(p->getType()));
    o["pt"] = std::move(pts);
    return o;
  }

  const FunctionDecl *Def(const FunctionDecl *f) {
    const FunctionDecl *d = nullptr;
    if (f->isDefined(d) && d) return d;
    if (auto *p = f->getTemplateInstantiationPattern()) (void)p;
    return f;
  }

  void Enqueue(const FunctionDecl *f) {
    const FunctionDecl *d = Def(f);
    if (!d->doesThisDeclarationHaveABody() && !d->isDefaulted()) return;
    std::string file = File(d->getLocation());
    if (file.rfind(g_root, 0) != 0) return;
    if (file.find("/log.h") != std::string::npos) return;
    if (g_stop.count(QName(d))) return;
    if (seen_.insert(d).second) work_.push_back(d);
  }

  J U(const std::string &why, int line = 0) {
    return A{"unsupported", why, line};
  }

  J Args(llvm::iterator_range<const Expr *const *> r) {
    A a;
    for (auto *e : r) a.push_back(E(e));
    return a;
  }

  J E(const Expr *e) {
    if (!e) return nullptr;
    if (auto *x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
      return E(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
      return E(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
      return A{"stdinit", E(x->getSubExpr()), Type(x->getType())};
    int line = Line(e->getBeginLoc());
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<40> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      return A{"int", std::string(s.str()), Type(x->getType())};
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e))
      return A{"int", std::to_string(x->getValue()), Type(x->getType())};
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e))
      return A{"bool", x->getValue()};
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      llvm::SmallString<40> s;
      x->getValue().toString(s, 200, 0);
      return A{"flt", std::string(s.str()), Type(x->getType())};
    }
    if (auto *x = dyn_cast<StringLiteral>(e))
      if (x->isOrdinary() && x->getLength() < 40 &&
          llvm::all_of(x->getString(), [](char c) { return isalnum(c) || c == '_'; }))
        return A{"str", x->getString()};
    if (isa<StringLiteral>(e) || isa<PredefinedExpr>(e)) return A{"str"};
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
      return A{"null"};
    if (isa<CXXThisExpr>(e)) return A{"this", Type(e->getType())};
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        llvm::SmallString<40> s;
        ec->getInitVal().toString(s, 10);
        return A{"int", std::string(s.str()), Type(x->getType())};
      }
      if (auto *f = dyn_cast<FunctionDecl>(d)) return A{"fnref", FnRef(f)};
      if (auto *v = dyn_cast<VarDecl>(d)) {
        // compile-time constants
        if (!v->isLocalVarDeclOrParm() || v->isConstexpr()) {
          Expr::EvalResult r;
          if (!v->getType()->isReferenceType() && e->EvaluateAsInt(r, ctx_)) {
            llvm::SmallString<40> s;
            r.Val.getInt().toString(s, 10);
            return A{"int", std::string(s.str()), Type(x->getType())};
          }
          llvm::APFloat f(0.0);
          if (v->isConstexpr() && v->getType()->isFloatingType() &&
              e->EvaluateAsFloat(f, ctx_)) {
            llvm::SmallString<40> s;
            f.toString(s, 200, 0);
            return A{"flt", std::string(s.str()), Type(x->getType())};
          }
        }
        return A{"var", Id(d), d->getNameAsString(), Type(d->getType()),
                 v->isLocalVarDeclOrParm()};
      }
      if (isa<BindingDecl>(d))
        return A{"var", Id(d), d->getNameAsString(), Type(d->getType()), true};
      return U("DeclRef " + std::string(d->getDeclKindName()), line);
    }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      auto k = x->getCastKind();
      const char *kn = x->getCastKindName();
      if (k == CK_NoOp || k == CK_ConstructorConversion ||
          k == CK_UserDefinedConversion || k == CK_ArrayToPointerDecay ||
          k == CK_FunctionToPointerDecay || k == CK_BuiltinFnToFnPtr ||
          k == CK_LValueToRValue || k == CK_IntegralCast ||
          k == CK_IntegralToBoolean || k == CK_IntegralToFloating ||
          k == CK_FloatingToIntegral || k == CK_FloatingCast ||
          k == CK_FloatingToBoolean || k == CK_PointerToBoolean ||
          k == CK_NullToPointer || k == CK_ToVoid || k == CK_BitCast ||
          k == CK_DerivedToBase || k == CK_UncheckedDerivedToBase ||
          k == CK_IntegralToPointer || k == CK_PointerToIntegral)
        return A{"cast", kn, Type(x->getType()), E(x->getSubExpr()), Type(x->getSubExpr()->getType())};
      return A{"cast", kn, Type(x->getType()), E(x->getSubExpr()), Type(x->getSubExpr()->getType())};
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<CXXMethodDecl>(x->getMemberDecl()))
        return A{"method", E(x->getBase()), x->isArrow(), FnRef(f)};
      if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx_)) {
          llvm::SmallString<40> s;
          r.Val.getInt().toString(s, 10);
          return A{"int", std::string(s.str()), Type(x->getType())};
        }
        llvm::APFloat f(0.0);
        if (v->isConstexpr() && v->getType()->isFloatingType() &&
            e->EvaluateAsFloat(f, ctx_)) {
          llvm::SmallString<40> s;
          f.toString(s, 200, 0);
          return A{"flt", std::string(s.str()), Type(x->getType())};
        }
        return A{"var", Id(v), v->getNameAsString(), Type(v->getType()), false};
      }
      return A{"mem", E(x->getBase()), x->isArrow(),
               x->getMemberDecl()->getNameAsString(), Type(x->getType()),
               Type(x->getBase()->getType())};
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e))
      return A{"sub", E(x->getBase()), E(x->getIdx()), Type(x->getType()), line};
    if (auto *x = dyn_cast<UnaryOperator>(e))
      return A{"un", UnaryOperator::getOpcodeStr(x->getOpcode()).str(),
               x->isPostfix(), E(x->getSubExpr()), Type(x->getType()), line};
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      if (x->isAssignmentOp()) {
        J cty = nullptr;
        if (auto *c = dyn_cast<CompoundAssignOperator>(e))
          cty = Type(c->getComputationResultType());
        return A{"assign", x->getOpcodeStr().str(), E(x->getLHS()),
                 E(x->getRHS()), Type(x->getLHS()->getType()), cty, line};
      }
      return A{"bin", x->getOpcodeStr().str(), E(x->getLHS()), E(x->getRHS()),
               Type(x->getType()), Type(x->getLHS()->getType()), line};
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      bool v;
      if (!x->getCond()->isValueDependent() &&
          x->getCond()->EvaluateAsBooleanCondition(v, ctx_))
        return E(v ? x->getTrueExpr() : x->getFalseExpr());
      return A{"cond", E(x->getCond()), E(x->getTrueExpr()),
               E(x->getFalseExpr()), Type(x->getType()), line};
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      const FunctionDecl *f = x->getDirectCallee();
      if (!f) return U("indirect operator call", line);
      A a;
      for (auto *y : x->arguments()) a.push_back(E(y));
      return A{"opcall", FnRef(f), std::move(a), Type(x->getType()), line};
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      const CXXMethodDecl *m = x->getMethodDecl();
      if (!m) return U("indirect member call", line);
      auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
      A a;
      for (auto *y : x->arguments()) a.push_back(E(y));
      return A{"mcall", FnRef(m), me ? E(me->getBase()) : J(nullptr),
               me ? me->isArrow() : false, std::move(a), Type(x->getType()),
               line};
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      const FunctionDecl *f = x->getDirectCallee();
      A a;
      for (auto *y : x->arguments()) a.push_back(E(y));
      if (!f)
        return A{"icall", E(x->getCallee()), std::move(a), Type(x->getType()),
                 line};
      J r = A{"call", FnRef(f), std::move(a), Type(x->getType()), line};
      // pure compile-time constants such as std::numeric_limits<T>::max()
      if (x->getNumArgs() == 0) {
        Expr::EvalResult res;
        if (x->EvaluateAsInt(res, ctx_)) {
          llvm::SmallString<40> s;
          res.Val.getInt().toString(s, 10);
          return A{"int", std::string(s.str()), Type(x->getType())};
        }
      }
      return r;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      A a;
      for (auto *y : x->arguments()) a.push_back(E(y));
      return A{"ctor", FnRef(x->getConstructor()), std::move(a),
               Type(x->getType()), line,
               x->getConstructor()->isCopyOrMoveConstructor()};
    }
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e))
      return A{"zero", Type(x->getType())};
    if (auto *x = dyn_cast<ImplicitValueInitExpr>(e))
      return A{"zero", Type(x->getType())};
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr *s = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!s) s = x;
      A a;
      for (auto *y : s->inits()) a.push_back(E(y));
      return A{"init", std::move(a), Type(x->getType())};
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      A caps;
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures()) {
        if (c.capturesVariable())
          caps.push_back(A{Id(c.getCapturedVar()),
                           c.getCapturedVar()->getNameAsString(),
                           c.getCaptureKind() == LCK_ByRef, E(*ci)});
        else if (c.capturesThis())
          caps.push_back(A{0, "this", true, nullptr});
        ++ci;
      }
      Id(x->getLambdaClass());
      FunctionDecl *op = x->getCallOperator();
      lambda_ops_.push_back(op);
      O o{{"lam", Id(x->getLambdaClass())}, {"caps", std::move(caps)}};
      if (!x->isGenericLambda()) {
        if (seen_.insert(Def(op)).second) work_.push_back(Def(op));
        o["op"] = Id(Def(op));
      }
      o["line"] = line;
      return A{"lambda", std::move(o)};
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, ctx_)) {
        llvm::SmallString<40> s;
        r.Val.getInt().toString(s, 10);
        return A{"int", std::string(s.str()), Type(x->getType())};
      }
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) return U("new", line);
    if (isa<CXXThrowExpr>(e)) return A{"throw", line};
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
    if (auto *x = dyn_cast<PseudoObjectExpr>(e)) return U("pseudo", line);
    return U(e->getStmtClassName(), line);
  }

  J VarD(const VarDecl *v) {
    O o{{"id", Id(v)},
        {"name", v->getNameAsString()},
        {"type", Type(v->getType())},
        {"line", Line(v->getLocation())}};
    if (v->isStaticLocal() && !v->isConstexpr()) o["static"] = true;
    if (v->hasInit()) o["init"] = E(v->getInit());
    return o;
  }

  J S(const Stmt *s) {
    if (!s) return nullptr;
    int line = Line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      A a;
      for (auto *y : x->body()) a.push_back(S(y));
      return A{"block", std::move(a)};
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      A a;
      for (auto *d : x->decls()) {
        if (auto *dd = dyn_cast<DecompositionDecl>(d))
          return U("structured binding", line);
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(VarD(v));
      }
      return A{"decl", std::move(a), line};
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      bool v;
      if (!x->getCond()->isValueDependent() && !x->getConditionVariable() &&
          x->getCond()->EvaluateAsBooleanCondition(v, ctx_)) {
        J b = S(v ? x->getThen() : x->getElse());
        if (b == nullptr) return A{"block", A{}};
        return b;
      }
      if (x->getConditionVariable()) return U("if with declaration", line);
      J st = A{"if", E(x->getCond()), S(x->getThen()), S(x->getElse()), line};
      if (x->getInit()) return A{"block", A{S(x->getInit()), std::move(st)}};
      return st;
    }
    if (auto *x = dyn_cast<ForStmt>(s))
      return A{"for", S(x->getInit()), E(x->getCond()), E(x->getInc()),
               S(x->getBody()), line};
    if (auto *x = dyn_cast<WhileStmt>(s))
      return A{"while", E(x->getCond()), S(x->getBody()), line};
    if (auto *x = dyn_cast<DoStmt>(s)) {
      // macros: do { ... } while (0)
      bool v;
      if (x->getCond()->EvaluateAsBooleanCondition(v, ctx_) && !v)
        return A{"once", S(x->getBody())};
      return A{"dowhile", E(x->getCond()), S(x->getBody()), line};
    }
    if (auto *x = dyn_cast<ReturnStmt>(s))
      return A{"return", E(x->getRetValue()), line};
    if (isa<BreakStmt>(s)) return A{"break"};
    if (isa<ContinueStmt>(s)) return A{"continue"};
    if (isa<NullStmt>(s)) return A{"block", A{}};
    if (auto *x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto *x = dyn_cast<CXXForRangeStmt>(s))
      return A{"rangefor", E(x->getRangeInit()), VarD(x->getLoopVariable()),
               S(x->getBody()), line};
    if (auto *x = dyn_cast<SwitchStmt>(s))
      return A{"switch", E(x->getCond()), S(x->getBody()), line};
    if (auto *x = dyn_cast<CaseStmt>(s))
      return A{"case", E(x->getLHS()), S(x->getSubStmt()), line};
    if (auto *x = dyn_cast<DefaultStmt>(s))
      return A{"default", S(x->getSubStmt()), line};
    if (auto *x = dyn_cast<Expr>(s)) return A{"expr", E(x), line};
    return U(s->getStmtClassName(), line);
  }

  J Fn(const FunctionDecl *f) {
    O o{{"id", Id(Def(f))}, {"q", QName(f)}, {"line", Line(f->getLocation())},
        {"file", File(f->getLocation())}};
    A ps;
    for (auto *p : f->parameters())
      ps.push_back(O{{"id", Id(p)},
                     {"name", p->getNameAsString()},
                     {"type", Type(p->getType())}});
    o["params"] = std::move(ps);
    o["ret"] = Type(f->getReturnType());
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      A t;
      for (auto &a : ta->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        a.print(pp_, os, true);
        t.push_back(os.str());
      }
      o["targs"] = std::move(t);
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = ctx_.getRecordType(m->getParent())
                     .getCanonicalType()
                     .getUnqualifiedType()
                     .getAsString(pp_);
      if (m->getParent()->isLambda()) o["lam"] = Id(m->getParent());
      Type(ctx_.getRecordType(m->getParent()));
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      A inits;
      for (auto *i : c->inits()) {
        if (i->isMemberInitializer())
          inits.push_back(A{i->getMember()->getNameAsString(),
                            Type(i->getMember()->getType()), E(i->getInit())});
        else
          inits.push_back(A{nullptr, nullptr, E(i->getInit())});
      }
      o["inits"] = std::move(inits);
    }
    if (f->hasBody())
      o["body"] = S(f->getBody());
    return o;
  }

  void Run(std::vector<const FunctionDecl *> roots) {
    A roots_out;
    for (auto *f : roots) {
      roots_out.push_back(Id(Def(f)));
      if (seen_.insert(Def(f)).second) work_.push_back(Def(f));
    }
    A fns;
    while (!work_.empty()) {
      auto *f = work_.back();
      work_.pop_back();
      fns.push_back(Fn(f));
    }
    O recs;
    for (auto &p : rec_out_) recs[p.first] = std::move(p.second);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << J(O{{"roots", std::move(roots_out)},
              {"fns", std::move(fns)},
              {"records", std::move(recs)}});
  }

 private:
  ASTContext &ctx_;
  SourceManager &sm_;
  PrintingPolicy pp_;
  std::map<const Decl *, int> ids_;
  std::set<std::string> records_;
  std::map<std::string, O> rec_out_;
  std::set<const FunctionDecl *> seen_;
  std::vector<const FunctionDecl *> work_;
  std::vector<const FunctionDecl *> lambda_ops_;
};

// qualified name without template arguments
static std::string Strip(const std::string &q) {
  std::string s;
  int depth = 0;
  for (size_t i = 0; i < q.size(); ++i) {
    if (q[i] == '<' && (s.size() < 8 || s.compare(s.size() - 8, 8, "operator") != 0))
      ++depth;
    else if (q[i] == '>' && depth > 0)
      --depth;
    else if (depth == 0)
      s += q[i];
  }
  return s;
}

class Finder : public RecursiveASTVisitor<Finder> {
 public:
  std::vector<const FunctionDecl *> found;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->isThisDeclarationADefinition()) return true;
    if (f->isDependentContext()) return true;
    if (g_targets.count(Strip(f->getQualifiedNameAsString()))) found.push_back(f);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &ctx) override {
    Finder fi;
    // only declarations of /repo files: everything in std/torch is skipped
    auto &sm = ctx.getSourceManager();
    for (auto *d : ctx.getTranslationUnitDecl()->decls()) {
      auto loc = sm.getExpansionLoc(d->getLocation());
      if (sm.getFilename(loc).str().rfind(g_root, 0) != 0 && !sm.isInMainFile(loc))
        continue;
      fi.TraverseDecl(d);
    }
    Emitter em(ctx);
    em.Run(fi.found);
  }
};

class Action : public PluginASTAction {
 protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
  bool ParseArgs(const CompilerInstance &,
                 const std::vector<std::string> &args) override {
    for (auto &a : args) {
      if (a.rfind("out=", 0) == 0) g_out = a.substr(4);
      else if (a.rfind("fn=", 0) == 0) g_targets.insert(a.substr(3));
      else if (a.rfind("stop=", 0) == 0) g_stop.insert(a.substr(5));
      else if (a.rfind("root=", 0) == 0) g_root = a.substr(5);
    }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};

}  // namespace

static FrontendPluginRegistry::Add<Action> X("k2extract",
                                             "extract functions for VC gen");
