// dpf-export: dumps the resolved program (functions with bodies, template
// instantiations included, records, enums) of the files under the given path
// prefixes as JSON, for the analyses in /verif/engine.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_prefixes;
static std::string g_out;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  Exporter(ASTContext& ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), namegen_(ctx),
        policy_(ctx.getPrintingPolicy()) {
    policy_.SuppressTagKeyword = true;
    policy_.FullyQualifiedName = true;
    policy_.PrintCanonicalTypes = true;
    policy_.SuppressInlineNamespace = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string File(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l);
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    // Normalise a/../b as produced by foreach_target re-inclusion.
    llvm::SmallString<256> s(f);
    llvm::sys::path::remove_dots(s, true);
    return std::string(s.str());
  }
  int Line(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l);
    return p.isInvalid() ? 0 : p.getLine();
  }
  bool InScope(SourceLocation l) {
    std::string f = File(l);
    for (auto& p : g_prefixes)
      if (f.rfind(p, 0) == 0) return true;
    return false;
  }

  std::string QName(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, policy_);
    return s;
  }
  static std::string TidyFn(std::string s) { return s; }

  int64_t Id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    int64_t n = ids_.size() + 1;
    ids_[d] = n;
    return n;
  }

  // ---- types ----
  int Ty(QualType q) {
    if (q.isNull()) return -1;
    QualType c = ctx_.getCanonicalType(q);
    std::string key = c.getAsString(policy_);
    auto it = tyidx_.find(key);
    if (it != tyidx_.end()) return it->second;
    int idx = types_.size();
    tyidx_[key] = idx;
    types_.push_back(json::Object{});
    json::Object o;
    o["s"] = key;
    if (c.isConstQualified()) o["const"] = true;
    QualType u = c.getUnqualifiedType();
    if (u->isDependentType()) {
      o["k"] = "dep";
    } else if (u->isReferenceType()) {
      o["k"] = u->isRValueReferenceType() ? "rref" : "ref";
      o["p"] = Ty(u->getPointeeType());
    } else if (u->isPointerType()) {
      o["k"] = "ptr";
      o["p"] = Ty(u->getPointeeType());
    } else if (u->isBooleanType()) {
      o["k"] = "bool";
    } else if (u->isEnumeralType()) {
      o["k"] = "enum";
      const EnumDecl* ed = u->castAs<EnumType>()->getDecl();
      o["n"] = QName(ed);
      if (const EnumDecl* def = ed->getDefinition()) {
        json::Array a;
        for (auto* e : def->enumerators())
          a.push_back(json::Array{e->getNameAsString(),
                                  (int64_t)e->getInitVal().getExtValue()});
        o["e"] = std::move(a);
      }
    } else if (u->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)ctx_.getTypeSize(u);
      o["sg"] = u->isSignedIntegerType();
    } else if (u->isFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)ctx_.getTypeSize(u);
    } else if (u->isVoidType()) {
      o["k"] = "void";
    } else if (u->isArrayType()) {
      o["k"] = "arr";
      o["p"] = Ty(ctx_.getAsArrayType(u)->getElementType());
      if (auto* ca = ctx_.getAsConstantArrayType(u))
        o["n"] = (int64_t)ca->getSize().getZExtValue();
    } else if (const RecordType* rt = u->getAs<RecordType>()) {
      o["k"] = "rec";
      const auto* rd = dyn_cast<CXXRecordDecl>(rt->getDecl());
      o["n"] = rd ? QName(rd) : QName(rt->getDecl());
      if (rd) {
        if (rd->isLambda()) o["lambda"] = true;
        if (IsProto(rd)) o["proto"] = true;
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
          json::Array a;
          std::function<void(const TemplateArgument&)> add =
              [&](const TemplateArgument& ta) {
                if (ta.getKind() == TemplateArgument::Type)
                  a.push_back(Ty(ta.getAsType()));
                else if (ta.getKind() == TemplateArgument::Integral)
                  a.push_back(llvm::toString(ta.getAsIntegral(), 10));
                else if (ta.getKind() == TemplateArgument::Pack)
                  for (auto& x : ta.pack_elements()) add(x);
                else
                  a.push_back(nullptr);
              };
          for (auto& ta : sp->getTemplateArgs().asArray()) add(ta);
          o["a"] = std::move(a);
        }
        Record(rd);
        const CXXRecordDecl* def = rd->getDefinition();
        if (def && !def->isDependentType() && !def->isInvalidDecl() && def->isTriviallyCopyable())
          o["sz"] = (int64_t)ctx_.getTypeSizeInChars(u).getQuantity();
      }
    } else {
      o["k"] = "other";
    }
    types_[idx] = std::move(o);
    return idx;
  }

  bool IsProto(const CXXRecordDecl* rd) {
    rd = rd->getDefinition();
    if (!rd) return false;
    std::string n = QName(rd);
    if (n == "google::protobuf::MessageLite") return true;
    for (auto& b : rd->bases())
      if (auto* r = b.getType()->getAsCXXRecordDecl())
        if (IsProto(r)) return true;
    return false;
  }

  void Record(const CXXRecordDecl* rd) {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentContext()) return;
    if (!InScope(rd->getLocation())) return;
    if (rd->isLambda()) return;
    if (!seen_rec_.insert(rd).second) return;
    std::string name = ctx_.getTypeDeclType(rd).getAsString(policy_);
    json::Object o;
    o["n"] = QName(rd);
    o["s"] = name;
    o["f"] = File(rd->getLocation());
    o["l"] = Line(rd->getLocation());
    o["abstract"] = rd->isAbstract();
    json::Array bases;
    for (auto& b : rd->bases()) bases.push_back(Ty(b.getType()));
    o["bases"] = std::move(bases);
    json::Array fields;
    for (auto* f : rd->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = Ty(f->getType());
      fo["l"] = Line(f->getLocation());
      if (f->isMutable()) fo["mutable"] = true;
      fo["access"] = (int)f->getAccess();
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = E(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    json::Array methods;
    for (auto* m : rd->methods()) {
      json::Object mo;
      mo["n"] = m->getNameAsString();
      mo["m"] = Mangled(m);
      mo["access"] = (int)m->getAccess();
      mo["const"] = m->isConst();
      mo["static"] = m->isStatic();
      mo["virtual"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["deleted"] = m->isDeleted();
      mo["implicit"] = m->isImplicit();
      mo["defaulted"] = m->isDefaulted();
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        mo["ctor"] = true;
        mo["copy"] = c->isCopyConstructor();
        mo["move"] = c->isMoveConstructor();
      }
      if (m->isCopyAssignmentOperator()) mo["copyassign"] = true;
      if (m->isMoveAssignmentOperator()) mo["moveassign"] = true;
      json::Array ov;
      for (auto* x : m->overridden_methods()) ov.push_back(Mangled(x));
      mo["over"] = std::move(ov);
      mo["rt"] = Ty(m->getReturnType());
      methods.push_back(std::move(mo));
    }
    o["methods"] = std::move(methods);
    // static data members
    json::Array st;
    for (auto* d : rd->decls())
      if (auto* v = dyn_cast<VarDecl>(d)) {
        json::Object so;
        so["n"] = v->getNameAsString();
        so["t"] = Ty(v->getType());
        so["constexpr"] = v->isConstexpr();
        st.push_back(std::move(so));
      }
    o["statics"] = std::move(st);
    records_.push_back(std::move(o));
  }

  std::string Mangled(const FunctionDecl* f) {
    GlobalDecl gd;
    if (auto* c = dyn_cast<CXXConstructorDecl>(f))
      gd = GlobalDecl(c, Ctor_Complete);
    else if (auto* d = dyn_cast<CXXDestructorDecl>(f))
      gd = GlobalDecl(d, Dtor_Complete);
    else
      gd = GlobalDecl(f);
    if (f->isDependentContext()) return QName(f);
    if (!mc_) mc_.reset(ctx_.createMangleContext());
    if (!mc_->shouldMangleDeclName(f)) return f->getNameAsString();
    std::string s;
    llvm::raw_string_ostream os(s);
    mc_->mangleName(gd, os);
    return s;
  }

  // ---- expressions ----
  json::Object Node(const char* k, const Stmt* s) {
    json::Object o;
    o["k"] = k;
    o["l"] = Line(s->getBeginLoc());
    return o;
  }
  json::Object XNode(const char* k, const Expr* e) {
    json::Object o = Node(k, e);
    o["t"] = Ty(e->getType());
    if (e->isGLValue()) o["lv"] = true;
    return o;
  }

  json::Value Args(llvm::iterator_range<CallExpr::const_arg_iterator> args) {
    json::Array a;
    for (auto* x : args) a.push_back(E(x));
    return json::Value(std::move(a));
  }

  void Callee(json::Object& o, const FunctionDecl* f) {
    o["fn"] = QName(f);
    o["m"] = Mangled(f);
    o["rt"] = Ty(f->getReturnType());
    if (f->isNoReturn()) o["noreturn"] = true;
    json::Array pt;
    for (auto* p : f->parameters()) pt.push_back(Ty(p->getType()));
    o["pt"] = std::move(pt);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isConst()) o["cm"] = true;
      if (m->isStatic()) o["sm"] = true;
      if (m->isVirtual()) o["vm"] = true;
      o["cls"] = QName(m->getParent());
      if (IsProto(m->getParent())) o["proto"] = true;
      if (isa<CXXConversionDecl>(m)) o["conv"] = true;
    }
    if (f->isOverloadedOperator())
      o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    if (auto* tsi = f->getTemplateSpecializationArgs()) {
      json::Array a;
      std::function<void(const TemplateArgument&)> add =
          [&](const TemplateArgument& ta) {
            if (ta.getKind() == TemplateArgument::Type)
              a.push_back(Ty(ta.getAsType()));
            else if (ta.getKind() == TemplateArgument::Integral)
              a.push_back(llvm::toString(ta.getAsIntegral(), 10));
            else if (ta.getKind() == TemplateArgument::Pack)
              for (auto& x : ta.pack_elements()) add(x);
            else
              a.push_back(nullptr);
          };
      for (auto& ta : tsi->asArray()) add(ta);
      o["ta"] = std::move(a);
    }
    if (auto* d = dyn_cast<CXXMethodDecl>(f))
      if (!d->isUserProvided() && d->isDefaulted()) o["defaulted"] = true;
  }

  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    // Transparent wrappers.
    if (auto* x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
      return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
      return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e))
      if (x->getSourceExpr()) return E(x->getSourceExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      json::Object o = XNode("tmp", e);
      o["e"] = E(x->getSubExpr());
      return json::Value(std::move(o));
    }
    // Integer constants.
    if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() &&
        e->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
        json::Object o = XNode("int", e);
        llvm::SmallString<40> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
        const Expr* in = e->IgnoreParenImpCasts();
        if (auto* dr = dyn_cast<DeclRefExpr>(in)) o["name"] = QName(dr->getDecl());
        return json::Value(std::move(o));
      }
    }
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      json::Object o = XNode("float", e);
      llvm::SmallString<40> s;
      x->getValue().toString(s);
      o["v"] = s.str().str();
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      json::Object o = XNode("str", e);
      std::string s;
      if (x->getCharByteWidth() == 1) s = x->getString().str();
      o["v"] = json::fixUTF8(s);
      o["n"] = (int64_t)x->getLength();
      return json::Value(std::move(o));
    }
    if (isa<CXXNullPtrLiteralExpr>(e)) return json::Value(XNode("null", e));
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        json::Object o = XNode("fref", e);
        Callee(o, f);
        return json::Value(std::move(o));
      }
      if (auto* b = dyn_cast<BindingDecl>(d)) {
        if (b->getHoldingVar()) {
          json::Object o = XNode("var", e);
          o["id"] = Id(b->getHoldingVar());
          o["n"] = b->getNameAsString();
          o["lo"] = true;
          return json::Value(std::move(o));
        }
        if (b->getBinding()) return E(b->getBinding());
      }
      json::Object o = XNode("var", e);
      o["id"] = Id(d);
      o["n"] = d->getNameAsString();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal())
          o["lo"] = true;
        else {
          o["q"] = QName(v);
          if (v->isStaticLocal()) o["sl"] = true;
          GlobalVar(v);
        }
        if (isa<ParmVarDecl>(v)) o["pa"] = true;
      } else {
        o["q"] = QName(d);
      }
      o["vt"] = Ty(d->getType());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        json::Object o = XNode("var", e);
        o["id"] = Id(v);
        o["n"] = v->getNameAsString();
        o["q"] = QName(v);
        GlobalVar(v);
        return json::Value(std::move(o));
      }
      json::Object o = XNode("mem", e);
      o["f"] = d->getNameAsString();
      if (auto* fd = dyn_cast<FieldDecl>(d)) {
        o["cls"] = QName(fd->getParent());
        o["ft"] = Ty(fd->getType());
      }
      o["b"] = E(x->getBase());
      if (x->isArrow()) o["arrow"] = true;
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      json::Object o = XNode("call", e);
      if (auto* f = x->getDirectCallee()) {
        Callee(o, f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f); m && !m->isStatic()) {
          o["obj"] = E(x->getArg(0));
          json::Array a;
          for (unsigned i = 1; i < x->getNumArgs(); ++i)
            a.push_back(E(x->getArg(i)));
          o["args"] = std::move(a);
        } else {
          o["args"] = Args(x->arguments());
        }
      } else {
        o["fe"] = E(x->getCallee());
        o["args"] = Args(x->arguments());
      }
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      json::Object o = XNode("call", e);
      if (auto* m = x->getMethodDecl()) {
        Callee(o, m);
        const Expr* obj = x->getImplicitObjectArgument();
        o["obj"] = E(obj);
        if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
          if (me->isArrow()) o["arrow"] = true;
      } else {
        o["fe"] = E(x->getCallee());
      }
      o["args"] = Args(x->arguments());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      json::Object o = XNode("call", e);
      if (auto* f = x->getDirectCallee())
        Callee(o, f);
      else
        o["fe"] = E(x->getCallee());
      o["args"] = Args(x->arguments());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      json::Object o = XNode("ctor", e);
      auto* c = x->getConstructor();
      o["m"] = Mangled(c);
      o["cls"] = QName(c->getParent());
      o["cm"] = c->isCopyConstructor();
      o["mv"] = c->isMoveConstructor();
      o["user"] = c->isUserProvided();
      o["list"] = x->isListInitialization();
      if (IsProto(c->getParent())) o["proto"] = true;
      json::Array pt;
      for (auto* p : c->parameters()) pt.push_back(Ty(p->getType()));
      o["pt"] = std::move(pt);
      json::Array a;
      for (auto* y : x->arguments()) a.push_back(E(y));
      o["args"] = std::move(a);
      Record(c->getParent());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      return json::Value(XNode("inhctor", x));
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      CastKind ck = x->getCastKind();
      if (ck == CK_NoOp && !isa<ExplicitCastExpr>(x)) return E(x->getSubExpr());
      if (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion)
        return E(x->getSubExpr());
      json::Object o = XNode("cast", e);
      o["ck"] = x->getCastKindName();
      o["ex"] = isa<ExplicitCastExpr>(x);
      o["e"] = E(x->getSubExpr());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      json::Object o = XNode("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = E(x->getSubExpr());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      json::Object o = XNode(
          x->isAssignmentOp()
              ? (isa<CompoundAssignOperator>(x) ? "opassign" : "assign")
              : "bin",
          e);
      std::string op = x->getOpcodeStr().str();
      if (isa<CompoundAssignOperator>(x)) {
        op.pop_back();
        o["ct"] = Ty(cast<CompoundAssignOperator>(x)->getComputationResultType());
      }
      o["op"] = op;
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      json::Object o = XNode("cond", e);
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      json::Object o = XNode("sub", e);
      o["b"] = E(x->getBase());
      o["i"] = E(x->getIdx());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      json::Object o = XNode("ilist", e);
      json::Array a;
      for (unsigned i = 0; i < x->getNumInits(); ++i) a.push_back(E(x->getInit(i)));
      o["a"] = std::move(a);
      if (x->hasArrayFiller()) o["filler"] = true;
      if (auto* rd = e->getType()->getAsCXXRecordDecl()) {
        json::Array fn;
        for (auto& b : rd->bases()) { (void)b; fn.push_back("<base>"); }
        for (auto* f : rd->fields()) fn.push_back(f->getNameAsString());
        o["fn"] = std::move(fn);
      }
      return json::Value(std::move(o));
    }
    if (isa<CXXThisExpr>(e)) return json::Value(XNode("this", e));
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      json::Object o = XNode("new", e);
      o["at"] = Ty(x->getAllocatedType());
      if (auto sz = x->getArraySize()) o["n"] = E(*sz);
      if (x->getInitializer()) o["e"] = E(x->getInitializer());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      json::Object o = XNode("delete", e);
      o["e"] = E(x->getArgument());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      json::Object o = XNode("lambda", e);
      json::Array caps;
      unsigned ci = 0;
      auto inits = x->capture_init_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
        } else if (c.capturesVariable()) {
          co["id"] = Id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar()); v && v->isInitCapture())
            co["initcap"] = true;
          co["e"] = E(*(inits + ci));
        }
        ++ci;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl* m = x->getCallOperator();
      o["params"] = Params(m);
      o["rt"] = Ty(m->getReturnType());
      o["body"] = S(x->getBody());
      o["mut"] = !m->isConst();
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      json::Object o = XNode("arrcopy", e);
      o["e"] = E(x->getCommonExpr()->getSourceExpr());
      return json::Value(std::move(o));
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
      return json::Value(XNode("zero", e));
    if (auto* x = dyn_cast<StmtExpr>(e)) {
      json::Object o = XNode("stmtexpr", e);
      o["body"] = S(x->getSubStmt());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) {
      json::Object o = XNode("str", e);
      o["v"] = x->getFunctionName() ? x->getFunctionName()->getString().str() : "";
      return json::Value(std::move(o));
    }
    json::Object o = XNode("unk", e);
    o["cls"] = e->getStmtClassName();
    json::Array ch;
    for (const Stmt* c : e->children())
      if (c) {
        if (auto* ce = dyn_cast<Expr>(c)) ch.push_back(E(ce));
      }
    o["ch"] = std::move(ch);
    return json::Value(std::move(o));
  }

  void GlobalVar(const VarDecl* v) {
    v = v->getCanonicalDecl();
    if (!InScope(v->getLocation())) return;
    if (!seen_var_.insert(v).second) return;
    const VarDecl* def = nullptr;
    const Expr* init = v->getAnyInitializer(def);
    json::Object o;
    o["id"] = Id(v);
    o["n"] = v->getNameAsString();
    o["q"] = QName(v);
    o["t"] = Ty(v->getType());
    o["f"] = File(v->getLocation());
    o["l"] = Line(v->getLocation());
    o["constexpr"] = v->isConstexpr();
    o["sl"] = v->isStaticLocal();
    o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
    if (init && !init->isValueDependent() && !init->isTypeDependent())
      o["init"] = E(init);
    gvars_.push_back(std::move(o));
  }

  json::Array Params(const FunctionDecl* f) {
    json::Array a;
    for (auto* p : f->parameters()) {
      json::Object o;
      o["id"] = Id(p);
      o["n"] = p->getNameAsString();
      o["t"] = Ty(p->getType());
      a.push_back(std::move(o));
    }
    return a;
  }

  json::Value VarD(const VarDecl* v) {
    json::Object o;
    o["id"] = Id(v);
    o["n"] = v->getNameAsString();
    o["t"] = Ty(v->getType());
    o["l"] = Line(v->getLocation());
    if (v->isStaticLocal()) {
      o["sl"] = true;
      GlobalVar(v);
    }
    if (v->isConstexpr()) o["cx"] = true;
    if (v->getInit()) o["e"] = E(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (auto* b : dd->bindings()) {
        json::Object bo;
        bo["n"] = b->getNameAsString();
        if (auto* hv = b->getHoldingVar()) {
          bo["id"] = Id(hv);
          bo["t"] = Ty(hv->getType());
          if (hv->getInit()) bo["e"] = E(hv->getInit());
        }
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return json::Value(std::move(o));
  }

  // ---- statements ----
  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      json::Object o = Node("expr", s);
      o["e"] = E(e);
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      json::Object o = Node("block", s);
      json::Array a;
      for (auto* c : x->body()) a.push_back(S(c));
      o["s"] = std::move(a);
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      json::Object o = Node("decl", s);
      json::Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(VarD(v));
      o["d"] = std::move(a);
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      if (x->isConstexpr()) {
        if (auto nd = x->getNondiscardedCase(ctx_)) {
          json::Object o = Node("block", s);
          json::Array a;
          if (x->getInit()) a.push_back(S(x->getInit()));
          if (*nd) a.push_back(S(*nd));
          o["s"] = std::move(a);
          return json::Value(std::move(o));
        }
      }
      json::Object o = Node("if", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["a"] = S(x->getThen());
      o["b"] = S(x->getElse());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      json::Object o = Node("for", s);
      o["init"] = S(x->getInit());
      o["c"] = x->getCond() ? E(x->getCond()) : json::Value(nullptr);
      o["inc"] = x->getInc() ? E(x->getInc()) : json::Value(nullptr);
      o["body"] = S(x->getBody());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      json::Object o = Node("while", s);
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      json::Object o = Node("do", s);
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      json::Object o = Node("range", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      o["v"] = VarD(x->getLoopVariable());
      o["r"] = E(x->getRangeInit());
      o["body"] = S(x->getBody());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      json::Object o = Node("switch", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["ct"] = Ty(x->getCond()->IgnoreParenImpCasts()->getType());
      o["body"] = S(x->getBody());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      json::Object o = Node("case", s);
      o["v"] = E(x->getLHS());
      o["s"] = S(x->getSubStmt());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      json::Object o = Node("default", s);
      o["s"] = S(x->getSubStmt());
      return json::Value(std::move(o));
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      json::Object o = Node("return", s);
      if (x->getRetValue()) o["e"] = E(x->getRetValue());
      return json::Value(std::move(o));
    }
    if (isa<BreakStmt>(s)) return json::Value(Node("break", s));
    if (isa<ContinueStmt>(s)) return json::Value(Node("continue", s));
    if (isa<NullStmt>(s)) return json::Value(Node("null", s));
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<CXXTryStmt>(s)) return S(x->getTryBlock());
    json::Object o = Node("unkstmt", s);
    o["cls"] = s->getStmtClassName();
    return json::Value(std::move(o));
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (f->isDependentContext()) return true;
    if (f->isDefaulted()) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (!InScope(f->getLocation())) return true;
    std::string mangled = Mangled(f);
    if (!seen_fn_.insert(mangled).second) return true;
    json::Object o;
    Callee(o, f);
    o["f"] = File(f->getLocation());
    o["l"] = Line(f->getLocation());
    o["name"] = f->getNameAsString();
    o["params"] = Params(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["access"] = (int)m->getAccess();
      o["rec"] = ctx_.getTypeDeclType(m->getParent()).getAsString(policy_);
      o["rty"] = Ty(ctx_.getTypeDeclType(m->getParent()));
      json::Array ov;
      for (auto* x : m->overridden_methods()) ov.push_back(Mangled(x));
      o["over"] = std::move(ov);
      Record(m->getParent());
    }
    if (f->isInAnonymousNamespace()) o["anon"] = true;
    if (f->isTemplateInstantiation()) o["inst"] = true;
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      json::Array in;
      for (auto* i : c->inits()) {
        json::Object io;
        if (i->isMemberInitializer())
          io["f"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer())
          io["base"] = Ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer())
          io["deleg"] = true;
        io["w"] = i->isWritten();
        io["e"] = E(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = S(f->getBody());
    funcs_.push_back(std::move(o));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
    if (rd->isThisDeclarationADefinition()) Record(rd);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->isLocalVarDeclOrParm() && !v->getDeclContext()->isDependentContext() &&
        !v->getType()->isDependentType())
      GlobalVar(v);
    else if (v->isStaticLocal() && !v->getDeclContext()->isDependentContext())
      GlobalVar(v);
    return true;
  }

  void Write(const std::string& main) {
    json::Object o;
    o["main"] = main;
    o["functions"] = std::move(funcs_);
    o["records"] = std::move(records_);
    o["vars"] = std::move(gvars_);
    json::Array t;
    for (auto& x : types_) t.push_back(std::move(x));
    o["types"] = std::move(t);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o));
  }

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  ASTNameGenerator namegen_;
  PrintingPolicy policy_;
  std::unique_ptr<MangleContext> mc_;
  std::map<const Decl*, int64_t> ids_;
  std::map<std::string, int> tyidx_;
  std::vector<json::Object> types_;
  std::set<std::string> seen_fn_;
  std::set<const CXXRecordDecl*> seen_rec_;
  std::set<const VarDecl*> seen_var_;
  json::Array funcs_, records_, gvars_;
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(std::string main) : main_(std::move(main)) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Exporter ex(ctx);
    ex.TraverseDecl(ctx.getTranslationUnitDecl());
    ex.Write(main_);
  }
  std::string main_;
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,
                                                 StringRef f) override {
    return std::make_unique<Consumer>(f.str());
  }
};

}  // namespace

// usage: dpf-export OUT.json PREFIX[,PREFIX...] SOURCE -- compile flags
int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  std::string p = argv[2];
  size_t pos;
  while ((pos = p.find(',')) != std::string::npos) {
    g_prefixes.push_back(p.substr(0, pos));
    p = p.substr(pos + 1);
  }
  g_prefixes.push_back(p);
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
