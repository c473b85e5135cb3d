// Mechanical extraction of function bodies from C++ sources into JSON.
//
// For every function whose definition is spelled in one of the wanted directories the tool
// prints the (semantic, instantiated) clang AST in a small JSON dialect.  Nothing is rewritten:
// the only nodes dropped are parentheses, ExprWithCleanups, MaterializeTemporaryExpr,
// CXXBindTemporaryExpr, ConstantExpr and no-op casts.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_dirs;
static std::string g_out;

struct Ex
{
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  json::Object funcs, records, enums, types, globals;
  std::set<std::string> doneTypes;
  std::set<const FunctionDecl*> queued;
  std::vector<const FunctionDecl*> queue;
  Ex(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
    PP.SuppressInlineNamespace = true;
  }
  int id(const Decl* d)
  {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  bool wanted(SourceLocation l)
  {
    if (l.isInvalid()) return false;
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    for (auto& d : g_dirs)
      if (f.starts_with(d)) return true;
    return false;
  }
  std::string file(SourceLocation l)
  {
    if (l.isInvalid()) return "";
    l = SM.getExpansionLoc(l);
    return SM.getFilename(l).str();
  }
  int line(SourceLocation l) { return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l); }
  std::string qname(const NamedDecl* d)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  std::string plainName(const NamedDecl* d)
  {
    // qualified name without template arguments
    return d->getQualifiedNameAsString();
  }
  std::string fid(const FunctionDecl* f)
  {
    f = f->getCanonicalDecl();
    std::string s = qname(f) + "(";
    bool first = true;
    for (auto* p : f->parameters())
    {
      if (!first) s += ", ";
      first = false;
      s += p->getType().getCanonicalType().getAsString(PP);
    }
    s += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->isConst()) s += " const";
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) s += "#" + std::to_string(id(m));
    // functions with internal linkage: same name in several files
    if (f->isInAnonymousNamespace() || f->getStorageClass() == SC_Static)
      if (!isa<CXXMethodDecl>(f) || f->isInAnonymousNamespace())
      {
        auto fn = file(f->getLocation());
        auto p = fn.rfind('/');
        s += "@" + fn.substr(p + 1);
      }
    return s;
  }
  std::string type(QualType q)
  {
    q = q.getCanonicalType();
    std::string s = q.getAsString(PP);
    if (doneTypes.insert(s).second) types[s] = typeInfo(q);
    return s;
  }
  json::Value typeInfo(QualType q)
  {
    json::Object o;
    if (q.isConstQualified()) o["const"] = true;
    QualType u = q.getUnqualifiedType();
    const Type* t = u.getTypePtr();
    if (auto* b = dyn_cast<BuiltinType>(t))
    {
      if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (b->isInteger())
      {
        o["k"] = "int";
        o["w"] = (int64_t)C.getTypeSize(t);
        o["s"] = b->isSignedInteger();
      }
      else if (b->isFloatingPoint()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(t); }
      else if (b->isVoidType()) o["k"] = "void";
      else if (b->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "builtin";
    }
    else if (auto* p = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["to"] = type(p->getPointeeType()); }
    else if (auto* p = dyn_cast<ReferenceType>(t))
    {
      o["k"] = isa<RValueReferenceType>(t) ? "rref" : "ref";
      o["to"] = type(p->getPointeeType());
    }
    else if (auto* p = dyn_cast<MemberPointerType>(t)) { o["k"] = "memptr"; o["to"] = type(p->getPointeeType()); }
    else if (auto* e = dyn_cast<EnumType>(t))
    {
      o["k"] = "enum";
      o["name"] = qname(e->getDecl());
      auto it = e->getDecl()->getIntegerType();
      if (!it.isNull()) { o["w"] = (int64_t)C.getTypeSize(it); o["s"] = it->isSignedIntegerType(); o["fixed"] = e->getDecl()->isFixed(); }
      enumInfo(e->getDecl());
    }
    else if (auto* r = dyn_cast<RecordType>(t))
    {
      o["k"] = "record";
      auto* rd = r->getDecl();
      o["name"] = qname(rd);
      o["tmpl"] = plainName(rd);
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
      {
        json::Array a;
        targs(sp->getTemplateArgs().asArray(), a);
        o["args"] = std::move(a);
      }
      if (auto* cr = dyn_cast<CXXRecordDecl>(rd)) recordInfo(cr);
    }
    else if (auto* a = dyn_cast<ConstantArrayType>(t))
    {
      o["k"] = "array";
      o["to"] = type(a->getElementType());
      o["n"] = (int64_t)a->getSize().getZExtValue();
    }
    else if (auto* f = dyn_cast<FunctionProtoType>(t))
    {
      o["k"] = "func";
      o["ret"] = type(f->getReturnType());
      json::Array a;
      for (auto p : f->getParamTypes()) a.push_back(type(p));
      o["params"] = std::move(a);
    }
    else o["k"] = t->getTypeClassName();
    return o;
  }
  void targs(llvm::ArrayRef<TemplateArgument> as, json::Array& a)
  {
    for (auto& x : as)
    {
      if (x.getKind() == TemplateArgument::Type) a.push_back(type(x.getAsType()));
      else if (x.getKind() == TemplateArgument::Integral) a.push_back((int64_t)x.getAsIntegral().getExtValue());
      else if (x.getKind() == TemplateArgument::Pack) targs(x.pack_elements(), a);
      else a.push_back("?");
    }
  }
  void enumInfo(const EnumDecl* e)
  {
    auto n = qname(e);
    if (enums.get(n)) return;
    enums[n] = json::Object{};
    json::Array a;
    for (auto* c : e->enumerators())
    {
      json::Object o;
      o["n"] = c->getNameAsString();
      o["v"] = (int64_t)c->getInitVal().getExtValue();
      a.push_back(std::move(o));
    }
    enums[n] = std::move(a);
  }
  void recordInfo(const CXXRecordDecl* r)
  {
    auto* d = r->getDefinition();
    auto n = qname(r);
    if (!d || records.get(n)) return;
    auto where = d->getLocation();
    if (auto* pat = d->getTemplateInstantiationPattern()) where = pat->getLocation();
    bool w = wanted(where);
    json::Object o;
    o["repo"] = w;
    records[n] = json::Object{};
    o["tmpl"] = plainName(r);
    json::Array bases, fields;
    for (auto& b : d->bases()) bases.push_back(type(b.getType()));
    o["bases"] = std::move(bases);
    if (w || plainName(r) == "std::pair")
      for (auto* f : d->fields())
      {
        json::Object fo;
        fo["n"] = f->getNameAsString();
        fo["t"] = type(f->getType());
        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
        fields.push_back(std::move(fo));
      }
    o["fields"] = std::move(fields);
    o["poly"] = d->isPolymorphic();
    o["lambda"] = d->isLambda();
    o["loc"] = file(d->getLocation()) + ":" + std::to_string(line(d->getLocation()));
    records[n] = std::move(o);
  }
  void want(const FunctionDecl* f)
  {
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def)) return;
    if (!wanted(def->getLocation())) return;
    def = def;
    if (queued.insert(def->getCanonicalDecl()).second) queue.push_back(def);
  }
  json::Value loc(const Stmt* s) { return line(s->getBeginLoc()); }
  json::Object node(const char* k, const Stmt* s)
  {
    json::Object o;
    o["k"] = k;
    o["l"] = loc(s);
    return o;
  }
  json::Value var(const VarDecl* v)
  {
    json::Object o;
    o["id"] = id(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (auto* d = dyn_cast<DecompositionDecl>(v))
    {
      json::Array b;
      for (auto* x : d->bindings())
      {
        json::Object bo;
        bo["id"] = id(x);
        bo["n"] = x->getNameAsString();
        b.push_back(std::move(bo));
      }
      o["bindings"] = std::move(b);
    }
    if (v->hasInit() && !isa<ParmVarDecl>(v))
      if (auto* i = v->getInit()) o["init"] = expr(i);
    return o;
  }
  json::Value callee(const FunctionDecl* f)
  {
    json::Object o;
    o["id"] = fid(f);
    o["q"] = plainName(f);
    o["n"] = f->getNameAsString();
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = qname(m->getParent());
      recordInfo(m->getParent());
      if (m->isVirtual()) o["virtual"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->getParent()->isLambda()) o["lambda"] = id(m->getParent());
    }
    o["ret"] = type(f->getReturnType());
    json::Array a;
    for (auto* p : f->parameters()) a.push_back(type(p->getType()));
    o["params"] = std::move(a);
    if (auto* sp = f->getTemplateSpecializationArgs())
    {
      json::Array ta;
      targs(sp->asArray(), ta);
      o["targs"] = std::move(ta);
    }
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isDeleted()) o["deleted"] = true;
    if (f->isNoReturn()) o["noreturn"] = true;
    if (auto* p = f->getType()->getAs<FunctionProtoType>())
      if (p->isNothrow()) o["noexcept"] = true;
    want(f);
    return o;
  }
  template <class R> json::Array args(R&& r)
  {
    json::Array a;
    for (auto* x : r) a.push_back(expr(x));
    return a;
  }
  json::Value expr(const Expr* e)
  {
    if (!e) return nullptr;
    // transparent nodes
    if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
    {
      auto o = node("Temp", e);
      o["t"] = type(x->getType());
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<IntegerLiteral>(e))
    {
      auto o = node("Int", e);
      o["t"] = type(x->getType());
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e))
    {
      auto o = node("Int", e);
      o["t"] = type(x->getType());
      o["v"] = std::to_string(x->getValue());
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e))
    {
      auto o = node("Bool", e);
      o["t"] = type(x->getType());
      o["v"] = x->getValue();
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e))
    {
      auto o = node("Float", e);
      o["t"] = type(x->getType());
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      o["v"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<clang::StringLiteral>(e))
    {
      auto o = node("Str", e);
      o["t"] = type(x->getType());
      std::string s = x->getBytes().str();
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s;
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
    {
      auto o = node("Null", e);
      o["t"] = type(e->getType());
      return o;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e))
    {
      auto* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d))
      {
        auto o = node("Enum", e);
        o["t"] = type(x->getType());
        o["v"] = (int64_t)ec->getInitVal().getExtValue();
        o["n"] = ec->getNameAsString();
        return o;
      }
      if (auto* f = dyn_cast<FunctionDecl>(d))
      {
        auto o = node("Fun", e);
        o["t"] = type(x->getType());
        o["f"] = callee(f);
        return o;
      }
      if (auto* b = dyn_cast<BindingDecl>(d))
      {
        auto o = node("Var", e);
        o["t"] = type(x->getType());
        o["id"] = id(b);
        o["n"] = b->getNameAsString();
        o["binding"] = true;
        return o;
      }
      auto o = node("Var", e);
      o["t"] = type(x->getType());
      o["n"] = d->getNameAsString();
      if (auto* v = dyn_cast<VarDecl>(d))
      {
        o["id"] = id(v);
        if (v->hasGlobalStorage() && !v->isStaticLocal())
        {
          o["k"] = "Global";
          o["q"] = qname(v);
          globalVar(v);
        }
        else o["dt"] = type(v->getType());
      }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e))
    {
      auto* d = x->getMemberDecl();
      if (auto* f = dyn_cast<FieldDecl>(d))
      {
        auto o = node("Member", e);
        o["t"] = type(x->getType());
        o["base"] = expr(x->getBase());
        o["arrow"] = x->isArrow();
        o["f"] = f->getNameAsString();
        o["ft"] = type(f->getType());
        o["cls"] = qname(f->getParent());
        return o;
      }
      if (auto* v = dyn_cast<VarDecl>(d))
      {
        auto o = node("Global", e);
        o["t"] = type(x->getType());
        o["q"] = qname(v);
        o["n"] = v->getNameAsString();
        globalVar(v);
        return o;
      }
      if (auto* f = dyn_cast<FunctionDecl>(d))
      {
        auto o = node("MFun", e);
        o["base"] = expr(x->getBase());
        o["arrow"] = x->isArrow();
        o["f"] = callee(f);
        return o;
      }
    }
    if (auto* x = dyn_cast<CXXThisExpr>(e))
    {
      auto o = node("This", e);
      o["t"] = type(x->getType());
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
    {
      auto* callee_e = x->getCallee()->IgnoreParens();
      if (auto* me = dyn_cast<MemberExpr>(callee_e))
      {
        auto o = node("MCall", e);
        o["t"] = type(x->getType());
        o["vk"] = (int)x->getValueKind();
        o["obj"] = expr(me->getBase());
        o["arrow"] = me->isArrow();
        o["f"] = callee(x->getMethodDecl());
        o["direct"] = me->hasQualifier();
        o["args"] = args(x->arguments());
        return o;
      }
      auto o = node("PtrMCall", e);
      o["t"] = type(x->getType());
      if (auto* bo = dyn_cast<BinaryOperator>(callee_e))
      {
        o["obj"] = expr(bo->getLHS());
        o["arrow"] = bo->getOpcode() == BO_PtrMemI;
        o["fp"] = expr(bo->getRHS());
      }
      o["args"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
    {
      auto o = node("OpCall", e);
      o["t"] = type(x->getType());
      o["op"] = getOperatorSpelling(x->getOperator());
      if (x->getDirectCallee()) o["f"] = callee(x->getDirectCallee());
      o["args"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e))
    {
      auto o = node("Call", e);
      o["t"] = type(x->getType());
      if (auto* f = x->getDirectCallee()) o["f"] = callee(f);
      else o["fe"] = expr(x->getCallee());
      o["args"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
    {
      auto o = node("Unsupported", e);
      o["what"] = "CXXInheritedCtorInitExpr";
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e))
    {
      auto o = node("Construct", e);
      o["t"] = type(x->getType());
      o["f"] = callee(x->getConstructor());
      auto* c = x->getConstructor();
      o["ck"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
      o["il"] = x->isStdInitListInitialization();
      o["list"] = x->isListInitialization();
      o["args"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CastExpr>(e))
    {
      auto ck = x->getCastKind();
      if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr)
        return expr(x->getSubExpr());
      auto o = node("Cast", e);
      o["t"] = type(x->getType());
      o["ck"] = x->getCastKindName();
      o["expl"] = isa<ExplicitCastExpr>(x);
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e))
    {
      auto o = node("Unary", e);
      o["t"] = type(x->getType());
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e))
    {
      auto o = node("CAssign", e);
      o["t"] = type(x->getType());
      o["ct"] = type(x->getComputationResultType());
      o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e))
    {
      auto o = node("Binary", e);
      o["t"] = type(x->getType());
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e))
    {
      auto o = node("Cond", e);
      o["t"] = type(x->getType());
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
    {
      auto o = node("Index", e);
      o["t"] = type(x->getType());
      o["a"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e))
    {
      auto o = node("New", e);
      o["t"] = type(x->getType());
      o["at"] = type(x->getAllocatedType());
      if (x->isArray()) o["array"] = true;
      o["init"] = expr(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e))
    {
      auto o = node("Delete", e);
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e))
    {
      auto o = node("Throw", e);
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e))
    {
      auto o = node("Lambda", e);
      o["t"] = type(x->getType());
      o["cls"] = id(x->getLambdaClass());
      o["clsname"] = qname(x->getLambdaClass());
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto& c : x->captures())
      {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable())
        {
          auto* v = c.getCapturedVar();
          co["id"] = id(v);
          co["n"] = v->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          co["t"] = type(v->getType());
          if (*ii) co["init"] = expr(*ii);
        }
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["generic"] = x->isGenericLambda();
      auto* op = x->getCallOperator();
      if (!x->isGenericLambda())
      {
        o["op"] = func(op);
      }
      else
      {
        // every instantiation of the generic call operator
        json::Array insts;
        if (auto* t = x->getDependentCallOperator())
          for (auto* s : t->specializations())
            if (s->hasBody()) insts.push_back(func(s));
        o["ops"] = std::move(insts);
      }
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e))
    {
      auto o = node("InitList", e);
      if (auto* s = x->getSemanticForm()) x = s;
      o["t"] = type(x->getType());
      o["args"] = args(x->inits());
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e))
    {
      auto o = node("Zero", e);
      o["t"] = type(e->getType());
      return o;
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
    {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C))
      {
        auto o = node("Int", e);
        o["t"] = type(x->getType());
        o["v"] = std::to_string(r.Val.getInt().getExtValue());
        return o;
      }
    }
    if (auto* x = dyn_cast<SizeOfPackExpr>(e))
      if (!x->isValueDependent())
      {
        auto o = node("Int", e);
        o["t"] = type(x->getType());
        o["v"] = std::to_string(x->getPackLength());
        return o;
      }
    auto o = node("Unsupported", e);
    o["what"] = e->getStmtClassName();
    return o;
  }
  void globalVar(const VarDecl* v)
  {
    auto n = qname(v);
    if (globals.get(n)) return;
    globals[n] = nullptr;
    json::Object o;
    o["t"] = type(v->getType());
    const VarDecl* def = nullptr;
    if (auto* i = v->getAnyInitializer(def))
      if (wanted(def->getLocation()) && !i->isValueDependent()) o["init"] = expr(i);
    globals[n] = std::move(o);
  }
  json::Value stmt(const Stmt* s)
  {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s))
    {
      auto o = node("Expr", s);
      o["e"] = expr(e);
      return o;
    }
    if (auto* x = dyn_cast<CompoundStmt>(s))
    {
      auto o = node("Block", s);
      json::Array a;
      for (auto* y : x->body()) a.push_back(stmt(y));
      o["b"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s))
    {
      auto o = node("Decl", s);
      json::Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["d"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s))
    {
      auto o = node("If", s);
      if (x->isConstexpr()) o["constexpr"] = true;
      o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s))
    {
      auto o = node("For", s);
      o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s))
    {
      auto o = node("RFor", s);
      o["range"] = expr(x->getRangeInit());
      o["rt"] = type(x->getRangeInit()->getType());
      o["var"] = var(x->getLoopVariable());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s))
    {
      auto o = node("While", s);
      if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s))
    {
      auto o = node("Do", s);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s))
    {
      auto o = node("Switch", s);
      o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s))
    {
      auto o = node("Case", s);
      Expr::EvalResult r;
      if (x->getLHS()->EvaluateAsInt(r, C)) o["v"] = (int64_t)r.Val.getInt().getExtValue();
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s))
    {
      auto o = node("Default", s);
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(s)) return node("Break", s);
    if (isa<ContinueStmt>(s)) return node("Continue", s);
    if (isa<NullStmt>(s)) return node("Nop", s);
    if (auto* x = dyn_cast<ReturnStmt>(s))
    {
      auto o = node("Return", s);
      o["e"] = expr(x->getRetValue());
      return o;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s))
    {
      auto o = node("Try", s);
      o["b"] = stmt(x->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i)
      {
        auto* c = x->getHandler(i);
        json::Object ho;
        if (c->getExceptionDecl()) ho["var"] = var(c->getExceptionDecl());
        if (!c->getCaughtType().isNull()) ho["t"] = type(c->getCaughtType());
        ho["b"] = stmt(c->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    auto o = node("Unsupported", s);
    o["what"] = s->getStmtClassName();
    return o;
  }
  json::Value func(const FunctionDecl* f)
  {
    json::Object o;
    o["id"] = fid(f);
    o["q"] = plainName(f);
    o["n"] = f->getNameAsString();
    o["file"] = file(f->getLocation());
    o["line"] = line(f->getLocation());
    o["end"] = line(f->getEndLoc());
    o["ret"] = type(f->getReturnType());
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(var(p));
    o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = qname(m->getParent());
      recordInfo(m->getParent());
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isVirtual()) o["virtual"] = true;
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
      o["overrides"] = std::move(ov);
    }
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isDeleted()) o["deleted"] = true;
    if (auto* c = dyn_cast<CXXConstructorDecl>(f))
    {
      o["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
      json::Array is;
      for (auto* i : c->inits())
      {
        json::Object io;
        if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = i->isWritten();
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    if (f->hasBody()) o["body"] = stmt(f->getBody());
    return o;
  }
  void run()
  {
    while (!queue.empty())
    {
      auto* f = queue.back();
      queue.pop_back();
      auto k = fid(f);
      if (!funcs.get(k)) funcs[k] = func(f);
    }
  }
};

struct V : RecursiveASTVisitor<V>
{
  Ex& X;
  V(Ex& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f)
  {
    if (!f->isThisDeclarationADefinition() && !f->isDefaulted()) return true;
    if (f->isDependentContext()) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (!X.wanted(f->getLocation())) return true;
    if (X.queued.insert(f->getCanonicalDecl()).second) X.queue.push_back(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r)
  {
    if (r->isThisDeclarationADefinition() && !r->isDependentContext() && !r->isLambda() && X.wanted(r->getLocation()))
      X.recordInfo(r);
    return true;
  }
  bool VisitVarDecl(VarDecl* v)
  {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && !v->getType()->isDependentType() &&
        !v->getDeclContext()->isDependentContext() && X.wanted(v->getLocation()))
      X.globalVar(v);
    return true;
  }
};

struct Cons : ASTConsumer
{
  CompilerInstance& CI;
  Cons(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override
  {
    Ex X(C);
    V v(X);
    v.TraverseDecl(C.getTranslationUnitDecl());
    X.run();
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    json::Object o;
    o["funcs"] = std::move(X.funcs);
    o["records"] = std::move(X.records);
    o["enums"] = std::move(X.enums);
    o["types"] = std::move(X.types);
    o["globals"] = std::move(X.globals);
    o["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    os << json::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Cons>(CI); }
};
struct Fac : tooling::FrontendActionFactory
{
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};

// usage: extract OUT SOURCE DIR[:DIR...] -- compiler flags
int main(int argc, const char** argv)
{
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  g_out = argv[1];
  std::string src = argv[2], dirs = argv[3];
  for (size_t p = 0; p <= dirs.size();)
  {
    auto q = dirs.find(':', p);
    if (q == std::string::npos) q = dirs.size();
    if (q > p) g_dirs.push_back(dirs.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  Fac fac;
  return tool.run(&fac);
}
