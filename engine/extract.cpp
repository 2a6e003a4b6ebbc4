// Exports the resolved (type-checked) program of one translation unit as JSON.
//
// usage: extract OUT.json ROOT[:ROOT...] FILE.cpp -- clang-args...
//
// Every function with a body that lies under one of the ROOTs is exported
// (template instantiations and lambdas included), together with the records
// they use. Nothing is executed; this is clang's semantic AST, made compact.
#include "clang/AST/RecordLayout.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/Builtins.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut, gTU;

namespace {

struct Exporter {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl*, int> ids;
  std::map<std::string, int> typeIds;
  std::vector<std::string> types;
  json::Array functions;
  json::Object records;
  json::Array globals;
  std::set<std::string> doneFns;
  std::set<const CXXRecordDecl*> doneRecs;
  std::map<std::string, int> fileIds;
  std::vector<std::string> files;
  std::vector<const FunctionDecl*> fnStack;

  explicit Exporter(ASTContext& c)
      : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.AnonymousTagLocations = true;
    PP.Bool = true;
    MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics()));
  }

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[d] = n;
    return n;
  }
  int type(QualType t) {
    if (t.isNull()) return -1;
    std::string s = t.getCanonicalType().getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int n = (int)types.size();
    typeIds[s] = n;
    types.push_back(s);
    noteRecord(t);
    return n;
  }
  void noteRecord(QualType t) {
    t = t.getCanonicalType();
    while (true) {
      if (t->isPointerType() || t->isReferenceType()) {
        t = t->getPointeeType();
        continue;
      }
      if (auto* at = C.getAsArrayType(t)) {
        t = at->getElementType();
        continue;
      }
      break;
    }
    if (auto* rd = t->getAsCXXRecordDecl()) record(rd);
  }
  std::string path(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
    if (!fe) return "";
    llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
    return rp.empty() ? fe->getName().str() : rp.str();
  }
  bool inRoots(SourceLocation l) {
    std::string p = path(l);
    for (auto& r : gRoots)
      if (p.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  json::Value pos(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return nullptr;
    std::string p = path(l);
    auto it = fileIds.find(p);
    int fid;
    if (it == fileIds.end()) {
      fid = (int)files.size();
      fileIds[p] = fid;
      files.push_back(p);
    } else
      fid = it->second;
    return json::Array{fid, (int64_t)SM.getExpansionLineNumber(l),
                       (int64_t)SM.getExpansionColumnNumber(l)};
  }
  std::string posStr(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    std::ostringstream os;
    std::string p = path(l);
    auto sl = p.rfind('/');
    os << (sl == std::string::npos ? p : p.substr(sl + 1)) << ":"
       << SM.getExpansionLineNumber(l) << ":" << SM.getExpansionColumnNumber(l);
    return os.str();
  }
  std::string qual(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    return os.str();
  }
  bool internal(const NamedDecl* d) {
    return !isExternallyVisible(d->getLinkageInternal());
  }
  std::string mangle(const FunctionDecl* f) {
    std::string s;
    llvm::raw_string_ostream os(s);
    GlobalDecl gd;
    if (auto* c = dyn_cast<CXXConstructorDecl>(f))
      gd = GlobalDecl(c, Ctor_Complete);
    else if (auto* d = dyn_cast<CXXDestructorDecl>(f))
      gd = GlobalDecl(d, Dtor_Complete);
    else
      gd = GlobalDecl(f);
    if (f->isTemplated() || f->isDependentContext()) return "dep:" + qual(f);
    if (MC->shouldMangleDeclName(f))
      MC->mangleName(gd, os);
    else
      os << f->getNameAsString();
    return os.str();
  }
  std::string lambdaKey(const CXXRecordDecl* rd) {
    std::string enc;
    const DeclContext* dc = rd->getDeclContext();
    while (dc) {
      if (auto* f = dyn_cast<FunctionDecl>(dc)) {
        enc = fnKey(f);
        break;
      }
      dc = dc->getParent();
    }
    return "L:" + posStr(rd->getBeginLoc()) + "@" + enc;
  }
  std::string fnKey(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) {
        if (m->getOverloadedOperator() == OO_Call)
          return lambdaKey(m->getParent());
        return "LM:" + m->getNameAsString() + lambdaKey(m->getParent());
      }
    std::string s = mangle(f);
    if (internal(f)) s += "@" + gTU;
    return s;
  }
  // Record key: the printed type.
  std::string recKey(const CXXRecordDecl* rd) {
    return C.getRecordType(rd).getCanonicalType().getAsString(PP);
  }

  void record(const CXXRecordDecl* rd) {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentContext() || rd->isInvalidDecl()) return;
    if (!doneRecs.insert(rd).second) return;
    json::Object o;
    o["q"] = qual(rd);
    o["p"] = pos(rd->getLocation());
    o["in"] = inRoots(rd->getLocation());
    o["lambda"] = rd->isLambda();
    o["union"] = rd->isUnion();
    o["poly"] = rd->isPolymorphic();
    o["abs"] = rd->isAbstract();
    o["int"] = internal(rd);
    if (rd->isLambda()) {
      o["callop"] = fnKey(rd->getLambdaCallOperator());
    }
    json::Array bases;
    bool full = inRoots(rd->getLocation());
    for (auto& b : rd->bases()) {
      if (auto* br = b.getType()->getAsCXXRecordDecl()) {
        json::Object bo{{"k", recKey(br)}, {"virt", b.isVirtual()}};
        if (!b.isVirtual() && br->getDefinition())
          bo["off"] = (int64_t)C.getASTRecordLayout(rd).getBaseClassOffset(br->getDefinition()).getQuantity();
        bases.push_back(std::move(bo));
        record(br);
      }
    }
    o["bases"] = std::move(bases);
    json::Array fields;
    const ASTRecordLayout* lay = nullptr;
    if (full && !rd->isLambda()) {
      lay = &C.getASTRecordLayout(rd);
      o["size"] = (int64_t)lay->getSize().getQuantity();
      o["align"] = (int64_t)lay->getAlignment().getQuantity();
    }
    if (full && !rd->isLambda())
      for (auto* f : rd->fields()) {
        json::Object fo;
        fo["off"] = (int64_t)(lay->getFieldOffset(f->getFieldIndex()) / 8);
        if (!f->getType()->isReferenceType() && !f->getType()->isIncompleteType())
          fo["sz"] = (int64_t)C.getTypeSizeInChars(f->getType()).getQuantity();
        fo["n"] = f->getNameAsString();
        fo["t"] = type(f->getType());
        fo["c"] = f->getType().isConstQualified();
        fo["mut"] = f->isMutable();
        fo["acc"] = (int)f->getAccess();
        fo["p"] = pos(f->getLocation());
        if (auto* e = f->getInClassInitializer()) fo["init"] = expr(e);
        fields.push_back(std::move(fo));
      }
    o["fields"] = std::move(fields);
    json::Array methods;
    if (full && !rd->isLambda())
      for (auto* m : rd->methods()) {
        if (m->isTemplated()) continue;
        json::Object mo;
        mo["key"] = fnKey(m);
        mo["n"] = m->getNameAsString();
        mo["kind"] = fkind(m);
        mo["virt"] = m->isVirtual();
        mo["pure"] = m->isPureVirtual();
        mo["del"] = m->isDeleted();
        mo["def"] = m->isDefaulted();
        mo["impl"] = m->isImplicit();
        mo["acc"] = (int)m->getAccess();
        mo["copy"] = isCopyMove(m);
        json::Array ov;
        for (auto* x : m->overridden_methods()) ov.push_back(fnKey(x));
        mo["ov"] = std::move(ov);
        json::Array ps;
        for (auto* p : m->parameters()) ps.push_back(type(p->getType()));
        mo["pt"] = std::move(ps);
        methods.push_back(std::move(mo));
      }
    o["methods"] = std::move(methods);
    if (auto* d = rd->getDestructor()) {
      o["dtor"] = fnKey(d);
      o["dtordef"] = d->isDefaulted() || d->isImplicit();
    }
    o["trivdtor"] = rd->hasTrivialDestructor();
    records[recKey(rd)] = std::move(o);
  }
  std::string isCopyMove(const CXXMethodDecl* m) {
    if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
      if (c->isCopyConstructor()) return "copy";
      if (c->isMoveConstructor()) return "move";
      if (c->isDefaultConstructor()) return "default";
      return "";
    }
    if (m->isCopyAssignmentOperator()) return "copy=";
    if (m->isMoveAssignmentOperator()) return "move=";
    return "";
  }
  std::string fkind(const FunctionDecl* f) {
    if (isa<CXXConstructorDecl>(f)) return "ctor";
    if (isa<CXXDestructorDecl>(f)) return "dtor";
    if (isa<CXXConversionDecl>(f)) return "conv";
    if (isa<CXXMethodDecl>(f)) return "method";
    return "fn";
  }

  // Callee description.
  json::Value callee(const FunctionDecl* f) {
    json::Object o;
    o["key"] = fnKey(f);
    o["q"] = qual(f);
    o["kind"] = fkind(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = recKey(m->getParent());
      record(m->getParent());
      o["static"] = m->isStatic();
      o["virt"] = m->isVirtual();
      o["const"] = m->isConst();
      o["cm"] = isCopyMove(m);
      if (m->isDefaulted() || m->isImplicit()) o["def"] = true;
    }
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    o["var"] = f->isVariadic();
    if (f->isNoReturn()) o["noret"] = true;
    if (inRoots(f->getLocation())) o["in"] = true;
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& x : ta->asArray())
        if (x.getKind() == TemplateArgument::Type) a.push_back(type(x.getAsType()));
        else if (x.getKind() == TemplateArgument::Pack) {
          for (auto& y : x.pack_elements())
            if (y.getKind() == TemplateArgument::Type) a.push_back(type(y.getAsType()));
        }
      o["targs"] = std::move(a);
    }
    return o;
  }

  json::Array exprs(llvm::ArrayRef<const Expr*> a) {
    json::Array r;
    for (auto* e : a) r.push_back(expr(e));
    return r;
  }

  json::Value expr(const Expr* e) {
    if (!e) return nullptr;
    json::Object o = expr0(e);
    return o;
  }
  void base(json::Object& o, const Expr* e, const char* k) {
    o["k"] = k;
    o["t"] = type(e->getType());
    o["p"] = pos(e->getExprLoc());
    if (e->isGLValue()) o["lv"] = e->isXValue() ? 2 : 1;
  }
  void constval(json::Object& o, const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    if (e->isGLValue()) return;
    if (!e->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, C) && !r.HasSideEffects) {
      llvm::SmallString<32> s;
      r.Val.getInt().toString(s, 10);
      o["cv"] = s.str().str();
    }
  }

  json::Object expr0(const Expr* e) {
    // transparent nodes
    if (auto* x = dyn_cast<ParenExpr>(e)) return expr0(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return expr0(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
      return expr0(x->getReplacement());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
      return expr0(x->getSemanticForm());
    if (auto* x = dyn_cast<GenericSelectionExpr>(e))
      return expr0(x->getResultExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e))
      if (x->getSourceExpr()) return expr0(x->getSourceExpr());
    json::Object o;
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) {
      base(o, e, "full");
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      base(o, e, "mat");
      o["e"] = expr(x->getSubExpr());
      if (x->getExtendingDecl()) o["ext"] = id(x->getExtendingDecl());
      return o;
    }
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) {
      base(o, e, "bind");
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      base(o, e, "int");
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      base(o, e, "int");
      o["v"] = std::to_string((int)x->getValue());
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      base(o, e, "int");
      o["v"] = x->getValue() ? "1" : "0";
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      base(o, e, "float");
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      o["v"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      base(o, e, "str");
      json::Array b;
      std::string hex;
      for (unsigned char c : x->getBytes()) {
        char t[3];
        snprintf(t, 3, "%02x", c);
        hex += t;
      }
      o["v"] = hex;
      return o;
    }
    if (isa<PredefinedExpr>(e)) {
      base(o, e, "str");
      o["v"] = "";
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      base(o, e, "null");
      return o;
    }
    if (isa<CXXThisExpr>(e)) {
      base(o, e, "this");
      return o;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      base(o, e, "ref");
      o["n"] = d->getNameAsString();
      o["d"] = id(d);
      o["dt"] = type(d->getType());
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "fn";
        o["fn"] = callee(f);
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum";
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["cv"] = s.str().str();
        o["q"] = qual(ec);
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(v)) o["dk"] = "parm";
        else if (v->isStaticLocal()) o["dk"] = "static";
        else if (v->hasGlobalStorage()) {
          o["dk"] = "global";
          o["q"] = qual(v);
          if (inRoots(v->getLocation())) global(v);
        } else
          o["dk"] = "var";
        if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        if (v->getType().isConstQualified() || v->isConstexpr()) {
          if (e->getType()->isIntegralOrEnumerationType()) {
            if (auto* val = v->evaluateValue())
              if (val->isInt()) {
                llvm::SmallString<32> s;
                val->getInt().toString(s, 10);
                o["cval"] = s.str().str();
              }
          }
        }
      } else
        o["dk"] = d->getDeclKindName();
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      base(o, e, "mem");
      o["n"] = d->getNameAsString();
      o["arrow"] = x->isArrow();
      o["b"] = expr(x->getBase());
      if (auto* f = dyn_cast<FieldDecl>(d)) {
        o["dk"] = "field";
        if (auto* rd = dyn_cast<CXXRecordDecl>(f->getParent()))
          o["rec"] = recKey(rd);
        o["dt"] = type(f->getType());
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "fn";
        o["fn"] = callee(f);
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        o["dk"] = "global";
        o["q"] = qual(v);
        o["d"] = id(v);
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum";
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["cv"] = s.str().str();
      }
      return o;
    }
    if (auto* x = dyn_cast<ImplicitCastExpr>(e)) return cast(x, true);
    if (auto* x = dyn_cast<CastExpr>(e)) return cast(x, false);
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      base(o, e, "call");
      o["op"] = getOperatorSpelling(x->getOperator());
      auto* f = x->getDirectCallee();
      if (f) o["fn"] = callee(f);
      json::Array args;
      unsigned i = 0;
      if (f && isa<CXXMethodDecl>(f) && !cast_or_null<CXXMethodDecl>(f)->isStatic()) {
        o["obj"] = expr(x->getArg(0));
        i = 1;
      }
      for (; i < x->getNumArgs(); i++) args.push_back(expr(x->getArg(i)));
      o["args"] = std::move(args);
      o["p"] = pos(x->getBeginLoc());
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      base(o, e, "call");
      if (auto* m = x->getMethodDecl()) {
        o["fn"] = callee(m);
        auto* obj = x->getImplicitObjectArgument();
        o["obj"] = expr(obj);
        if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
          o["arrow"] = me->isArrow();
          if (me->hasQualifier()) o["nonvirt"] = true;
        }
      } else {
        o["callee"] = expr(x->getCallee());
      }
      o["args"] = exprs(llvm::ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      base(o, e, "call");
      if (auto* f = x->getDirectCallee()) {
        o["fn"] = callee(f);
        if (unsigned b = f->getBuiltinID()) o["bi"] = C.BuiltinInfo.getName(b);
      } else
        o["callee"] = expr(x->getCallee());
      o["args"] = exprs(llvm::ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
      constval(o, e);
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      base(o, e, "ctor");
      o["fn"] = callee(x->getConstructor());
      if (x->isElidable()) o["elid"] = true;
      if (x->isListInitialization()) o["list"] = true;
      if (x->isStdInitListInitialization()) o["sil"] = true;
      if (isa<CXXTemporaryObjectExpr>(x)) o["tempobj"] = true;
      if (x->requiresZeroInitialization()) o["zero"] = true;
      o["args"] = exprs(llvm::ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      base(o, e, "ctor");
      o["fn"] = callee(x->getConstructor());
      o["args"] = json::Array{};
      return o;
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      base(o, e, "int");
      Expr::EvalResult r;
      if (x->getKind() == UETT_SizeOf) {
        o["sizeof"] = type(x->getTypeOfArgument());
      } else if (x->getKind() == UETT_AlignOf) {
        o["alignof"] = type(x->getTypeOfArgument());
      }
      if (e->EvaluateAsInt(r, C)) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
      } else
        o["v"] = "0";
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      base(o, e, "un");
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
      constval(o, e);
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      base(o, e, "bin");
      o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode());
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
      if (auto* ca = dyn_cast<CompoundAssignOperator>(x)) {
        o["ct"] = type(ca->getComputationResultType());
      }
      constval(o, e);
      return o;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      base(o, e, "cond");
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      constval(o, e);
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      base(o, e, "idx");
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      base(o, e, "new");
      o["at"] = type(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["arr"] = expr(*x->getArraySize());
      json::Array pl;
      for (unsigned i = 0; i < x->getNumPlacementArgs(); i++)
        pl.push_back(expr(x->getPlacementArg(i)));
      o["place"] = std::move(pl);
      if (x->getInitializer()) o["init"] = expr(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      base(o, e, "del");
      o["arr"] = x->isArrayForm();
      o["e"] = expr(x->getArgument());
      o["dty"] = type(x->getDestroyedType());
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      base(o, e, "lambda");
      auto* rd = x->getLambdaClass();
      record(rd);
      o["key"] = fnKey(x->getCallOperator());
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
        } else if (c.capturesVariable()) {
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["d"] = id(c.getCapturedVar());
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          co["init"] = expr(*ii);
        }
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      function(x->getCallOperator());
      return o;
    }
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      base(o, e, "silist");
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isTransparent() && x->getNumInits() == 1) return expr0(x->getInit(0));
      base(o, e, "init");
      json::Array el;
      for (unsigned i = 0; i < x->getNumInits(); i++) el.push_back(expr(x->getInit(i)));
      o["elts"] = std::move(el);
      return o;
    }
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
      base(o, e, "defarg");
      o["e"] = expr(x->getExpr());
      return o;
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
      base(o, e, "defarg");
      o["e"] = expr(x->getExpr());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      base(o, e, "zero");
      return o;
    }
    if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) {
      base(o, e, "pseudodtor");
      o["e"] = expr(x->getBase());
      return o;
    }
    if (auto* x = dyn_cast<TypeTraitExpr>(e)) {
      base(o, e, "int");
      o["v"] = (!x->isValueDependent() && x->getValue()) ? "1" : "0";
      return o;
    }
    if (auto* x = dyn_cast<VAArgExpr>(e)) {
      base(o, e, "vaarg");
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      base(o, e, "throw");
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<StmtExpr>(e)) {
      base(o, e, "stmtexpr");
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    base(o, e, "unk");
    o["cls"] = e->getStmtClassName();
    json::Array ch;
    for (auto* c : e->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
    o["ch"] = std::move(ch);
    return o;
  }

  json::Object cast(const CastExpr* x, bool implicit) {
    switch (x->getCastKind()) {
      case CK_NoOp:
      case CK_FunctionToPointerDecay:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_BuiltinFnToFnPtr:
        return expr0(x->getSubExpr());
      default:
        break;
    }
    json::Object o;
    base(o, x, "cast");
    o["ck"] = x->getCastKindName();
    if (!implicit) o["ex"] = true;
    o["from"] = type(x->getSubExpr()->getType());
    if (x->getCastKind() == CK_DerivedToBase ||
        x->getCastKind() == CK_UncheckedDerivedToBase) {
      QualType t = x->getSubExpr()->getType();
      if (t->isPointerType()) t = t->getPointeeType();
      auto* rd = t->getAsCXXRecordDecl();
      int64_t off = 0;
      for (auto* b : x->path()) {
        auto* br = b->getType()->getAsCXXRecordDecl();
        if (!rd || !br || b->isVirtual() || rd->isDependentContext()) { off = -1; break; }
        off += C.getASTRecordLayout(rd->getDefinition()).getBaseClassOffset(br->getDefinition()).getQuantity();
        rd = br;
      }
      if (off) o["boff"] = off;
    }
    o["e"] = expr(x->getSubExpr());
    constval(o, x);
    return o;
  }

  void global(const VarDecl* v) {
    v = v->getCanonicalDecl();
    static std::set<const VarDecl*> done;
    if (!done.insert(v).second) return;
    json::Object o;
    o["q"] = qual(v);
    o["d"] = id(v);
    o["t"] = type(v->getType());
    o["p"] = pos(v->getLocation());
    o["const"] = v->getType().isConstQualified() || v->isConstexpr();
    globals.push_back(std::move(o));
  }

  json::Value var(const VarDecl* v) {
    json::Object o;
    o["n"] = v->getNameAsString();
    o["d"] = id(v);
    o["t"] = type(v->getType());
    o["p"] = pos(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) {
      o["init"] = expr(v->getInit());
      o["style"] = (int)v->getInitStyle();
    }
    return o;
  }

  json::Array stmts(const Stmt* s) {
    json::Array r;
    if (auto* c = dyn_cast<CompoundStmt>(s)) {
      for (auto* x : c->body()) r.push_back(stmt(x));
    } else
      r.push_back(stmt(s));
    return r;
  }

  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    json::Object o;
    o["p"] = pos(s->getBeginLoc());
    if (auto* x = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = expr(x);
      return o;
    }
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      o["b"] = stmts(x);
      o["pe"] = pos(x->getRBracLoc());
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array vs;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) vs.push_back(var(v));
      o["vars"] = std::move(vs);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      if (x->getElse()) o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "loop";
      o["sub"] = "while";
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "loop";
      o["sub"] = "do";
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "loop";
      o["sub"] = "for";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      if (x->getCond()) o["c"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      o["range"] = stmt(x->getRangeStmt());
      o["rexpr"] = expr(x->getRangeInit());
      o["begin"] = stmt(x->getBeginStmt());
      o["end"] = stmt(x->getEndStmt());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["lv"] = stmt(x->getLoopVarStmt());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      if (x->getRetValue()) o["e"] = expr(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) {
      o["k"] = "break";
      return o;
    }
    if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
      return o;
    }
    if (isa<NullStmt>(s)) {
      o["k"] = "nop";
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = stmt(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto* h = x->getHandler(i);
        json::Object ho;
        if (h->getCaughtType().isNull()) ho["all"] = true;
        else ho["t"] = type(h->getCaughtType());
        if (h->getExceptionDecl()) ho["var"] = var(h->getExceptionDecl());
        ho["b"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "label";
      o["s"] = stmt(x->getSubStmt());
      o["n"] = x->getName();
      return o;
    }
    o["k"] = "unk";
    o["cls"] = s->getStmtClassName();
    return o;
  }

  void function(const FunctionDecl* f) {
    if (f->isTemplated() || f->isDependentContext()) return;
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def) || !def) return;
    if (f != def) f = def;
    if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return;
    if (f->isInvalidDecl()) return;
    std::string key = fnKey(f);
    if (!doneFns.insert(key).second) return;
    json::Object o;
    o["key"] = key;
    o["q"] = qual(f);
    o["n"] = f->getNameAsString();
    o["kind"] = fkind(f);
    o["p"] = pos(f->getLocation());
    o["pb"] = pos(f->getBeginLoc());
    o["pe"] = pos(f->getEndLoc());
    o["ret"] = type(f->getReturnType());
    o["var"] = f->isVariadic();
    o["int"] = internal(f);
    if (f->isDefaulted()) o["def"] = true;
    if (f->isImplicit()) o["impl"] = true;
    o["tmpl"] = f->isTemplateInstantiation();
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = recKey(m->getParent());
      o["static"] = m->isStatic();
      o["virt"] = m->isVirtual();
      o["const"] = m->isConst();
      o["acc"] = (int)m->getAccess();
      o["cm"] = isCopyMove(m);
      json::Array ov;
      for (auto* x : m->overridden_methods()) {
        ov.push_back(json::Object{{"key", fnKey(x)}, {"q", qual(x)}});
      }
      o["ov"] = std::move(ov);
      if (!m->getParent()->isLambda()) record(m->getParent());
    }
    json::Array ps;
    for (auto* p : f->parameters()) {
      json::Object po;
      po["n"] = p->getNameAsString();
      po["d"] = id(p);
      po["t"] = type(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array in;
      for (auto* i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) {
          io["f"] = i->getAnyMember()->getNameAsString();
          io["ft"] = type(i->getAnyMember()->getType());
        } else if (i->isBaseInitializer())
          io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer())
          io["deleg"] = true;
        io["w"] = i->isWritten();
        io["e"] = expr(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    fnStack.push_back(f);
    o["body"] = stmt(f->getBody());
    fnStack.pop_back();
    functions.push_back(std::move(o));
  }

  void write(bool ok) {
    json::Object root;
    root["tu"] = gTU;
    root["ok"] = ok;
    root["functions"] = std::move(functions);
    root["records"] = std::move(records);
    root["globals"] = std::move(globals);
    json::Array ts;
    for (auto& t : types) ts.push_back(t);
    root["types"] = std::move(ts);
    json::Array fs;
    for (auto& t : files) fs.push_back(t);
    root["files"] = std::move(fs);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(root));
  }
};

// Classes local to a function print without their scope, so two of the same
// name would be taken for one: give each a name of its own.
struct LocalNames : RecursiveASTVisitor<LocalNames> {
  Exporter& E;
  std::vector<std::pair<CXXRecordDecl*, std::string>> todo;
  explicit LocalNames(Exporter& e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
    if (rd->isLambda() || !rd->getIdentifier() || rd->isDependentContext())
      return true;
    auto* fd = dyn_cast_or_null<FunctionDecl>(rd->getParentFunctionOrMethod());
    if (!fd || !E.inRoots(rd->getLocation())) return true;
    std::string key = E.fnKey(fd);
    unsigned h = 2166136261u;
    for (unsigned char c : key) h = (h ^ c) * 16777619u;
    char buf[16];
    snprintf(buf, sizeof buf, "$%08x", h);
    todo.push_back({rd, rd->getName().str() + buf});
    return true;
  }
  void rename() {
    for (auto& t : todo) t.first->setDeclName(&E.C.Idents.get(t.second));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter& E;
  explicit Visitor(Exporter& e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (E.inRoots(f->getLocation())) E.function(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (E.inRoots(r->getLocation()) && r->isThisDeclarationADefinition())
      E.record(r);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() &&
        !isa<VarTemplateSpecializationDecl>(v) && !v->isTemplated() &&
        E.inRoots(v->getLocation()))
      E.global(v);
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance& CI;
  explicit Consumer(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override {
    bool ok = !CI.getDiagnostics().hasErrorOccurred();
    Exporter e(C);
    if (ok) {
      LocalNames n(e);
      n.TraverseDecl(C.getTranslationUnitDecl());
      n.rename();
      Visitor v(e);
      v.TraverseDecl(C.getTranslationUnitDecl());
    }
    e.write(ok);
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci,
                                                 StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};
}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  gOut = argv[1];
  std::stringstream ss(argv[2]);
  std::string r;
  while (std::getline(ss, r, ':')) gRoots.push_back(r);
  std::string file = argv[3];
  auto sl = file.rfind('/');
  gTU = sl == std::string::npos ? file : file.substr(sl + 1);
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
