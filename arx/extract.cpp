#include <cmath>
// arx: resolved-program extractor.
// Parses one translation unit with Clang's front end, forces instantiation of every member of every
// class template specialisation that belongs to the repository, and dumps the *resolved* program:
// functions (with their CFGs and expression tables), classes, enums and evaluated constant tables.
// Nothing is executed; the Python side runs dataflow over what is written here.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Sema/Template.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;   // path prefixes that count as repository code
static std::string gOut;

static int64_t i64(const llvm::APSInt& v) { return v.isRepresentableByInt64() ? v.getExtValue() : (int64_t)v.extOrTrunc(64).getZExtValue(); }
static bool startsWith(llvm::StringRef s, const std::string& p) { return s.substr(0, p.size()) == p; }

namespace {

class Dumper {
public:
  Dumper(ASTContext& c, Sema& s) : Ctx(c), S(s), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
    PP.SuppressInlineNamespace = true;
  }

  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto it = fileCache.find(SM.getFileID(L).getHashValue());
    if (it != fileCache.end()) return it->second;
    bool r = false;
    llvm::StringRef f = SM.getFilename(L);
    for (auto& p : gRoots) if (startsWith(f, p)) r = true;
    fileCache[SM.getFileID(L).getHashValue()] = r;
    return r;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return (SM.getFilename(L) + ":" + llvm::Twine(SM.getExpansionLineNumber(L))).str();
  }
  std::string usr(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = usrCache.find(D);
    if (it != usrCache.end()) return it->second;
    llvm::SmallString<128> buf;
    std::string r;
    if (!index::generateUSRForDecl(D, buf)) r = std::string(buf);
    else r = "?" + std::to_string((uintptr_t)D);
    usrCache[D] = r;
    return r;
  }
  // a field is told apart from one of the same name in a base class
  std::string fieldName(const FieldDecl* D) {
    std::string n = D->getNameAsString();
    auto* R = dyn_cast<CXXRecordDecl>(D->getParent());
    if (n.empty() || !R || !R->hasDefinition()) return n;
    R = R->getDefinition();
    bool hides = false;
    R->forallBases([&](const CXXRecordDecl* B) {
      if (auto* BD = B->getDefinition()) for (auto* f : BD->fields()) if (f->getDeclName() == D->getDeclName()) hides = true;
      return !hides; });
    return hides ? n + "@" + R->getNameAsString() : n;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    T = T.getCanonicalType();
    auto it = tyCache.find(T.getAsOpaquePtr());
    if (it != tyCache.end()) return it->second;
    std::string s = T.getAsString(PP);
    tyCache[T.getAsOpaquePtr()] = s;
    return s;
  }
  // record decl behind refs/pointers
  const CXXRecordDecl* rec(QualType T) {
    if (T.isNull()) return nullptr;
    T = T.getCanonicalType().getNonReferenceType();
    while (T->isPointerType()) T = T->getPointeeType().getCanonicalType();
    return T->getAsCXXRecordDecl();
  }

  void addType(json::Object& o, QualType T) {
    if (T.isNull()) return;
    o["ty"] = ty(T);
  }

  json::Value apv(const APValue& V, int depth = 0) {
    switch (V.getKind()) {
      case APValue::Int: { llvm::SmallString<32> s; V.getInt().toString(s, 10);
          if (V.getInt().isRepresentableByInt64()) return V.getInt().getExtValue();
          return std::string(s); }
      case APValue::Float: { double d = V.getFloat().convertToDouble(); if (d == 0 && std::signbit(d)) return std::string("-0.0"); if (d == d && d - d == 0) return d; return std::string(d != d ? "nan" : (d > 0 ? "inf" : "-inf")); }
      case APValue::Array: {
        json::Array a;
        unsigned n = V.getArraySize(), k = V.getArrayInitializedElts();
        for (unsigned i = 0; i < n && i < 70000; ++i) {
          if (i < k) a.push_back(apv(V.getArrayInitializedElt(i), depth + 1));
          else if (V.hasArrayFiller()) a.push_back(apv(V.getArrayFiller(), depth + 1));
        }
        return json::Object{{"arr", std::move(a)}};
      }
      case APValue::Struct: {
        json::Array a;
        for (unsigned i = 0; i < V.getStructNumBases(); ++i) a.push_back(apv(V.getStructBase(i), depth + 1));
        for (unsigned i = 0; i < V.getStructNumFields(); ++i) a.push_back(apv(V.getStructField(i), depth + 1));
        return json::Object{{"struct", std::move(a)}};
      }
      case APValue::LValue: {
        if (V.isNullPointer()) return json::Object{{"null", true}};
        auto B = V.getLValueBase();
        if (auto* VD = B.dyn_cast<const ValueDecl*>()) {
          if (auto* FD = dyn_cast<FunctionDecl>(VD)) return json::Object{{"fn", usr(FD)}, {"name", FD->getQualifiedNameAsString()}};
          return json::Object{{"addr", usr(VD)}, {"off", (int64_t)V.getLValueOffset().getQuantity()}};
        }
        if (auto* E = B.dyn_cast<const Expr*>()) {
          if (auto* SL = dyn_cast<StringLiteral>(E)) return json::Object{{"str", strLit(SL)}};
        }
        return json::Object{{"lv", true}};
      }
      default: return json::Object{{"unk", (int)V.getKind()}};
    }
  }
  json::Value strLit(const StringLiteral* SL) {
    json::Array a; bool ascii = true;
    for (unsigned i = 0; i < SL->getLength(); ++i) if (SL->getCodeUnit(i) >= 128) ascii = false;
    if (ascii) {
      std::string r; for (unsigned i = 0; i < SL->getLength(); ++i) r += (char)SL->getCodeUnit(i);
      return r;
    }
    for (unsigned i = 0; i < SL->getLength(); ++i) a.push_back((int64_t)SL->getCodeUnit(i));
    return std::move(a);
  }

  // ---- per function node table ----
  struct FnCtx {
    std::unordered_map<const Stmt*, int> ids;
    json::Object nodes;
    std::unordered_map<const Decl*, int> locals;
    int next = 0; const DeclContext* DC = nullptr;
  };

  static const Stmt* strip(const Stmt* s) {
    for (;;) {
      if (!s) return s;
      if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<FullExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
      else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) s = e->getExpr();
      else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
      else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
        if (e->getCastKind() == CK_NoOp || e->getCastKind() == CK_FunctionToPointerDecay ||
            e->getCastKind() == CK_ConstructorConversion || e->getCastKind() == CK_UserDefinedConversion) s = e->getSubExpr();
        else return s;
      }
      else return s;
    }
  }
  int localId(FnCtx& F, const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = F.locals.find(D);
    if (it != F.locals.end()) return it->second;
    int n = F.locals.size(); F.locals[D] = n; return n;
  }

  int node(FnCtx& F, const Stmt* s0) {
    const Stmt* s = strip(s0);
    if (!s) return -1;
    auto it = F.ids.find(s);
    if (it != F.ids.end()) return it->second;
    int id = F.next++;
    F.ids[s] = id;
    json::Object o = build(F, s);
    if (auto* E = dyn_cast<Expr>(s)) {
      addType(o, E->getType());
      if (E->isLValue()) o["lv"] = true;
      if (!E->isValueDependent() && (E->getType()->isIntegralOrEnumerationType())) {
        Expr::EvalResult R;
        if (E->isPRValue() && E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects) && !R.HasSideEffects) {
          auto& I = R.Val.getInt();
          if (I.isRepresentableByInt64()) o["cv"] = I.getExtValue(); else { llvm::SmallString<32> ss; I.toString(ss, 10); o["cvs"] = std::string(ss); }
        }
      } else if (!E->isValueDependent() && E->getType()->isRealFloatingType() && E->isPRValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects && R.Val.isFloat()) {
          double d = R.Val.getFloat().convertToDouble();
          if (d == 0 && std::signbit(d)) o["fv"] = "-0.0"; else if (d == d && d - d == 0) o["fv"] = d; else o["fv"] = (d != d ? "nan" : (d > 0 ? "inf" : "-inf"));
        }
      }
    }
    o["l"] = (int64_t)SM.getExpansionLineNumber(s->getBeginLoc());
    F.nodes[std::to_string(id)] = std::move(o);
    return id;
  }
  json::Value opNode(FnCtx& F, const Stmt* s) { return node(F, s); }

  json::Object declRef(FnCtx& F, const ValueDecl* D) {
    json::Object o;
    if (auto* FD = dyn_cast<FunctionDecl>(D)) {
      o["k"] = "fref"; o["fn"] = usr(FD); o["name"] = FD->getQualifiedNameAsString(); note(FD);
    } else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
      o["k"] = "econst"; o["name"] = EC->getQualifiedNameAsString(); o["cv"] = i64(EC->getInitVal());
    } else if (auto* PD = dyn_cast<ParmVarDecl>(D)) {
      o["k"] = "ref"; o["dk"] = "local"; o["d"] = localId(F, PD); o["name"] = PD->getNameAsString();
      if (PD->getType()->isReferenceType()) o["isref"] = true;
      outer(F, o, PD);
    } else if (auto* VD = dyn_cast<VarDecl>(D)) {
      o["k"] = "ref";
      if (VD->hasGlobalStorage()) { o["dk"] = "global"; o["d"] = usr(VD); o["name"] = VD->getQualifiedNameAsString(); noteVar(VD); }
      else { o["dk"] = "local"; o["d"] = localId(F, VD); o["name"] = VD->getNameAsString(); outer(F, o, VD); }
      if (VD->getType()->isReferenceType()) o["isref"] = true;
    } else {
      o["k"] = "ref"; o["dk"] = "other"; o["name"] = D->getNameAsString();
      if (isa<BindingDecl>(D)) { o["dk"] = "local"; o["d"] = localId(F, D); }
    }
    return o;
  }

  void callee(json::Object& o, const FunctionDecl* FD) {
    o["fn"] = usr(FD); o["name"] = FD->getQualifiedNameAsString(); o["short"] = FD->getNameAsString();
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = usr(M->getParent());
      o["clsn"] = M->getParent()->getQualifiedNameAsString();
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
    }
    if (FD->isNoReturn()) o["noret"] = true;
    note(FD);
  }

  json::Object build(FnCtx& F, const Stmt* s) {
    json::Object o;
    auto list = [&](auto range) { json::Array a; for (auto* x : range) a.push_back(node(F, x)); return a; };
    if (auto* E = dyn_cast<IntegerLiteral>(s)) { o["k"] = "const"; (void)E; return o; }
    if (isa<CharacterLiteral>(s)) { o["k"] = "const"; return o; }
    if (isa<CXXBoolLiteralExpr>(s)) { o["k"] = "const"; return o; }
    if (isa<FloatingLiteral>(s)) { o["k"] = "const"; return o; }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { o["k"] = "const"; o["cv"] = 0; return o; }
    if (auto* E = dyn_cast<StringLiteral>(s)) { o["k"] = "str"; o["v"] = strLit(E); return o; }
    if (auto* E = dyn_cast<DeclRefExpr>(s)) return declRef(F, E->getDecl());
    if (isa<CXXThisExpr>(s)) { o["k"] = "this"; return o; }
    if (auto* E = dyn_cast<MemberExpr>(s)) {
      auto* D = E->getMemberDecl();
      if (auto* FD = dyn_cast<FieldDecl>(D)) {
        o["k"] = "member"; o["base"] = node(F, E->getBase()); o["arrow"] = E->isArrow();
        o["f"] = fieldName(FD); o["fc"] = usr(FD->getParent());
        if (FD->getType()->isReferenceType()) o["isref"] = true;
      } else if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
        o["k"] = "mref"; o["base"] = node(F, E->getBase()); callee(o, M);
        if (M->isVirtual() && !E->hasQualifier()) o["virt"] = true;
      } else { // static data member / enumerator
        o = declRef(F, D); o["base"] = node(F, E->getBase());
      }
      return o;
    }
    if (auto* E = dyn_cast<CXXDynamicCastExpr>(s)) { o["k"] = "dyncast"; o["sub"] = node(F, E->getSubExpr()); if (auto* R = rec(E->getType())) o["rec"] = usr(R); return o; }
    if (auto* E = dyn_cast<CastExpr>(s)) {
      o["k"] = "cast"; o["ck"] = E->getCastKindName(); o["sub"] = node(F, E->getSubExpr());
      if (!isa<ImplicitCastExpr>(s)) o["expl"] = true;
      if (isa<CXXReinterpretCastExpr>(s)) o["reint"] = true;
      if (auto* R = rec(E->getType())) o["rec"] = usr(R);
      return o;
    }
    if (auto* E = dyn_cast<UnaryOperator>(s)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str() + (E->isPostfix() ? "p" : ""); o["sub"] = node(F, E->getSubExpr()); return o; }
    if (auto* E = dyn_cast<BinaryOperator>(s)) { o["k"] = E->isAssignmentOp() ? "assign" : "bin"; o["op"] = E->getOpcodeStr().str(); o["a"] = node(F, E->getLHS()); o["b"] = node(F, E->getRHS()); return o; }
    if (auto* E = dyn_cast<ConditionalOperator>(s)) { o["k"] = "cond"; o["c"] = node(F, E->getCond()); o["a"] = node(F, E->getTrueExpr()); o["b"] = node(F, E->getFalseExpr()); return o; }
    if (auto* E = dyn_cast<CXXOperatorCallExpr>(s)) {
      o["k"] = "call"; o["op"] = getOperatorSpelling(E->getOperator());
      if (auto* FD = E->getDirectCallee()) {
        callee(o, FD);
        if (auto* M = dyn_cast<CXXMethodDecl>(FD)) if (M->isVirtual()) o["virt"] = true;
        unsigned i = 0;
        json::Array a;
        if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) { o["recv"] = node(F, E->getArg(0)); i = 1; }
        for (; i < E->getNumArgs(); ++i) a.push_back(node(F, E->getArg(i)));
        o["args"] = std::move(a);
      } else { o["args"] = list(E->arguments()); }
      return o;
    }
    if (auto* E = dyn_cast<CallExpr>(s)) {
      o["k"] = "call"; o["args"] = list(E->arguments());
      const Expr* C = E->getCallee()->IgnoreParenImpCasts();
      if (auto* FD = E->getDirectCallee()) {
        callee(o, FD);
        if (auto* ME = dyn_cast<MemberExpr>(C)) {
          o["recv"] = node(F, ME->getBase()); if (ME->isArrow()) o["arrow"] = true;
          if (auto* M = dyn_cast<CXXMethodDecl>(FD)) if (M->isVirtual() && !ME->hasQualifier()) o["virt"] = true;
          if (ME->hasQualifier()) o["qual"] = true;
        }
      } else {
        o["fnptr"] = node(F, E->getCallee());
        if (auto* BO = dyn_cast<BinaryOperator>(C)) { o["pm"] = BO->getOpcodeStr().str(); }
      }
      return o;
    }
    if (auto* E = dyn_cast<CXXConstructExpr>(s)) {
      o["k"] = "ctor"; callee(o, E->getConstructor()); o["args"] = list(E->arguments());
      if (E->isElidable()) o["elid"] = true;
      if (E->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      return o;
    }
    if (auto* E = dyn_cast<CXXInheritedCtorInitExpr>(s)) { o["k"] = "ctor"; callee(o, E->getConstructor()); o["args"] = json::Array{}; return o; }
    if (auto* E = dyn_cast<CXXNewExpr>(s)) {
      o["k"] = "new"; o["aty"] = ty(E->getAllocatedType()); if (auto* R = rec(E->getAllocatedType())) o["rec"] = usr(R);
      if (E->isArray()) { o["array"] = true; if (E->getArraySize()) o["size"] = node(F, *E->getArraySize()); }
      if (E->getInitializer()) o["init"] = node(F, E->getInitializer());
      if (E->getNumPlacementArgs()) o["placement"] = true;
      return o;
    }
    if (auto* E = dyn_cast<CXXDeleteExpr>(s)) {
      o["k"] = "delete"; o["sub"] = node(F, E->getArgument()); if (E->isArrayForm()) o["array"] = true;
      if (auto* R = rec(E->getDestroyedType())) { o["rec"] = usr(R); if (R->getDestructor()) { o["fn"] = usr(R->getDestructor()); note(R->getDestructor()); } }
      return o;
    }
    if (auto* D = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl"; json::Array a;
      for (auto* d : D->decls()) if (auto* V = dyn_cast<VarDecl>(d)) {
        json::Object v; v["name"] = V->getNameAsString(); v["ty"] = ty(V->getType()); v["key"] = declKey(V);
        if (auto* R = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) { v["rec"] = usr(R); noteRec(R); if (!V->getType()->isReferenceType() && R->hasDefinition() && R->getDestructor()) { v["dtor"] = usr(R->getDestructor()); note(R->getDestructor()); } }
        if (V->hasGlobalStorage()) { v["g"] = usr(V); noteVar(V); }
        else v["d"] = localId(F, V);
        if (V->getType()->isReferenceType()) v["isref"] = true;
        if (V->getInit()) v["init"] = node(F, V->getInit());
        a.push_back(std::move(v));
      }
      o["vars"] = std::move(a); return o;
    }
    if (auto* R = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (R->getRetValue()) o["sub"] = node(F, R->getRetValue()); return o; }
    if (auto* E = dyn_cast<CXXThrowExpr>(s)) { o["k"] = "throw"; if (E->getSubExpr()) { o["sub"] = node(F, E->getSubExpr()); o["tty"] = ty(E->getSubExpr()->getType()); if (auto* R = rec(E->getSubExpr()->getType())) o["rec"] = usr(R); } return o; }
    if (auto* E = dyn_cast<ArraySubscriptExpr>(s)) { o["k"] = "index"; o["a"] = node(F, E->getBase()); o["b"] = node(F, E->getIdx()); return o; }
    if (auto* E = dyn_cast<InitListExpr>(s)) {
      o["k"] = "init"; o["args"] = list(E->inits());
      if (E->hasArrayFiller()) o["filler"] = true;
      return o;
    }
    if (auto* E = dyn_cast<LambdaExpr>(s)) {
      o["k"] = "lambda"; o["fn"] = usr(E->getCallOperator()); note(E->getCallOperator());
      o["rec"] = usr(E->getLambdaClass());
      json::Array caps;
      auto ci = E->capture_init_begin();
      for (auto& c : E->captures()) {
        json::Object cc;
        if (c.capturesThis()) cc["this"] = true;
        else if (c.capturesVariable()) { cc["d"] = localId(F, c.getCapturedVar()); cc["name"] = c.getCapturedVar()->getNameAsString(); cc["byref"] = c.getCaptureKind() == LCK_ByRef; cc["decl"] = declKey(c.getCapturedVar()); }
        if (ci != E->capture_init_end()) { if (*ci) cc["init"] = node(F, *ci); ++ci; }
        caps.push_back(std::move(cc));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) { o["k"] = "zero"; return o; }
    if (auto* E = dyn_cast<CXXTypeidExpr>(s)) { o["k"] = "typeid"; if (!E->isTypeOperand()) o["sub"] = node(F, E->getExprOperand()); return o; }
    if (isa<UnaryExprOrTypeTraitExpr>(s)) { o["k"] = "const"; return o; }
    o["k"] = "stmt"; o["sc"] = s->getStmtClassName();
    if (!isa<CompoundStmt>(s) || true) {
      json::Array a;
      for (auto* c : s->children()) if (c) a.push_back(node(F, c));
      o["subs"] = std::move(a);
    }
    if (auto* T = dyn_cast<CXXTryStmt>(s)) {
      json::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        json::Object h; h["id"] = node(F, T->getHandler(i));
        h["ty"] = T->getHandler(i)->getExceptionDecl() ? ty(T->getHandler(i)->getCaughtType()) : std::string("...");
        if (auto* R = T->getHandler(i)->getExceptionDecl() ? rec(T->getHandler(i)->getCaughtType()) : nullptr) h["rec"] = usr(R);
        hs.push_back(std::move(h));
      }
      o["handlers"] = std::move(hs); o["body"] = node(F, T->getTryBlock());
    }
    if (auto* C = dyn_cast<CXXCatchStmt>(s)) { if (C->getExceptionDecl()) o["d"] = localId(F, C->getExceptionDecl()); }
    if (auto* fr = dyn_cast<CXXForRangeStmt>(s)) (void)fr;
    return o;
  }
  void outer(FnCtx& F, json::Object& o, const ValueDecl* D) {
    if (F.DC && D->getDeclContext()->getRedeclContext() != F.DC && isa<FunctionDecl>(D->getDeclContext())) {
      for (const DeclContext* p = F.DC->getParent(); p; p = p->getParent()) if (p == D->getDeclContext()) { o["outer"] = declKey(D); return; }
    }
  }
  std::string declKey(const ValueDecl* D) { return D->getNameAsString() + "@" + loc(D->getLocation()); }

  // ---- queues ----
  void note(const FunctionDecl* FD) {
    const FunctionDecl* Def = nullptr;
    if (!FD->hasBody(Def)) { if (auto* P = FD->getTemplateInstantiationPattern()) (void)P; noteDecl(FD); return; }
    noteDecl(FD);
    if (Def->isDependentContext()) return;
    if (!inRepo(Def->getLocation()) && !inRepo(Def->getBeginLoc())) return;
    if (seenF.insert(Def->getCanonicalDecl()).second) queue.push_back(Def);
  }
  void noteDecl(const FunctionDecl* FD) {
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) noteRec(M->getParent());
  }
  void noteRec(const CXXRecordDecl* R) {
    if (!R) return; R = R->getDefinition(); if (!R || R->isDependentContext()) return;
    if (!seenR.insert(R->getCanonicalDecl()).second) return;
    recs.push_back(R);
    for (auto& b : R->bases()) if (auto* B = b.getType()->getAsCXXRecordDecl()) noteRec(B);
  }
  void noteVar(const VarDecl* V) {
    const VarDecl* D = V->getDefinition(); if (!D) { D = V; if (auto* I = V->getAnyInitializer(D)) (void)I; }
    if (!D) D = V;
    if (!inRepo(D->getLocation())) return;
    if (seenV.insert(V->getCanonicalDecl()).second) vars.push_back(D);
  }

  json::Array params(FnCtx& F, const FunctionDecl* FD) {
    json::Array a;
    for (auto* P : FD->parameters()) {
      json::Object p; p["d"] = localId(F, P); p["name"] = P->getNameAsString(); p["ty"] = ty(P->getType()); p["key"] = declKey(P);
      a.push_back(std::move(p));
    }
    return a;
  }
  json::Object dumpFn(const FunctionDecl* FD) {
    FnCtx F; F.DC = FD;
    json::Object o;
    o["id"] = usr(FD); o["name"] = FD->getQualifiedNameAsString(); o["short"] = FD->getNameAsString();
    o["loc"] = loc(FD->getLocation());
    o["params"] = params(F, FD);
    o["ret"] = ty(FD->getReturnType());
    if (FD->getTemplateSpecializationArgs()) {
      json::Array ta; for (auto& A : FD->getTemplateSpecializationArgs()->asArray()) ta.push_back(targ(A));
      o["targs"] = std::move(ta);
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      noteRec(M->getParent());
      o["cls"] = usr(M->getParent()); o["clsn"] = M->getParent()->getQualifiedNameAsString();
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      o["access"] = (int)M->getAccess();
      json::Array ov; for (auto* x : M->overridden_methods()) ov.push_back(usr(x));
      o["overrides"] = std::move(ov);
    }
    if (isa<CXXConstructorDecl>(FD)) o["kind"] = "ctor";
    else if (isa<CXXDestructorDecl>(FD)) o["kind"] = "dtor";
    else o["kind"] = "fn";
    if (FD->isImplicit() || FD->isDefaulted()) o["implicit"] = true;

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false;
    BO.AddEHEdges = true; BO.PruneTriviallyFalseEdges = false; BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddScopes = false; BO.AddStaticInitBranches = false; BO.AddCXXNewAllocator = false;
    auto cfg = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);
    if (!cfg) { o["nocfg"] = true; return o; }
    json::Array blocks;
    for (const CFGBlock* B : *cfg) {
      json::Object b; b["id"] = (int64_t)B->getBlockID();
      json::Array els;
      for (auto& e : *B) {
        switch (e.getKind()) {
          case CFGElement::Statement: case CFGElement::Constructor: case CFGElement::CXXRecordTypedCall: {
            const Stmt* st = e.castAs<CFGStmt>().getStmt();
            int n = node(F, st);
            // only emit if the stripped statement is the element itself or the wrapper (avoid duplicates)
            if (strip(st) == st) els.push_back(n);
            break; }
          case CFGElement::Initializer: {
            auto* I = e.castAs<CFGInitializer>().getInitializer();
            json::Object io; io["init"] = node(F, I->getInit());
            if (I->isAnyMemberInitializer()) { io["f"] = fieldName(I->getAnyMember()); io["fc"] = usr(I->getAnyMember()->getParent()); if (I->getAnyMember()->getType()->isReferenceType()) io["isref"] = true; }
            else if (I->isBaseInitializer()) { if (auto* R = I->getBaseClass()->getAsCXXRecordDecl()) io["base"] = usr(R); }
            else io["deleg"] = true;
            io["e"] = "minit";
            els.push_back(std::move(io)); break; }
          case CFGElement::AutomaticObjectDtor: {
            auto d = e.castAs<CFGAutomaticObjDtor>(); json::Object io; io["e"] = "dtor"; io["d"] = localId(F, d.getVarDecl()); io["name"] = d.getVarDecl()->getNameAsString();
            if (auto* R = rec(d.getVarDecl()->getType())) { io["rec"] = usr(R); if (R->getDestructor()) { io["fn"] = usr(R->getDestructor()); note(R->getDestructor()); } }
            els.push_back(std::move(io)); break; }
          case CFGElement::BaseDtor: {
            auto d = e.castAs<CFGBaseDtor>(); json::Object io; io["e"] = "bdtor";
            if (auto* R = d.getBaseSpecifier()->getType()->getAsCXXRecordDecl()) { io["rec"] = usr(R); if (R->getDestructor()) { io["fn"] = usr(R->getDestructor()); note(R->getDestructor()); } }
            els.push_back(std::move(io)); break; }
          case CFGElement::MemberDtor: {
            auto d = e.castAs<CFGMemberDtor>(); json::Object io; io["e"] = "mdtor"; io["f"] = fieldName(d.getFieldDecl());
            if (auto* R = rec(d.getFieldDecl()->getType())) { io["rec"] = usr(R); if (R->getDestructor()) { io["fn"] = usr(R->getDestructor()); note(R->getDestructor()); } }
            els.push_back(std::move(io)); break; }
          default: break;
        }
      }
      b["e"] = std::move(els);
      if (auto* T = B->getTerminatorStmt()) {
        b["t"] = T->getStmtClassName(); b["ts"] = node(F, T);
        if (auto* C = B->getTerminatorCondition(false)) b["c"] = node(F, C);
        if (auto* BOp = dyn_cast<BinaryOperator>(T)) b["bop"] = BOp->getOpcodeStr().str();
      }
      if (auto* L = B->getLabel()) {
        if (auto* C = dyn_cast<CaseStmt>(L)) {
          json::Array vals;
          Expr::EvalResult R; int64_t lo = 0, hi = 0;
          if (C->getLHS()->EvaluateAsInt(R, Ctx)) lo = hi = i64(R.Val.getInt());
          if (C->getRHS() && C->getRHS()->EvaluateAsInt(R, Ctx)) hi = i64(R.Val.getInt());
          b["case"] = json::Array{lo, hi};
        } else if (isa<DefaultStmt>(L)) b["default"] = true;
        else if (auto* CS = dyn_cast<CXXCatchStmt>(L)) { b["catch"] = node(F, CS); }
      }
      json::Array succ;
      for (auto it = B->succ_begin(); it != B->succ_end(); ++it) {
        const CFGBlock* x = it->getReachableBlock(); if (!x) x = it->getPossiblyUnreachableBlock();
        if (x) succ.push_back((int64_t)x->getBlockID()); else succ.push_back(nullptr);
      }
      b["s"] = std::move(succ);
      if (B->hasNoReturnElement()) b["noret"] = true;
      blocks.push_back(std::move(b));
    }
    o["blocks"] = std::move(blocks);
    o["entry"] = (int64_t)cfg->getEntry().getBlockID(); o["exit"] = (int64_t)cfg->getExit().getBlockID();
    o["body"] = node(F, FD->getBody());
    // try blocks
    o["nodes"] = std::move(F.nodes);
    return o;
  }
  json::Value targ(const TemplateArgument& A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: { json::Object o; o["t"] = ty(A.getAsType()); if (auto* R = A.getAsType()->getAsCXXRecordDecl()) o["rec"] = usr(R); return std::move(o); }
      case TemplateArgument::Integral: return i64(A.getAsIntegral());
      case TemplateArgument::Declaration: return json::Object{{"d", usr(A.getAsDecl())}, {"name", A.getAsDecl()->getQualifiedNameAsString()}};
      case TemplateArgument::Pack: { json::Array a; for (auto& x : A.pack_elements()) a.push_back(targ(x)); return std::move(a); }
      default: return nullptr;
    }
  }
  json::Object dumpRec(const CXXRecordDecl* R) {
    json::Object o; o["id"] = usr(R); o["name"] = R->getQualifiedNameAsString(); o["loc"] = loc(R->getLocation());
    o["repo"] = inRepo(R->getLocation());
    o["tyname"] = ty(Ctx.getRecordType(R));
    json::Array bases; for (auto& b : R->bases()) if (auto* B = b.getType()->getAsCXXRecordDecl()) bases.push_back(usr(B));
    o["bases"] = std::move(bases);
    json::Array fields; for (auto* f : R->fields()) { json::Object fo; fo["name"] = fieldName(f); fo["ty"] = ty(f->getType()); if (auto* RR = rec(f->getType())) fo["rec"] = usr(RR); fields.push_back(std::move(fo)); }
    o["fields"] = std::move(fields);
    if (R->isAbstract()) o["abstract"] = true;
    if (auto* Sp = dyn_cast<ClassTemplateSpecializationDecl>(R)) { json::Array ta; for (auto& A : Sp->getTemplateArgs().asArray()) ta.push_back(targ(A)); o["targs"] = std::move(ta); }
    if (o["repo"].getAsBoolean() == true) {
      json::Array ms;
      for (auto* m : R->methods()) {
        json::Object mo; mo["id"] = usr(m); mo["name"] = m->getNameAsString(); mo["access"] = (int)m->getAccess();
        if (m->isVirtual()) mo["virt"] = true;
        if (m->isPureVirtual()) mo["pure"] = true;
        if (m->isStatic()) mo["static"] = true;
        if (m->isConst()) mo["const"] = true;
        if (m->isImplicit()) mo["implicit"] = true;
        if (m->isDeleted()) mo["deleted"] = true;
        if (isa<CXXConstructorDecl>(m)) mo["kind"] = "ctor"; else if (isa<CXXDestructorDecl>(m)) mo["kind"] = "dtor";
        mo["ret"] = ty(m->getReturnType());
        json::Array ps; for (auto* p : m->parameters()) ps.push_back(ty(p->getType())); mo["params"] = std::move(ps);
        json::Array pn; for (auto* p : m->parameters()) pn.push_back(p->getNameAsString()); mo["pnames"] = std::move(pn);
        json::Array ov; for (auto* x : m->overridden_methods()) ov.push_back(usr(x)); mo["overrides"] = std::move(ov);
        ms.push_back(std::move(mo));
      }
      o["methods"] = std::move(ms);
    } else {
      json::Array ms;
      for (auto* m : R->methods()) if (m->isVirtual()) { json::Object mo; mo["id"] = usr(m); mo["name"] = m->getNameAsString(); mo["virt"] = true; json::Array ov; for (auto* x : m->overridden_methods()) ov.push_back(usr(x)); mo["overrides"] = std::move(ov); ms.push_back(std::move(mo)); }
      o["methods"] = std::move(ms);
    }
    return o;
  }

  struct Coll : RecursiveASTVisitor<Coll> {
    Dumper& D; Coll(Dumper& d) : D(d) {}
    std::vector<EnumDecl*> enums;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* FD) {
      if (FD->isThisDeclarationADefinition() && !FD->isDependentContext() && !FD->isInvalidDecl()) D.note(FD);
      return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext() && D.inRepo(R->getLocation())) D.noteRec(R); return true; }
    bool VisitVarDecl(VarDecl* V) { if (V->hasGlobalStorage() && !V->getDeclContext()->isDependentContext() && D.inRepo(V->getLocation()) && !V->getType()->isDependentType()) D.noteVar(V); return true; }
    bool VisitEnumDecl(EnumDecl* E) { if (!E->isDependentContext() && D.inRepo(E->getLocation())) enums.push_back(E); return true; }
  };
  struct SpecColl : RecursiveASTVisitor<SpecColl> {
    Dumper& D; std::vector<ClassTemplateSpecializationDecl*> out; std::vector<CXXRecordDecl*> nested;
    SpecColl(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl* R) {
      if (!R->isDependentContext() && !isa<ClassTemplatePartialSpecializationDecl>(R) && D.inRepo(R->getLocation())) out.push_back(R);
      return true; }
  };

  void instantiateAll() {
    std::set<const void*> done;
    for (int round = 0; round < 8; ++round) {
      SpecColl C(*this); C.TraverseDecl(Ctx.getTranslationUnitDecl());
      bool any = false;
      for (auto* R : C.out) {
        if (!done.insert(R).second) continue;
        any = true;
        if (R->getSpecializationKind() == TSK_ExplicitSpecialization) continue;
        if (!R->hasDefinition()) {
          // complete it only if the type is needed
          continue;
        }
        for (auto* M : R->getDefinition()->methods()) instMember(M);
        for (auto* Dd : R->getDefinition()->decls()) {
          if (auto* V = dyn_cast<VarDecl>(Dd)) if (V->isStaticDataMember() && V->getInstantiatedFromStaticDataMember()) S.InstantiateVariableDefinition(R->getLocation(), V, true, true);
          if (auto* N = dyn_cast<CXXRecordDecl>(Dd)) if (!N->isInjectedClassName()) instNested(N);
        }
      }
      S.PerformPendingInstantiations();
      if (!any) break;
    }
  }
  void instNested(CXXRecordDecl* N) {
    if (!N->hasDefinition() && N->getInstantiatedFromMemberClass()) {
      auto* P = N->getInstantiatedFromMemberClass()->getDefinition();
      if (P) { auto MA = S.getTemplateInstantiationArgs(N); S.InstantiateClass(N->getLocation(), N, cast<CXXRecordDecl>(P), MA, TSK_ImplicitInstantiation); }
    }
    auto* Df = N->getDefinition(); if (!Df) return;
    for (auto* M : Df->methods()) instMember(M);
    for (auto* Dd : Df->decls()) if (auto* NN = dyn_cast<CXXRecordDecl>(Dd)) if (!NN->isInjectedClassName()) instNested(NN);
  }
  void instMember(CXXMethodDecl* M) {
    if (M->isDeleted() || M->isInvalidDecl()) return;
    if (M->isDefaulted() || M->isImplicit()) {
      // define the destructor and constructors so that their member effects are visible
      if (M->isImplicit() && !M->isDefined()) {
        if (auto* Dt = dyn_cast<CXXDestructorDecl>(M)) { if (!Dt->isTrivial()) S.MarkFunctionReferenced(M->getLocation(), Dt); }
      }
      return;
    }
    if (M->getTemplateInstantiationPattern() && !M->isDefined()) S.InstantiateFunctionDefinition(M->getLocation(), M, true, false);
  }

  void run() {
    instantiateAll();
    Coll C(*this); C.TraverseDecl(Ctx.getTranslationUnitDecl());
    std::error_code EC; llvm::raw_fd_ostream OS(gOut, EC);
    if (EC) { llvm::errs() << "cannot write " << gOut << "\n"; exit(3); }
    size_t nf = 0;
    for (size_t i = 0; i < queue.size(); ++i) { json::Object o = dumpFn(queue[i]); o["_"] = "fn"; OS << json::Value(std::move(o)) << "\n"; ++nf; }
    for (size_t i = 0; i < vars.size(); ++i) {
      const VarDecl* V = vars[i];
      json::Object o; o["_"] = "var"; o["id"] = usr(V); o["name"] = V->getQualifiedNameAsString(); o["ty"] = ty(V->getType()); o["loc"] = loc(V->getLocation());
      if (V->isStaticLocal()) { o["slocal"] = true; if (auto* F = dyn_cast<FunctionDecl>(V->getDeclContext())) o["infn"] = usr(F); }
      const VarDecl* D2 = nullptr;
      if (const Expr* I = V->getAnyInitializer(D2)) {
        if (!I->isValueDependent()) {
          if (D2->getType()->isLiteralType(Ctx) || true) {
            llvm::SmallVector<PartialDiagnosticAt, 4> notes; APValue R;
            bool ok = false;
            if (!D2->getType()->isReferenceType()) ok = I->EvaluateAsInitializer(R, Ctx, D2, notes, true);
            if (ok) o["val"] = apv(R);
          }
          FnCtx F; int n = node(F, I); o["init"] = n; o["nodes"] = std::move(F.nodes);
        }
      }
      OS << json::Value(std::move(o)) << "\n";
    }
    // functions noted while dumping variables
    for (size_t i = nf; i < queue.size(); ++i) { json::Object o = dumpFn(queue[i]); o["_"] = "fn"; OS << json::Value(std::move(o)) << "\n"; }
    for (size_t i = 0; i < recs.size(); ++i) { json::Object o = dumpRec(recs[i]); o["_"] = "rec"; OS << json::Value(std::move(o)) << "\n"; }
    std::set<std::string> es;
    for (auto* E : C.enums) {
      if (!es.insert(usr(E)).second) continue;
      json::Object o; o["_"] = "enum"; o["id"] = usr(E); o["name"] = E->getQualifiedNameAsString();
      json::Object vs; for (auto* c : E->enumerators()) vs[c->getNameAsString()] = i64(c->getInitVal());
      o["vals"] = std::move(vs); OS << json::Value(std::move(o)) << "\n";
    }
  }

private:
  ASTContext& Ctx; Sema& S; SourceManager& SM; PrintingPolicy PP;
  std::unordered_map<unsigned, bool> fileCache;
  std::unordered_map<const Decl*, std::string> usrCache;
  std::unordered_map<void*, std::string> tyCache;
  std::set<const Decl*> seenF, seenR, seenV;
  std::vector<const FunctionDecl*> queue; std::vector<const CXXRecordDecl*> recs; std::vector<const VarDecl*> vars;
};

class Consumer : public SemaConsumer {
  Sema* S = nullptr;
public:
  void InitializeSema(Sema& s) override { S = &s; }
  void ForgetSema() override { S = nullptr; }
  void HandleTranslationUnit(ASTContext& C) override {
    // Errors inside one (uninstantiated-by-gcc) template member do not invalidate the rest of the program:
    // the broken member is simply absent from the dump and the per-property floors notice if it mattered.
    // A fatal error (missing header, ...) leaves no usable AST.
    if (C.getDiagnostics().hasFatalErrorOccurred()) { llvm::errs() << "arx: fatal error in translation unit\n"; exit(4); }
    C.getDiagnostics().setSuppressAllDiagnostics(true);
    Dumper D(C, *S); D.run();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
}

int main(int argc, char** argv) {
  // arx <out> <file> <root>... -- <compiler args>
  if (argc < 4) { llvm::errs() << "usage: arx out file roots... -- args\n"; return 2; }
  gOut = argv[1];
  std::string file = argv[2];
  std::vector<std::string> args{"clang++"};
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) gRoots.push_back(argv[i]);
  for (++i; i < argc; ++i) args.push_back(argv[i]);
  args.push_back("-fsyntax-only"); args.push_back(file);
  IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation TI(args, std::make_unique<Action>(), FM.get());
  bool ok = TI.run();
  (void)ok; return 0;
}
