// rtexport: clang libTooling exporter. Parses one translation unit and dumps every function with a body that
// lives below --root as a simplified, fully resolved syntax tree (JSON): implicit nodes folded, callees resolved
// (USR), template instantiations expanded, constants evaluated, types interned.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace js = llvm::json;

static std::string gRoot = "/repo/";
static std::string gOut;

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  js::Object funcs, classes, fnrefs, tmpls;
  js::Array types;
  std::map<std::string, int> typeIds;
  std::map<const Decl *, std::string> varIds;
  std::map<const LambdaExpr *, std::string> lamIds;
  int nextVar = 0;
  std::set<const CXXRecordDecl *> doneRec;

  explicit Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.FullyQualifiedName = true;
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string usr(const Decl *D) {
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(D, buf)) return "";
    return std::string(buf.str());
  }
  std::string file(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    return P.isValid() ? std::string(P.getFilename()) : "";
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  bool inRoot(const Decl *D) {
    if (const auto *RD = dyn_cast<CXXRecordDecl>(D))
      if (const auto *P = RD->getTemplateInstantiationPattern()) D = P;
    std::string f = file(D->getLocation());
    return f.rfind(gRoot, 0) == 0;
  }
  static std::string u8(llvm::StringRef s) { return js::isUTF8(s) ? s.str() : js::fixUTF8(s); }

  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    std::string s = T.getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[s] = id;
    types.push_back(nullptr);
    js::Object o;
    o["s"] = u8(s);
    if (T.isConstQualified()) o["const"] = true;
    const Type *t = T.getTypePtr();
    if (t->isDependentType()) {
      o["k"] = "dep";
    } else if (t->isBooleanType()) {
      o["k"] = "bool";
      o["w"] = 1;
    } else if (t->isEnumeralType()) {
      o["k"] = "enum";
      o["w"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["sg"] = t->isSignedIntegerType();
      o["w"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
    } else if (t->isFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = type(t->getPointeeType());
      o["w"] = 8;
    } else if (t->isReferenceType()) {
      o["k"] = "ref";
      o["to"] = type(t->getPointeeType());
      if (t->isRValueReferenceType()) o["rv"] = true;
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (const auto *RD = t->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["n"] = RD->getQualifiedNameAsString();
      o["usr"] = usr(RD);
      if (RD->isLambda()) o["lambda"] = true;
      if (RD->hasDefinition() && !RD->isDependentType()) {
        if (RD->isCompleteDefinition()) o["w"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
        record(RD);
      }
      if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        js::Array args;
        for (const auto &A : S->getTemplateArgs().asArray()) targ(A, args);
        o["args"] = std::move(args);
      }
    } else if (t->isFunctionType()) {
      o["k"] = "fn";
    } else if (t->isConstantArrayType()) {
      o["k"] = "arr";
      o["to"] = type(C.getAsConstantArrayType(T)->getElementType());
      o["n"] = (int64_t)C.getAsConstantArrayType(T)->getSize().getZExtValue();
    } else {
      o["k"] = "other";
    }
    types[id] = std::move(o);
    return id;
  }
  void targ(const TemplateArgument &A, js::Array &args) {
    switch (A.getKind()) {
      case TemplateArgument::Type:
        args.push_back(type(A.getAsType()));
        break;
      case TemplateArgument::Pack:
        for (const auto &P : A.pack_elements()) targ(P, args);
        break;
      case TemplateArgument::Integral:
        args.push_back(js::Value(llvm::toString(A.getAsIntegral(), 10)));
        break;
      default:
        args.push_back(nullptr);
    }
  }

  void record(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD || !doneRec.insert(RD).second) return;
    if (!inRoot(RD)) return;
    if (RD->isLambda()) return;
    js::Object o;
    o["n"] = RD->getQualifiedNameAsString();
    o["name"] = RD->getNameAsString();
    const CXXRecordDecl *Pat = RD->getTemplateInstantiationPattern();
    o["file"] = file((Pat ? Pat : RD)->getLocation());
    o["line"] = line((Pat ? Pat : RD)->getLocation());
    o["abstract"] = RD->isAbstract();
    o["t"] = type(C.getRecordType(RD));
    js::Array bases, fields, methods;
    for (const auto &B : RD->bases()) {
      if (const auto *BD = B.getType()->getAsCXXRecordDecl()) {
        record(BD);
        bases.push_back(usr(BD));
      }
    }
    for (const auto *F : RD->fields()) {
      js::Object f;
      f["n"] = F->getNameAsString();
      f["usr"] = usr(F);
      f["t"] = type(F->getType());
      f["line"] = line(F->getLocation());
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = E(F->getInClassInitializer());
      fields.push_back(std::move(f));
    }
    js::Array statics;
    for (const auto *D : RD->decls())
      if (const auto *V = dyn_cast<VarDecl>(D)) {
        js::Object f;
        f["n"] = V->getNameAsString();
        f["t"] = type(V->getType());
        f["const"] = V->getType().isConstQualified();
        statics.push_back(std::move(f));
      }
    for (const auto *M : RD->methods()) {
      methods.push_back(fnref(M));
    }
    o["bases"] = std::move(bases);
    o["fields"] = std::move(fields);
    o["statics"] = std::move(statics);
    o["methods"] = std::move(methods);
    classes[usr(RD)] = std::move(o);
    for (const auto *F : RD->fields())
      if (const auto *FR = F->getType()->getAsCXXRecordDecl()) record(FR);
  }

  std::string fnref(const FunctionDecl *F) {
    std::string u = usr(F);
    if (fnrefs.get(u)) return u;
    fnrefs[u] = nullptr;
    js::Object o;
    o["n"] = F->getNameAsString();
    o["qn"] = F->getQualifiedNameAsString();
    o["ret"] = type(F->getReturnType());
    js::Array ps;
    for (const auto *P : F->parameters()) ps.push_back(type(P->getType()));
    o["ps"] = std::move(ps);
    if (F->isVariadic()) o["variadic"] = true;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = usr(M->getParent());
      o["clsn"] = M->getParent()->getQualifiedNameAsString();
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["cm"] = true;
      if (M->isPureVirtual()) o["pure"] = true;
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
      if (M->isDeleted()) o["deleted"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (const auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (K->isCopyConstructor()) o["copy"] = true;
        if (K->isMoveConstructor()) o["move"] = true;
        if (K->isDefaultConstructor()) o["default"] = true;
      }
      js::Array ov;
      for (const auto *O : M->overridden_methods()) ov.push_back(usr(O));
      if (!ov.empty()) o["over"] = std::move(ov);
    }
    if (const auto *TA = F->getTemplateSpecializationArgs()) {
      js::Array args;
      for (const auto &A : TA->asArray()) targ(A, args);
      o["targs"] = std::move(args);
    }
    if (F->getOverloadedOperator() != OO_None) o["oo"] = getOperatorSpelling(F->getOverloadedOperator());
    if (unsigned B = F->getBuiltinID()) {
      (void)B;
      o["builtin"] = true;
    }
    o["repo"] = inRoot(F);
    if (F->isNoReturn()) o["noret"] = true;
    fnrefs[u] = std::move(o);
    return u;
  }

  // global variables, static members and static locals that are referred to
  js::Object gvars;
  std::string gvar(const VarDecl *V) {
    V = V->getCanonicalDecl();
    std::string u = usr(V) + (V->isStaticLocal() ? "#" + std::to_string(line(V->getLocation())) : "");
    if (gvars.get(u)) return u;
    gvars[u] = nullptr;
    const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
    js::Object o;
    o["n"] = V->getQualifiedNameAsString();
    o["file"] = file(D->getLocation());
    o["line"] = line(D->getLocation());
    o["t"] = type(V->getType());
    o["const"] = V->getType().isConstQualified();
    o["repo"] = inRoot(V);
    o["local"] = V->isStaticLocal();
    o["def"] = V->getDefinition() != nullptr;
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    if (const Expr *I = V->getAnyInitializer())
      if (inRoot(V) && !I->isValueDependent() && !I->isTypeDependent()) {
        auto saved = std::move(up);
        up.clear();
        o["init"] = E(I);
        up = std::move(saved);
      }
    gvars[u] = std::move(o);
    return u;
  }

  std::string var(const Decl *D) {
    auto it = varIds.find(D);
    if (it != varIds.end()) return it->second;
    std::string n = "v";
    if (const auto *N = dyn_cast<NamedDecl>(D)) n = N->getNameAsString();
    std::string id = n + "#" + std::to_string(nextVar++);
    varIds[D] = id;
    return id;
  }

  js::Object node(const char *k, SourceLocation L) {
    js::Object o;
    o["k"] = k;
    o["l"] = line(L);
    return o;
  }

  js::Array args(llvm::ArrayRef<const Expr *> A) {
    js::Array r;
    for (const auto *a : A) r.push_back(E(a));
    return r;
  }
  template <class R>
  js::Array argsr(R r0) {
    js::Array r;
    for (const auto *a : r0) r.push_back(E(cast<Expr>(a)));
    return r;
  }

  js::Value lambda(const LambdaExpr *L) {
    js::Object o = node("lambda", L->getBeginLoc());
    js::Array caps;
    auto *RD = L->getLambdaClass();
    auto init = L->capture_init_begin();
    for (const auto &cap : L->captures()) {
      js::Object c;
      if (cap.capturesVariable()) {
        c["v"] = var(cap.getCapturedVar());
        c["byref"] = cap.getCaptureKind() == LCK_ByRef;
        if (init != L->capture_init_end() && *init && cap.getCapturedVar()->isInitCapture())
          c["init"] = E(cast<VarDecl>(cap.getCapturedVar())->getInit());
      } else if (cap.capturesThis()) {
        c["this"] = true;
        c["byref"] = cap.getCaptureKind() == LCK_This;
      }
      if (init != L->capture_init_end()) ++init;
      caps.push_back(std::move(c));
    }
    o["caps"] = std::move(caps);
    const CXXMethodDecl *M = RD->getLambdaCallOperator();
    o["t"] = type(C.getRecordType(RD));
    js::Array ps;
    if (M) {
      // generic lambdas: take the first instantiation
      if (const FunctionTemplateDecl *FT = M->getDescribedFunctionTemplate()) {
        const CXXMethodDecl *S = nullptr;
        for (auto *sp : FT->specializations()) {
          S = cast<CXXMethodDecl>(sp);
          if (S->hasBody()) break;
        }
        if (S) M = S;
      }
      for (const auto *P : M->parameters()) {
        js::Object p;
        p["v"] = var(P);
        p["t"] = type(P->getType());
        ps.push_back(std::move(p));
      }
      o["ret"] = type(M->getReturnType());
      o["usr"] = fnref(M);
      if (M->hasBody()) o["body"] = S(M->getBody());
    }
    o["ps"] = std::move(ps);
    return o;
  }

  // ---- how an object expression is used by the expression around it: r(ead), w(ritten), m(aybe: handed on by reference)
  std::vector<const Stmt *> up;
  std::string useOf(const ValueDecl *D) {
    if (up.empty()) return "m";
    const Stmt *cur = up.back();
    std::string r;
    size_t i = up.size() - 1;
    while (i-- > 0) {
      const Stmt *p = up[i];
      if (isa<ParenExpr>(p) || isa<ExprWithCleanups>(p) || isa<MaterializeTemporaryExpr>(p)) {
        cur = p;
        continue;
      }
      if (const auto *c = dyn_cast<CastExpr>(p)) {
        if (c->getCastKind() == CK_LValueToRValue) r = "r";
        else if (c->getCastKind() == CK_NoOp && c->getType().isConstQualified()) r = "r";
        else if (c->getCastKind() == CK_ArrayToPointerDecay || c->getCastKind() == CK_DerivedToBase ||
                 c->getCastKind() == CK_UncheckedDerivedToBase || c->getCastKind() == CK_NoOp) {
          cur = p;
          continue;
        } else r = "m";
        break;
      }
      if (const auto *m = dyn_cast<MemberExpr>(p)) {
        if (isa<FieldDecl>(m->getMemberDecl()) && !m->isArrow()) {
          cur = p;
          continue;
        }
        r = "m";
        break;
      }
      if (const auto *a = dyn_cast<ArraySubscriptExpr>(p)) {
        if (a->getBase() == cur || a->getBase()->IgnoreParenImpCasts() == cur) {
          cur = p;
          continue;
        }
        r = "r";
        break;
      }
      if (const auto *u = dyn_cast<UnaryOperator>(p)) {
        r = u->isIncrementDecrementOp() ? "w" : "m";
        cur = p;
        break;
      }
      if (const auto *b = dyn_cast<BinaryOperator>(p)) {
        r = b->isAssignmentOp() && b->getLHS()->IgnoreParens() == (isa<Expr>(cur) ? cast<Expr>(cur)->IgnoreParens() : nullptr) ? "w" : "m";
        break;
      }
      if (const auto *k = dyn_cast<CXXMemberCallExpr>(p)) {
        const Expr *o = k->getImplicitObjectArgument();
        if (o && o->IgnoreParens() == cast<Expr>(cur)->IgnoreParens()) {
          const auto *M = k->getMethodDecl();
          r = M && M->isConst() ? "r" : M && inRoot(M) ? "m" : named(M) ? "m" : "w";
        } else r = "m";
        break;
      }
      if (const auto *k = dyn_cast<CXXOperatorCallExpr>(p)) {
        const auto *M = dyn_cast_or_null<CXXMethodDecl>(k->getDirectCallee());
        if (M && k->getNumArgs() && k->getArg(0)->IgnoreParens() == cast<Expr>(cur)->IgnoreParens())
          r = M->isConst() ? "r" : M->getOverloadedOperator() == OO_Subscript && !assoc(M) ? "m" : "w";
        else r = "m";
        break;
      }
      r = "m";
      break;
    }
    if (r.empty()) r = "m";
    // a use inside an assignment to the object itself is no use of its own
    if (r == "r" && D)
      for (size_t j = up.size(); j-- > 0;)
        if (const auto *b = dyn_cast<BinaryOperator>(up[j]))
          if (b->isAssignmentOp())
            if (const auto *d = dyn_cast<DeclRefExpr>(b->getLHS()->IgnoreParenImpCasts()))
              if (d->getDecl() == D) return "s";
    return r;
  }
  // member functions that hand out an element or position without changing the object
  static bool named(const CXXMethodDecl *M) {
    if (!M || !M->getIdentifier()) return false;
    static const std::set<std::string> ns = {"begin", "end", "rbegin", "rend", "front", "back", "at", "find", "data", "get",
                                             "lower_bound", "upper_bound", "top", "value", "c_str", "equal_range"};
    return ns.count(M->getName().str()) > 0;
  }
  static bool assoc(const CXXMethodDecl *M) {
    std::string n = M->getParent()->getNameAsString();
    return n == "map" || n == "unordered_map";
  }

  js::Value E(const Expr *X) {
    if (!X) return nullptr;
    up.push_back(X);
    js::Value v = E0(X);
    up.pop_back();
    return v;
  }
  js::Value S(const Stmt *X) {
    if (!X) return nullptr;
    if (isa<Expr>(X)) {
      js::Object o = node("expr", X->getBeginLoc());
      o["e"] = E(cast<Expr>(X));
      return o;
    }
    up.push_back(X);
    js::Value v = S0(X);
    up.pop_back();
    return v;
  }

  js::Value E0(const Expr *X) {
    for (;;) {
      if (const auto *p = dyn_cast<ParenExpr>(X)) X = p->getSubExpr();
      else if (const auto *p = dyn_cast<ExprWithCleanups>(X)) X = p->getSubExpr();
      else if (const auto *p = dyn_cast<MaterializeTemporaryExpr>(X)) X = p->getSubExpr();
      else if (const auto *p = dyn_cast<CXXBindTemporaryExpr>(X)) X = p->getSubExpr();
      else if (const auto *p = dyn_cast<ConstantExpr>(X)) X = p->getSubExpr();
      else if (const auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) X = p->getReplacement();
      else if (const auto *p = dyn_cast<CXXDefaultArgExpr>(X)) X = p->getExpr();
      else if (const auto *p = dyn_cast<CXXDefaultInitExpr>(X)) X = p->getExpr();
      else if (const auto *p = dyn_cast<CXXStdInitializerListExpr>(X)) {
        js::Object o = node("stdil", X->getBeginLoc());
        o["t"] = type(X->getType());
        o["e"] = E(p->getSubExpr());
        return o;
      } else break;
    }
    SourceLocation L = X->getExprLoc();
    int t = type(X->getType());
    if (X->getType()->isDependentType() || X->isValueDependent() || X->isTypeDependent()) {
      js::Object o = node("dep", L);
      return o;
    }
    // constants
    if (!isa<DeclRefExpr>(X) || !X->isLValue()) {
      if (X->getType()->isIntegralOrEnumerationType() && !X->isGLValue()) {
        Expr::EvalResult R;
        if (!isa<CallExpr>(X) || isa<CallExpr>(X)) {
          if (X->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && !R.HasSideEffects) {
            js::Object o = node("int", L);
            o["t"] = t;
            o["v"] = llvm::toString(R.Val.getInt(), 10);
            return o;
          }
        }
      }
    }
    if (const auto *p = dyn_cast<IntegerLiteral>(X)) {
      js::Object o = node("int", L);
      o["t"] = t;
      o["v"] = llvm::toString(p->getValue(), 10, X->getType()->isSignedIntegerType());
      return o;
    }
    if (const auto *p = dyn_cast<FloatingLiteral>(X)) {
      js::Object o = node("float", L);
      o["t"] = t;
      llvm::SmallString<32> b;
      p->getValue().toString(b, 0, 0);
      o["v"] = std::string(b.str());
      return o;
    }
    if (const auto *p = dyn_cast<CXXBoolLiteralExpr>(X)) {
      js::Object o = node("int", L);
      o["t"] = t;
      o["v"] = p->getValue() ? "1" : "0";
      return o;
    }
    if (const auto *p = dyn_cast<CharacterLiteral>(X)) {
      js::Object o = node("int", L);
      o["t"] = t;
      o["v"] = std::to_string(p->getValue());
      return o;
    }
    if (const auto *p = dyn_cast<StringLiteral>(X)) {
      js::Object o = node("str", L);
      o["t"] = t;
      o["v"] = p->getCharByteWidth() == 1 ? u8(p->getString()) : "";
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) {
      js::Object o = node("null", L);
      o["t"] = t;
      return o;
    }
    if (isa<CXXThisExpr>(X)) {
      js::Object o = node("this", L);
      o["t"] = t;
      return o;
    }
    if (const auto *p = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *D = p->getDecl();
      if (const auto *F = dyn_cast<FunctionDecl>(D)) {
        js::Object o = node("fn", L);
        o["fn"] = fnref(F);
        return o;
      }
      if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        js::Object o = node("int", L);
        o["t"] = t;
        o["v"] = llvm::toString(EC->getInitVal(), 10);
        return o;
      }
      js::Object o = node("var", L);
      o["v"] = var(D);
      o["t"] = t;
      if (D->getType()->isLValueReferenceType() && !D->getType()->getPointeeType().isConstQualified()) o["use"] = useOf(D);
      if (const auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          o["global"] = V->getQualifiedNameAsString();
          o["gu"] = gvar(V);
          o["use"] = useOf(V);
          if (V->isStaticLocal()) o["staticlocal"] = true;
          if (V->getType().isConstQualified()) o["const"] = true;
          o["repo"] = inRoot(V);
          if (V->isConstexpr() || V->getType().isConstQualified()) {
            Expr::EvalResult R;
            if (X->getType()->isIntegralOrEnumerationType() && V->getInit() && !V->getInit()->isValueDependent() &&
                V->getInit()->EvaluateAsInt(R, C)) {
              js::Object c = node("int", L);
              c["t"] = t;
              c["v"] = llvm::toString(R.Val.getInt(), 10);
              return c;
            }
            if (V->getInit() && V->getType()->isFloatingType()) {
              llvm::APFloat f(0.0);
              if (V->getInit()->EvaluateAsFloat(f, C)) {
                js::Object c = node("float", L);
                c["t"] = t;
                llvm::SmallString<32> b;
                f.toString(b, 0, 0);
                c["v"] = std::string(b.str());
                return c;
              }
            }
          }
        }
      }
      return o;
    }
    if (const auto *p = dyn_cast<MemberExpr>(X)) {
      const ValueDecl *D = p->getMemberDecl();
      if (const auto *F = dyn_cast<FieldDecl>(D)) {
        js::Object o = node("mem", L);
        o["f"] = F->getNameAsString();
        o["fu"] = usr(F);
        o["arrow"] = p->isArrow();
        o["e"] = E(p->getBase());
        o["t"] = t;
        return o;
      }
      if (const auto *V = dyn_cast<VarDecl>(D)) {
        js::Object o = node("var", L);
        o["v"] = var(V);
        o["t"] = t;
        o["global"] = V->getQualifiedNameAsString();
        o["gu"] = gvar(V);
        o["use"] = useOf(V);
        if (V->getType().isConstQualified()) {
          o["const"] = true;
          Expr::EvalResult R;
          if (V->getInit() && X->getType()->isIntegralOrEnumerationType() && V->getInit()->EvaluateAsInt(R, C)) {
            js::Object c = node("int", L);
            c["t"] = t;
            c["v"] = llvm::toString(R.Val.getInt(), 10);
            return c;
          }
        }
        o["repo"] = inRoot(V);
        return o;
      }
      if (const auto *F = dyn_cast<FunctionDecl>(D)) {
        js::Object o = node("fn", L);
        o["fn"] = fnref(F);
        o["e"] = E(p->getBase());
        return o;
      }
    }
    if (const auto *p = dyn_cast<CastExpr>(X)) {
      switch (p->getCastKind()) {
        case CK_LValueToRValue: {
          js::Object o = node("load", L);
          o["e"] = E(p->getSubExpr());
          o["t"] = t;
          return o;
        }
        case CK_NoOp:
        case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_BuiltinFnToFnPtr:
          return E(p->getSubExpr());
        case CK_NullToPointer: {
          js::Object o = node("null", L);
          o["t"] = t;
          return o;
        }
        default: {
          js::Object o = node("cast", L);
          o["ck"] = p->getCastKindName();
          o["expl"] = isa<ExplicitCastExpr>(p);
          o["t"] = t;
          o["e"] = E(p->getSubExpr());
          return o;
        }
      }
    }
    if (const auto *p = dyn_cast<CXXOperatorCallExpr>(X)) {
      js::Object o = node("opcall", L);
      o["op"] = getOperatorSpelling(p->getOperator());
      if (const auto *F = p->getDirectCallee()) o["fn"] = fnref(F);
      o["args"] = args(llvm::ArrayRef<const Expr *>(p->getArgs(), p->getNumArgs()));
      o["t"] = t;
      return o;
    }
    if (const auto *p = dyn_cast<CXXMemberCallExpr>(X)) {
      js::Object o = node("mcall", L);
      if (const auto *F = p->getMethodDecl())
        if (F->getReturnType()->isLValueReferenceType() && !F->getReturnType()->getPointeeType().isConstQualified() && inRoot(F))
          o["use"] = useOf(nullptr);
      const Expr *callee = p->getCallee()->IgnoreParens();
      if (const auto *M = p->getMethodDecl()) {
        o["fn"] = fnref(M);
        if (const auto *ME = dyn_cast<MemberExpr>(callee)) {
          o["arrow"] = ME->isArrow();
          o["qual"] = ME->hasQualifier();
        }
        o["e"] = E(p->getImplicitObjectArgument());
      } else {
        o["fp"] = E(callee);
      }
      o["args"] = args(llvm::ArrayRef<const Expr *>(p->getArgs(), p->getNumArgs()));
      o["t"] = t;
      return o;
    }
    if (const auto *p = dyn_cast<CallExpr>(X)) {
      js::Object o = node("call", L);
      if (const auto *F = p->getDirectCallee())
        if (F->getReturnType()->isLValueReferenceType() && !F->getReturnType()->getPointeeType().isConstQualified() && inRoot(F))
          o["use"] = useOf(nullptr);
      if (const auto *F = p->getDirectCallee()) o["fn"] = fnref(F);
      else o["fp"] = E(p->getCallee());
      o["args"] = args(llvm::ArrayRef<const Expr *>(p->getArgs(), p->getNumArgs()));
      o["t"] = t;
      return o;
    }
    if (const auto *p = dyn_cast<CXXConstructExpr>(X)) {
      js::Object o = node("ctor", L);
      o["fn"] = fnref(p->getConstructor());
      o["t"] = t;
      if (p->isElidable()) o["elide"] = true;
      if (p->isListInitialization()) o["list"] = true;
      if (p->isStdInitListInitialization()) o["sil"] = true;
      o["args"] = args(llvm::ArrayRef<const Expr *>(p->getArgs(), p->getNumArgs()));
      return o;
    }
    if (const auto *p = dyn_cast<CXXInheritedCtorInitExpr>(X)) {
      js::Object o = node("inhctor", L);
      o["fn"] = fnref(p->getConstructor());
      o["t"] = t;
      return o;
    }
    if (const auto *p = dyn_cast<InitListExpr>(X)) {
      if (p->isSemanticForm() == false && p->getSemanticForm()) p = p->getSemanticForm();
      js::Object o = node("ilist", L);
      o["t"] = t;
      js::Array a;
      for (unsigned i = 0; i < p->getNumInits(); ++i) a.push_back(E(p->getInit(i)));
      o["args"] = std::move(a);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) {
      js::Object o = node("zero", L);
      o["t"] = t;
      return o;
    }
    if (const auto *p = dyn_cast<UnaryOperator>(X)) {
      js::Object o = node("un", L);
      o["op"] = UnaryOperator::getOpcodeStr(p->getOpcode()).str();
      if (p->isPostfix()) o["post"] = true;
      o["t"] = t;
      o["e"] = E(p->getSubExpr());
      return o;
    }
    if (const auto *p = dyn_cast<BinaryOperator>(X)) {
      js::Object o = node(p->isAssignmentOp() ? "assign" : "bin", L);
      o["op"] = p->getOpcodeStr().str();
      o["t"] = t;
      if (const auto *ca = dyn_cast<CompoundAssignOperator>(p)) o["ct"] = type(ca->getComputationResultType());
      o["a"] = E(p->getLHS());
      o["b"] = E(p->getRHS());
      return o;
    }
    if (const auto *p = dyn_cast<ConditionalOperator>(X)) {
      js::Object o = node("cond", L);
      o["t"] = t;
      o["c"] = E(p->getCond());
      o["a"] = E(p->getTrueExpr());
      o["b"] = E(p->getFalseExpr());
      return o;
    }
    if (const auto *p = dyn_cast<ArraySubscriptExpr>(X)) {
      js::Object o = node("sub", L);
      o["t"] = t;
      o["a"] = E(p->getBase());
      o["b"] = E(p->getIdx());
      return o;
    }
    if (const auto *p = dyn_cast<LambdaExpr>(X)) return lambda(p);
    if (const auto *p = dyn_cast<CXXThrowExpr>(X)) {
      js::Object o = node("throw", L);
      o["e"] = p->getSubExpr() ? E(p->getSubExpr()) : js::Value(nullptr);
      return o;
    }
    if (const auto *p = dyn_cast<CXXNewExpr>(X)) {
      js::Object o = node("new", L);
      o["t"] = t;
      if (p->getInitializer()) o["e"] = E(p->getInitializer());
      else if (p->getConstructExpr()) o["e"] = E(p->getConstructExpr());
      return o;
    }
    if (const auto *p = dyn_cast<CXXDeleteExpr>(X)) {
      js::Object o = node("delete", L);
      o["e"] = E(p->getArgument());
      return o;
    }
    if (const auto *p = dyn_cast<OpaqueValueExpr>(X)) return E(p->getSourceExpr());
    js::Object o = node("unk", L);
    o["cls"] = X->getStmtClassName();
    o["t"] = t;
    js::Array a;
    for (const Stmt *c : X->children())
      if (c && isa<Expr>(c)) a.push_back(E(cast<Expr>(c)));
    o["args"] = std::move(a);
    return o;
  }

  js::Value varDecl(const VarDecl *V) {
    js::Object o;
    o["v"] = var(V);
    o["n"] = V->getNameAsString();
    o["t"] = type(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) {
      o["static"] = true;
      o["const"] = V->getType().isConstQualified();
      o["gu"] = gvar(V);
    }
    if (V->hasInit()) o["init"] = E(V->getInit());
    if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
      js::Array b;
      for (const auto *B : DD->bindings()) {
        js::Object x;
        x["v"] = var(B);
        if (const auto *h = B->getHoldingVar()) x["hold"] = var(h);
        if (const auto *me = dyn_cast_or_null<MemberExpr>(B->getBinding() ? B->getBinding()->IgnoreParenImpCasts() : nullptr))
          x["f"] = me->getMemberDecl()->getNameAsString();
        b.push_back(std::move(x));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }

  js::Value S0(const Stmt *X) {
    SourceLocation L = X->getBeginLoc();
    if (const auto *p = dyn_cast<CompoundStmt>(X)) {
      js::Object o = node("block", L);
      js::Array a;
      for (const auto *s : p->body()) a.push_back(S(s));
      o["s"] = std::move(a);
      return o;
    }
    if (const auto *p = dyn_cast<DeclStmt>(X)) {
      js::Object o = node("decl", L);
      js::Array a;
      for (const auto *d : p->decls())
        if (const auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      o["d"] = std::move(a);
      return o;
    }
    if (const auto *p = dyn_cast<IfStmt>(X)) {
      js::Object o = node("if", L);
      if (p->isConstexpr()) o["constexpr"] = true;
      if (p->getInit()) o["init"] = S(p->getInit());
      if (p->getConditionVariable()) o["cv"] = varDecl(p->getConditionVariable());
      o["c"] = E(p->getCond());
      o["a"] = S(p->getThen());
      o["b"] = S(p->getElse());
      return o;
    }
    if (const auto *p = dyn_cast<WhileStmt>(X)) {
      js::Object o = node("while", L);
      if (p->getConditionVariable()) o["cv"] = varDecl(p->getConditionVariable());
      o["c"] = E(p->getCond());
      o["body"] = S(p->getBody());
      return o;
    }
    if (const auto *p = dyn_cast<DoStmt>(X)) {
      js::Object o = node("do", L);
      o["c"] = E(p->getCond());
      o["body"] = S(p->getBody());
      return o;
    }
    if (const auto *p = dyn_cast<ForStmt>(X)) {
      js::Object o = node("for", L);
      o["init"] = S(p->getInit());
      o["c"] = E(p->getCond());
      o["inc"] = E(p->getInc());
      o["body"] = S(p->getBody());
      return o;
    }
    if (const auto *p = dyn_cast<CXXForRangeStmt>(X)) {
      js::Object o = node("rfor", L);
      o["var"] = varDecl(p->getLoopVariable());
      o["range"] = E(p->getRangeInit());
      o["body"] = S(p->getBody());
      return o;
    }
    if (const auto *p = dyn_cast<ReturnStmt>(X)) {
      js::Object o = node("ret", L);
      if (p->getRetValue()) o["e"] = E(p->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(X)) return node("break", L);
    if (isa<ContinueStmt>(X)) return node("continue", L);
    if (isa<NullStmt>(X)) return node("nop", L);
    if (const auto *p = dyn_cast<CXXTryStmt>(X)) {
      js::Object o = node("try", L);
      o["body"] = S(p->getTryBlock());
      js::Array h;
      for (unsigned i = 0; i < p->getNumHandlers(); ++i) {
        js::Object c;
        const auto *H = p->getHandler(i);
        if (H->getExceptionDecl()) {
          c["v"] = var(H->getExceptionDecl());
          c["t"] = type(H->getCaughtType());
        }
        c["body"] = S(H->getHandlerBlock());
        h.push_back(std::move(c));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (const auto *p = dyn_cast<SwitchStmt>(X)) {
      js::Object o = node("switch", L);
      o["c"] = E(p->getCond());
      o["body"] = S(p->getBody());
      return o;
    }
    if (const auto *p = dyn_cast<CaseStmt>(X)) {
      js::Object o = node("case", L);
      o["v"] = E(p->getLHS());
      o["s"] = S(p->getSubStmt());
      return o;
    }
    if (const auto *p = dyn_cast<DefaultStmt>(X)) {
      js::Object o = node("default", L);
      o["s"] = S(p->getSubStmt());
      return o;
    }
    if (const auto *p = dyn_cast<AttributedStmt>(X)) return S(p->getSubStmt());
    if (const auto *p = dyn_cast<LabelStmt>(X)) return S(p->getSubStmt());
    if (const auto *p = dyn_cast<Expr>(X)) {
      js::Object o = node("expr", L);
      o["e"] = E(p);
      return o;
    }
    js::Object o = node("unks", L);
    o["cls"] = X->getStmtClassName();
    return o;
  }

  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (F->isDependentContext() || F->getDeclContext()->isDependentContext()) return;
    if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
    if (!inRoot(F)) return;
    if (F->isDeleted()) return;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return;
    std::string u = fnref(F);
    if (funcs.get(u)) return;
    funcs[u] = nullptr;
    js::Object o;
    o["qn"] = F->getQualifiedNameAsString();
    o["name"] = F->getNameAsString();
    o["file"] = file(F->getLocation());
    o["line"] = line(F->getLocation());
    js::Array ps;
    for (const auto *P : F->parameters()) {
      js::Object p;
      p["v"] = var(P);
      p["n"] = P->getNameAsString();
      p["t"] = type(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && P->getDefaultArg())
        p["def"] = E(P->getDefaultArg());
      ps.push_back(std::move(p));
    }
    o["ps"] = std::move(ps);
    o["ret"] = type(F->getReturnType());
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = usr(M->getParent());
      record(M->getParent());
    }
    if (const auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      js::Array in;
      for (const auto *I : K->inits()) {
        js::Object x;
        x["l"] = line(I->getSourceLocation());
        if (I->isAnyMemberInitializer()) {
          x["f"] = I->getAnyMember()->getNameAsString();
          x["fu"] = usr(I->getAnyMember());
        } else if (I->isBaseInitializer()) {
          if (const auto *B = I->getBaseClass()->getAsCXXRecordDecl()) x["base"] = usr(B);
        } else if (I->isDelegatingInitializer())
          x["deleg"] = true;
        if (I->isWritten()) x["w"] = true;
        x["e"] = E(I->getInit());
        in.push_back(std::move(x));
      }
      o["inits"] = std::move(in);
    }
    if (F->hasBody()) {
      const FunctionDecl *Def = nullptr;
      const Stmt *B = F->getBody(Def);
      if (B && Def == F) o["body"] = S(B);
    }
    funcs[u] = std::move(o);
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter &X;
  explicit Visitor(Exporter &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool TraverseDecl(Decl *D) {
    // skip declarations of system headers quickly: top-level std namespace
    if (D && isa<NamespaceDecl>(D)) {
      std::string n = cast<NamespaceDecl>(D)->getNameAsString();
      if (n == "std" || n == "__gnu_cxx" || n == "nlohmann" || n == "__detail" || n == "__cxxabiv1") return true;
    }
    return RecursiveASTVisitor::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    X.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isDependentType() && R->isThisDeclarationADefinition() && X.inRoot(R)) X.record(R);
    return true;
  }
  bool VisitClassTemplateDecl(ClassTemplateDecl *T) {
    if (!X.inRoot(T) || !T->isThisDeclarationADefinition()) return true;
    js::Object o;
    o["file"] = X.file(T->getLocation());
    o["line"] = X.line(T->getLocation());
    o["nparams"] = (int64_t)T->getTemplateParameters()->size();
    js::Array bases;
    if (auto *RD = T->getTemplatedDecl()->getDefinition())
      for (auto &B : RD->bases()) bases.push_back(B.getType().getAsString(X.PP));
    o["bases"] = std::move(bases);
    X.tmpls[T->getQualifiedNameAsString()] = std::move(o);
    return true;
  }
  std::vector<js::Value> globals;
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V) || !X.inRoot(V)) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    js::Object o;
    o["n"] = V->getQualifiedNameAsString();
    o["file"] = X.file(V->getLocation());
    o["line"] = X.line(V->getLocation());
    o["t"] = X.type(V->getType());
    o["const"] = V->getType().isConstQualified();
    o["local"] = V->isStaticLocal();
    globals.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer {
  bool *ok;
  explicit Consumer(bool *o) : ok(o) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    js::Object top;
    top["funcs"] = std::move(X.funcs);
    top["classes"] = std::move(X.classes);
    top["fnrefs"] = std::move(X.fnrefs);
    top["templates"] = std::move(X.tmpls);
    top["gvars"] = std::move(X.gvars);
    top["types"] = std::move(X.types);
    js::Array g;
    for (auto &v : V.globals) g.push_back(std::move(v));
    top["globals"] = std::move(g);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << js::Value(std::move(top));
    *ok = !ec;
  }
};
struct Action : ASTFrontendAction {
  bool *ok;
  explicit Action(bool *o) : ok(o) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>(ok);
  }
};

int main(int argc, char **argv) {
  // rtexport ROOT OUT FILE -- clang args
  if (argc < 5) return 2;
  gRoot = argv[1];
  gOut = argv[2];
  std::string f = argv[3];
  std::vector<std::string> a;
  for (int i = 5; i < argc; ++i) a.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", a);
  tooling::ClangTool T(DB, {f});
  bool ok = false;
  struct F : tooling::FrontendActionFactory {
    bool *ok;
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(ok); }
  } fac;
  fac.ok = &ok;
  int r = T.run(&fac);
  return (r == 0 && ok) ? 0 : 1;
}
