// tjx: resolved-program extractor.
//
// Parses a translation unit with clang and writes, as JSON, the type-checked
// bodies of every function (including template instantiations and lambda call
// operators) whose source lies under one of the given roots, the layout of
// every record they mention, and every variable with static storage duration.
// No code is executed: this is a dump of the typed syntax tree after overload
// resolution, template instantiation and implicit conversion.
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {

class Dumper {
 public:
  explicit Dumper(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics()));
  }

  ASTContext& Ctx;
  SourceManager& SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;

  std::map<const void*, int> TypeIds;
  json::Array Types;
  std::map<const Decl*, int> DeclIds;
  json::Object Records;
  std::set<const CXXRecordDecl*> RecSeen;
  json::Object Functions;
  json::Object Library;  // bodies of library functions that only some analyses want
  std::set<const FunctionDecl*> FnSeen;
  json::Array Statics;
  std::set<const VarDecl*> StaticSeen;
  json::Object Globals;  // key -> init of global/static variables

  int declId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int id = DeclIds.size() + 1;
    DeclIds[D] = id;
    return id;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> R;
    if (const FileEntry* FE = SM.getFileEntryForID(SM.getFileID(L))) {
      StringRef rp = FE->tryGetRealPathName();
      if (!rp.empty()) return rp.str();
    }
    return P.getFilename();
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    for (auto& r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  json::Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return nullptr;
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return nullptr;
    return json::Array{fileOf(L), (int64_t)P.getLine()};
  }

  std::string qname(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }

  std::string fnKey(const FunctionDecl* F) {
    if (const FunctionDecl* def = F->getDefinition()) F = def;
    std::string s;
    llvm::raw_string_ostream os(s);
    bool dep = F->isDependentContext() || F->getType()->isDependentType();
    if (!dep && MC->shouldMangleDeclName(F)) {
      if (auto* C = dyn_cast<CXXConstructorDecl>(F))
        MC->mangleName(GlobalDecl(C, Ctor_Complete), os);
      else if (auto* D = dyn_cast<CXXDestructorDecl>(F))
        MC->mangleName(GlobalDecl(D, Dtor_Complete), os);
      else
        MC->mangleName(GlobalDecl(F), os);
    } else {
      os << qname(F) << "#" << declId(F);
    }
    os.flush();
    // lambdas and internal-linkage functions are unique only within a TU
    bool internal = F->getFormalLinkage() != Linkage::External;
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) internal = true;
    if (internal) {
      s += "@" + SM.getFileEntryForID(SM.getMainFileID())->tryGetRealPathName().str();
      if (auto* M = dyn_cast<CXXMethodDecl>(F))
        if (M->getParent()->isLambda()) s += "%" + std::to_string(declId(F));
    }
    return s;
  }

  // ---- types -----------------------------------------------------------
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    auto it = TypeIds.find(CT.getAsOpaquePtr());
    if (it != TypeIds.end()) return it->second;
    int id = Types.size();
    TypeIds[CT.getAsOpaquePtr()] = id;
    Types.push_back(nullptr);
    json::Object o;
    QualType NR = CT.getNonReferenceType();
    if (CT->isReferenceType()) {
      o["ref"] = CT->isRValueReferenceType() ? 2 : 1;
    }
    o["const"] = NR.isConstQualified();
    if (NR.isVolatileQualified()) o["volatile"] = true;
    QualType U = NR.getUnqualifiedType();
    o["s"] = U.getAsString(PP);
    const Type* t = U.getTypePtr();
    if (t->isBooleanType()) {
      o["k"] = "bool";
    } else if (t->isEnumeralType()) {
      o["k"] = "enum";
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)Ctx.getTypeSize(U);
      o["u"] = t->isUnsignedIntegerType();
    } else if (t->isRealFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)Ctx.getTypeSize(U);
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (t->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = typeId(t->getPointeeType());
    } else if (auto* CA = Ctx.getAsConstantArrayType(U)) {
      o["k"] = "array";
      o["n"] = (int64_t)CA->getSize().getZExtValue();
      o["to"] = typeId(CA->getElementType());
    } else if (auto* R = t->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["rec"] = recName(R);
      o["tn"] = qname(R);
      if (R->isLambda()) o["lambda"] = true;
      if (R->isUnion()) o["union"] = true;
      if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array ta;
        for (auto& A : S->getTemplateArgs().asArray()) targ(A, ta);
        o["targs"] = std::move(ta);
        o["tn"] = qname(S->getSpecializedTemplate());
      }
      Types[id] = json::Object{};  // break cycles
      record(R);
    } else if (t->isFunctionProtoType()) {
      o["k"] = "fn";
      auto* FP = t->getAs<FunctionProtoType>();
      o["ret"] = typeId(FP->getReturnType());
      json::Array ps;
      for (auto p : FP->param_types()) ps.push_back(typeId(p));
      o["params"] = std::move(ps);
    } else {
      o["k"] = "other";
    }
    Types[id] = std::move(o);
    return id;
  }
  void targ(const TemplateArgument& A, json::Array& ta) {
    switch (A.getKind()) {
      case TemplateArgument::Type:
        ta.push_back(json::Object{{"t", typeId(A.getAsType())}});
        break;
      case TemplateArgument::Integral:
        ta.push_back(json::Object{{"v", llvm::toString(A.getAsIntegral(), 10)}});
        break;
      case TemplateArgument::Pack:
        for (auto& B : A.pack_elements()) targ(B, ta);
        break;
      default:
        ta.push_back(json::Object{{"x", "?"}});
    }
  }
  std::string recName(const CXXRecordDecl* R) {
    if (R->isLambda() || !R->getIdentifier())
      return qname(R) + "#" + std::to_string(declId(R)) + "@" +
             SM.getFileEntryForID(SM.getMainFileID())->tryGetRealPathName().str();
    std::string s = Ctx.getTypeDeclType(R).getCanonicalType().getAsString(PP);
    // a name is only unique among the types of namespaces
    const DeclContext* DC = R->getDeclContext();
    bool local = R->isInAnonymousNamespace();
    const FunctionDecl* fn = nullptr;
    for (; DC && !DC->isFileContext(); DC = DC->getParent())
      if (auto* f = dyn_cast<FunctionDecl>(DC)) {
        local = true;
        fn = f;
      }
    if (local) {
      PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(R->getLocation()));
      if (P.isValid()) s += "@" + fileOf(R->getLocation()) + ":" + std::to_string(P.getLine());
      if (fn && fn->isTemplateInstantiation()) s += "#" + fnKey(fn);
    }
    return s;
  }
  void record(const CXXRecordDecl* R) {
    if (R->getDefinition()) R = R->getDefinition();
    if (!RecSeen.insert(R).second) return;
    if (!R->isCompleteDefinition() || R->isDependentContext()) return;
    json::Object o;
    o["qn"] = qname(R);
    bool inr = inRoots(R->getLocation());
    o["repo"] = inr;
    o["loc"] = loc(R->getLocation());
    o["agg"] = R->isAggregate();
    o["union"] = R->isUnion();
    o["trivdtor"] = R->hasTrivialDestructor();
    o["copyable"] = !R->defaultedCopyConstructorIsDeleted();
    if (inr || true) {
      json::Array fs;
      bool isStd = R->isInStdNamespace();
      if (!isStd || inr) {
        for (auto* F : R->fields()) {
          json::Object f{{"n", F->getNameAsString()}, {"t", typeId(F->getType())}};
          f["id"] = declId(F);
          if (F->isMutable()) f["mutable"] = true;
          f["acc"] = (int64_t)F->getAccess();
          if (F->hasInClassInitializer() && F->getInClassInitializer() &&
              (inr || qname(R).rfind("sleipnir::", 0) == 0))
            f["init"] = expr(F->getInClassInitializer());
          fs.push_back(std::move(f));
        }
        json::Array bs;
        for (auto& B : R->bases()) bs.push_back(typeId(B.getType()));
        o["bases"] = std::move(bs);
        json::Array ms;
        if (inr)
          for (auto* M : R->methods()) {
            if (M->isImplicit()) continue;
            ms.push_back(json::Object{{"n", M->getNameAsString()},
                                      {"key", fnKey(M)},
                                      {"acc", (int64_t)M->getAccess()},
                                      {"const", M->isConst()},
                                      {"deleted", M->isDeleted()},
                                      {"loc", loc(M->getLocation())}});
          }
        o["methods"] = std::move(ms);
      }
      o["fields"] = std::move(fs);
    }
    Records[recName(R)] = std::move(o);
  }

  // ---- expressions -----------------------------------------------------
  json::Value expr(const Expr* E) {
    if (!E) return nullptr;
    json::Object o;
    json::Value v = expr2(E);
    return v;
  }
  json::Array args(llvm::ArrayRef<const Expr*> A) {
    json::Array r;
    for (auto* a : A) r.push_back(expr(a));
    return r;
  }
  template <typename R>
  json::Array argsR(R&& A) {
    json::Array r;
    for (auto* a : A) r.push_back(expr(a));
    return r;
  }

  json::Object base(const char* k, const Expr* E) {
    json::Object o;
    o["e"] = k;
    o["t"] = typeId(E->getType());
    if (E->isLValue())
      o["vc"] = "l";
    else if (E->isXValue())
      o["vc"] = "x";
    o["l"] = loc(E->getExprLoc());
    return o;
  }

  bool nothrow(const FunctionDecl* F) {
    if (isa<CXXDestructorDecl>(F)) return true;
    auto* FP = F->getType()->getAs<FunctionProtoType>();
    if (!FP) return false;
    switch (FP->getExceptionSpecType()) {
      case EST_BasicNoexcept:
      case EST_NoexceptTrue:
      case EST_DynamicNone:
      case EST_NoThrow:
        return true;
      default:
        return false;
    }
  }

  json::Object fnRef(const FunctionDecl* F) {
    json::Object o;
    o["key"] = fnKey(F);
    o["qn"] = qname(F);
    o["n"] = F->getNameAsString();
    json::Array ps;
    for (auto* p : F->parameters()) ps.push_back(typeId(p->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = typeId(F->getReturnType());
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = typeId(Ctx.getTypeDeclType(M->getParent()));
      o["static"] = M->isStatic();
      o["constm"] = M->isConst();
      o["defaulted"] = M->isDefaulted();
      o["implicit"] = M->isImplicit();
      o["trivial"] = M->isTrivial();
      o["copy_assign"] = M->isCopyAssignmentOperator();
      o["move_assign"] = M->isMoveAssignmentOperator();
      o["virt"] = M->isVirtual();
    }
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto& A : TA->asArray()) targ(A, ta);
      o["targs"] = std::move(ta);
    }
    o["nx"] = nothrow(F);
    const FunctionDecl* def = nullptr;
    bool has = F->hasBody(def);
    o["body"] = has && def && inRoots(def->getLocation());
    if (has && def && inRoots(def->getLocation()) && !def->isDependentContext()) function(def);
    if (has && def && !def->isDependentContext() && qname(def) == "std::construct_at") {
      // which constructor it calls
      auto key = fnKey(def);
      function(def);
      if (auto it = Functions.find(key); it != Functions.end()) {
        Library[key] = std::move(it->second);
        Functions.erase(it);
      }
    }
    return o;
  }

  json::Value floatLit(const FloatingLiteral* L) {
    llvm::SmallString<64> s;
    StringRef sp = Lexer::getSourceText(CharSourceRange::getTokenRange(L->getSourceRange()), SM,
                                        Ctx.getLangOpts());
    json::Object o = base("float", L);
    o["src"] = sp.str();
    L->getValue().toString(s, 0, 0);
    o["v"] = s.str().str();
    double d = 0;
    bool lost;
    llvm::APFloat f = L->getValue();
    f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lost);
    d = f.convertToDouble();
    o["d"] = d;
    return o;
  }

  json::Value expr2(const Expr* E) {
    // transparent wrappers
    if (auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto* X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
    }
    if (auto* X = dyn_cast<GenericSelectionExpr>(E)) return expr(X->getResultExpr());
    if (auto* X = dyn_cast<ChooseExpr>(E)) return expr(X->getChosenSubExpr());

    if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      auto o = base("temp", E);
      o["sub"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<IntegerLiteral>(E)) {
      auto o = base("int", E);
      o["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType());
      return o;
    }
    if (auto* X = dyn_cast<CharacterLiteral>(E)) {
      auto o = base("int", E);
      o["v"] = std::to_string(X->getValue());
      return o;
    }
    if (auto* X = dyn_cast<FloatingLiteral>(E)) return floatLit(X);
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto o = base("bool", E);
      o["v"] = X->getValue();
      return o;
    }
    if (auto* X = dyn_cast<clang::StringLiteral>(E)) {
      auto o = base("str", E);
      o["v"] = X->isOrdinary() || X->isUTF8() ? json::fixUTF8(X->getString()) : std::string("?");
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base("nullptr", E);
    if (isa<CXXThisExpr>(E)) return base("this", E);
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return base("zero", E);
    if (auto* X = dyn_cast<DeclRefExpr>(E)) return declRef(X);
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      auto o = base("member", E);
      o["base"] = expr(X->getBase());
      o["arrow"] = X->isArrow();
      auto* D = X->getMemberDecl();
      o["n"] = D->getNameAsString();
      if (auto* FD = dyn_cast<FieldDecl>(D)) {
        o["dk"] = "field";
        if (FD->getParent()->isInStdNamespace()) o["std"] = FD->getParent()->getNameAsString();
        if (D->getNameAsString().empty()) o["n"] = "#" + std::to_string(declId(D));
      } else if (auto* V = dyn_cast<VarDecl>(D)) {
        o["dk"] = "var";
        o["qn"] = qname(V);
        staticVar(V);
        o["gid"] = globalKey(V);
      } else if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
        o["dk"] = "method";
        o["fn"] = fnRef(M);
      }
      return o;
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = base("opcall", E);
      o["op"] = getOperatorSpelling(X->getOperator());
      callee(X, o);
      o["args"] = argsR(X->arguments());
      return o;
    }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = base("memcall", E);
      if (auto* M = X->getMethodDecl()) {
        o["fn"] = fnRef(M);
        o["obj"] = expr(X->getImplicitObjectArgument());
        if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) o["arrow"] = ME->isArrow();
      } else {
        o["callee"] = expr(X->getCallee());
      }
      o["args"] = argsR(X->arguments());
      return o;
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      if (auto* PD = dyn_cast<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) {
        auto o = base("pseudodtor", E);
        o["obj"] = expr(PD->getBase());
        o["arrow"] = PD->isArrow();
        return o;
      }
      auto o = base("call", E);
      callee(X, o);
      o["args"] = argsR(X->arguments());
      return o;
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      auto o = base("ctor", E);
      auto* C = X->getConstructor();
      o["fn"] = fnRef(C);
      o["copy"] = C->isCopyConstructor();
      o["move"] = C->isMoveConstructor();
      o["default"] = C->isDefaultConstructor();
      o["trivial"] = C->isTrivial();
      o["user"] = C->isUserProvided();
      o["elide"] = X->isElidable();
      o["list"] = X->isListInitialization();
      o["stdlist"] = X->isStdInitListInitialization();
      o["zeroinit"] = X->requiresZeroInitialization();
      o["args"] = argsR(X->arguments());
      return o;
    }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto o = base("inhctor", E);
      o["fn"] = fnRef(X->getConstructor());
      return o;
    }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr* S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      if (S->isTransparent()) return expr(S->getInit(0));
      auto o = base("init", E);
      o["inits"] = argsR(S->inits());
      if (S->hasArrayFiller()) o["filler"] = expr(S->getArrayFiller());
      if (auto* F = S->getInitializedFieldInUnion()) o["ufield"] = F->getNameAsString();
      return o;
    }
    if (auto* X = dyn_cast<CXXParenListInitExpr>(E)) {
      auto o = base("init", E);
      o["inits"] = argsR(X->getInitExprs());
      return o;
    }
    if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      auto o = base("stdinit", E);
      o["sub"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<CastExpr>(E)) {
      auto o = base("cast", E);
      o["ck"] = X->getCastKindName();
      o["expl"] = isa<ExplicitCastExpr>(X);
      o["sub"] = expr(X->getSubExpr());
      if (auto* CF = X->getConversionFunction()) (void)CF;
      return o;
    }
    if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
      auto o = base("cassign", E);
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      o["ct"] = typeId(X->getComputationResultType());
      o["clt"] = typeId(X->getComputationLHSType());
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
      return o;
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      auto o = base(X->isAssignmentOp() ? "assign" : "bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
      return o;
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      auto o = base("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      o["sub"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<ConditionalOperator>(E)) {
      auto o = base("cond", E);
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
      return o;
    }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = base("sub", E);
      o["base"] = expr(X->getBase());
      o["idx"] = expr(X->getIdx());
      return o;
    }
    if (auto* X = dyn_cast<LambdaExpr>(E)) return lambda(X);
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = base("throw", E);
      o["sub"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      auto o = base("new", E);
      o["at"] = typeId(X->getAllocatedType());
      json::Array pa;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) pa.push_back(expr(X->getPlacementArg(i)));
      o["pl"] = std::move(pa);
      o["init"] = expr(X->getInitializer());
      return o;
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = base("delete", E);
      o["sub"] = expr(X->getArgument());
      return o;
    }
    if (auto* X = dyn_cast<CXXFoldExpr>(E)) {
      (void)X;
      return base("unk:fold", E);
    }
    // anything that is a compile-time constant
    if (!E->isValueDependent()) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, Ctx) && R.Val.isInt()) {
        auto o = base(E->getType()->isBooleanType() ? "bool" : "int", E);
        if (E->getType()->isBooleanType())
          o["v"] = R.Val.getInt().getBoolValue();
        else
          o["v"] = llvm::toString(R.Val.getInt(), 10);
        return o;
      }
    }
    auto o = base("unk", E);
    o["cls"] = E->getStmtClassName();
    return o;
  }

  void callee(const CallExpr* X, json::Object& o) {
    if (auto* F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl())) {
      o["fn"] = fnRef(F);
      o["ismem"] = isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() &&
                   isa<CXXOperatorCallExpr>(X);
    } else {
      o["callee"] = expr(X->getCallee());
    }
  }

  std::string globalKey(const VarDecl* V) {
    std::string s = qname(V);
    if (isa<VarTemplateSpecializationDecl>(V)) {
      s.clear();
      llvm::raw_string_ostream out(s);
      V->getNameForDiagnostic(out, Ctx.getPrintingPolicy(), true);
    }
    if (V->isStaticLocal() || V->getFormalLinkage() != Linkage::External)
      s += "#" + fileOf(V->getLocation()) + "#" + std::to_string(declId(V));
    return s;
  }

  json::Value declRef(const DeclRefExpr* X) {
    auto o = base("ref", X);
    auto* D = X->getDecl();
    o["n"] = D->getNameAsString();
    if (auto* B = dyn_cast<BindingDecl>(D)) {
      o["dk"] = "binding";
      o["id"] = declId(B);
    } else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
      o["dk"] = "enumc";
      o["qn"] = qname(EC);
      o["v"] = llvm::toString(EC->getInitVal(), 10);
    } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
      o["dk"] = "fn";
      o["fn"] = fnRef(F);
    } else if (auto* V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage()) {
        o["dk"] = "global";
        o["qn"] = qname(V);
        o["gid"] = globalKey(V);
        o["id"] = declId(V);
        o["static_local"] = V->isStaticLocal();
        o["constexpr"] = V->isConstexpr();
        staticVar(V);
        if (!V->getType()->isDependentType() && V->getType().isConstQualified() &&
            V->getInit() && !V->getInit()->isValueDependent()) {
          if (auto* val = V->evaluateValue()) {
            if (val->isInt()) o["cv"] = llvm::toString(val->getInt(), 10);
            if (val->isFloat()) {
              llvm::APFloat f = val->getFloat();
              bool lost;
              f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lost);
              o["cvd"] = f.convertToDouble();
            }
          }
        }
      } else {
        o["dk"] = isa<ParmVarDecl>(V) ? "parm" : "var";
        o["id"] = declId(V);
      }
      if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
    } else if (isa<FieldDecl>(D)) {
      o["dk"] = "field";
    } else {
      o["dk"] = "other";
    }
    return o;
  }

  json::Value lambda(const LambdaExpr* X) {
    auto o = base("lambda", X);
    json::Array caps;
    auto initIt = X->capture_init_begin();
    for (auto it = X->capture_begin(); it != X->capture_end(); ++it, ++initIt) {
      json::Object c;
      if (it->capturesThis()) {
        c["k"] = it->getCaptureKind() == LCK_StarThis ? "starthis" : "this";
      } else if (it->capturesVariable()) {
        c["k"] = it->getCaptureKind() == LCK_ByRef ? "ref" : "copy";
        c["id"] = declId(it->getCapturedVar());
        c["n"] = it->getCapturedVar()->getNameAsString();
        c["t"] = typeId(it->getCapturedVar()->getType());
        auto* V = dyn_cast<VarDecl>(it->getCapturedVar());
        c["initcap"] = V && V->isInitCapture();
        if (V && V->isInitCapture())
          c["init"] = expr(V->getInit());
        else
          c["init"] = expr(*initIt);
      } else {
        c["k"] = "vla";
      }
      caps.push_back(std::move(c));
    }
    o["caps"] = std::move(caps);
    json::Array ops;
    auto* CO = X->getCallOperator();
    o["mutable"] = X->isMutable();
    if (auto* FT = CO->getDescribedFunctionTemplate()) {
      o["generic"] = true;
      for (auto* S : FT->specializations()) {
        auto r = fnRef(S);
        ops.push_back(std::move(r));
      }
    } else {
      ops.push_back(fnRef(CO));
    }
    o["ops"] = std::move(ops);
    return o;
  }

  // ---- statements ------------------------------------------------------
  json::Object sbase(const char* k, const Stmt* S) {
    json::Object o;
    o["s"] = k;
    o["l"] = loc(S->getBeginLoc());
    return o;
  }
  json::Value varDecl(const VarDecl* V) {
    json::Object o;
    o["id"] = declId(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeId(V->getType());
    if (V->isStaticLocal()) {
      o["static"] = true;
      o["gid"] = globalKey(V);
      staticVar(V);
    }
    o["init"] = expr(V->getInit());
    if (auto* D = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs;
      for (auto* B : D->bindings()) {
        json::Object b{{"id", declId(B)}, {"n", B->getNameAsString()}};
        if (auto* H = B->getHoldingVar()) {
          b["hold"] = varDecl(H);
          b["hid"] = declId(H);
        } else {
          b["x"] = expr(B->getBinding());
        }
        bs.push_back(std::move(b));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }
  json::Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    if (auto* E = dyn_cast<Expr>(S)) {
      auto o = sbase("expr", S);
      o["x"] = expr(E);
      return o;
    }
    if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto* X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    if (auto* X = dyn_cast<CompoundStmt>(S)) {
      auto o = sbase("block", S);
      json::Array b;
      for (auto* c : X->body()) b.push_back(stmt(c));
      o["b"] = std::move(b);
      return o;
    }
    if (auto* X = dyn_cast<DeclStmt>(S)) {
      auto o = sbase("decl", S);
      json::Array ds;
      for (auto* D : X->decls())
        if (auto* V = dyn_cast<VarDecl>(D)) ds.push_back(varDecl(V));
      o["d"] = std::move(ds);
      return o;
    }
    if (auto* X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) {
        if (auto nd = X->getNondiscardedCase(Ctx)) {
          const Stmt* t = *nd;
          if (!t) return sbase("null", S);
          return stmt(t);
        }
      }
      if (X->isConsteval()) {
        auto o = sbase("unk", S);
        return o;
      }
      auto o = sbase("if", S);
      o["init"] = stmt(X->getInit());
      if (auto* V = X->getConditionVariable()) o["cv"] = varDecl(V);
      o["c"] = expr(X->getCond());
      o["a"] = stmt(X->getThen());
      o["b"] = stmt(X->getElse());
      return o;
    }
    if (auto* X = dyn_cast<ForStmt>(S)) {
      auto o = sbase("for", S);
      o["init"] = stmt(X->getInit());
      if (auto* V = X->getConditionVariable()) o["cv"] = varDecl(V);
      o["c"] = expr(X->getCond());
      o["inc"] = expr(X->getInc());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<WhileStmt>(S)) {
      auto o = sbase("while", S);
      if (auto* V = X->getConditionVariable()) o["cv"] = varDecl(V);
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<DoStmt>(S)) {
      auto o = sbase("do", S);
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = sbase("range", S);
      o["init"] = stmt(X->getInit());
      o["r"] = expr(X->getRangeInit());
      o["v"] = varDecl(X->getLoopVariable());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<ReturnStmt>(S)) {
      auto o = sbase("return", S);
      o["x"] = expr(X->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) return sbase("break", S);
    if (isa<ContinueStmt>(S)) return sbase("continue", S);
    if (isa<NullStmt>(S)) return sbase("null", S);
    if (auto* X = dyn_cast<SwitchStmt>(S)) {
      auto o = sbase("switch", S);
      o["init"] = stmt(X->getInit());
      if (auto* V = X->getConditionVariable()) o["cv"] = varDecl(V);
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto* X = dyn_cast<CaseStmt>(S)) {
      auto o = sbase("case", S);
      o["v"] = expr(X->getLHS());
      o["b"] = stmt(X->getSubStmt());
      return o;
    }
    if (auto* X = dyn_cast<DefaultStmt>(S)) {
      auto o = sbase("default", S);
      o["b"] = stmt(X->getSubStmt());
      return o;
    }
    if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      auto o = sbase("try", S);
      o["b"] = stmt(X->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto* H = X->getHandler(i);
        json::Object h;
        if (H->getExceptionDecl()) h["v"] = varDecl(H->getExceptionDecl());
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return o;
    }
    auto o = sbase("unk", S);
    o["cls"] = S->getStmtClassName();
    return o;
  }

  // ---- declarations ----------------------------------------------------
  void function(const FunctionDecl* F) {
    const FunctionDecl* def = nullptr;
    if (!F->hasBody(def)) return;
    F = def;
    if (F->isDependentContext() || !FnSeen.insert(F).second) return;
    json::Object o;
    o["qn"] = qname(F);
    o["n"] = F->getNameAsString();
    o["loc"] = loc(F->getLocation());
    o["end"] = loc(F->getEndLoc());
    o["rt"] = typeId(F->getReturnType());
    o["defaulted"] = F->isDefaulted();
    o["implicit"] = F->isImplicit();
    json::Array ps;
    for (auto* P : F->parameters())
      ps.push_back(json::Object{
          {"id", declId(P)}, {"n", P->getNameAsString()}, {"t", typeId(P->getType())}});
    o["params"] = std::move(ps);
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto& A : TA->asArray()) targ(A, ta);
      o["targs"] = std::move(ta);
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = typeId(Ctx.getTypeDeclType(M->getParent()));
      o["static"] = M->isStatic();
      o["constm"] = M->isConst();
      o["lambda"] = M->getParent()->isLambda();
      o["acc"] = (int64_t)M->getAccess();
    }
    if (auto* C = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array is;
      for (auto* I : C->inits()) {
        json::Object i;
        if (I->isAnyMemberInitializer()) {
          i["f"] = I->getAnyMember()->getNameAsString();
          i["ft"] = typeId(I->getAnyMember()->getType());
        } else if (I->isBaseInitializer()) {
          i["base"] = typeId(QualType(I->getBaseClass(), 0));
        } else if (I->isDelegatingInitializer()) {
          i["deleg"] = true;
        }
        i["x"] = expr(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
      o["ctor"] = true;
    }
    o["dtor"] = isa<CXXDestructorDecl>(F);
    o["nx"] = nothrow(F);
    o["body"] = stmt(F->getBody());
    Functions[fnKey(F)] = std::move(o);
  }

  void staticVar(const VarDecl* V) {
    if (const VarDecl* D = V->getDefinition()) V = D;
    V = V->getCanonicalDecl();
    if (!V->hasGlobalStorage()) return;
    if (!StaticSeen.insert(V).second) return;
    if (V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) return;
    const VarDecl* Dn = V->getDefinition() ? V->getDefinition() : V;
    if (!inRoots(Dn->getLocation())) return;
    json::Object o;
    o["gid"] = globalKey(V);
    o["qn"] = qname(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeId(V->getType());
    o["constexpr"] = V->isConstexpr();
    o["const"] = V->getType().isConstQualified() || V->isConstexpr();
    o["static_local"] = V->isStaticLocal();
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    o["loc"] = loc(Dn->getLocation());
    o["id"] = declId(V);
    if (auto* FD = dyn_cast_or_null<FunctionDecl>(V->getDeclContext())) o["in"] = qname(FD);
    const Expr* init = Dn->getInit();
    if (init && !init->isValueDependent()) o["init"] = expr(init);
    Statics.push_back(std::move(o));
  }

  json::Object finish() {
    json::Object o;
    o["types"] = std::move(Types);
    o["records"] = std::move(Records);
    o["functions"] = std::move(Functions);
    o["library"] = std::move(Library);
    o["statics"] = std::move(Statics);
    o["main"] = SM.getFileEntryForID(SM.getMainFileID())->tryGetRealPathName().str();
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  explicit V(Dumper& d) : D(d) {}
  Dumper& D;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->isThisDeclarationADefinition() && F->hasBody() && !F->isDependentContext() &&
        D.inRoots(F->getLocation()))
      D.function(F);
    return true;
  }
  bool VisitVarDecl(VarDecl* X) {
    if (X->hasGlobalStorage() && D.inRoots(X->getLocation())) D.staticVar(X);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() &&
        D.inRoots(R->getLocation()))
      D.typeId(D.Ctx.getTypeDeclType(R));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << json::Value(D.finish());
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

// usage: tjx OUT.json ROOT[,ROOT...] FILE -- clang-args...
int main(int argc, char** argv) {
  if (argc < 5) {
    llvm::errs() << "usage: tjx OUT ROOTS FILE -- ARGS\n";
    return 2;
  }
  OutFile = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(',', p);
    if (q == std::string::npos) q = roots.size();
    if (q > p) Roots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> a;
  for (int i = 5; i < argc; ++i) a.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", a);
  tooling::ClangTool T(DB, {std::string(argv[3])});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
