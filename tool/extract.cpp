// gapp-facts: dumps the type-checked program (all /repo/src functions, including template
// instantiations and lambdas) as JSON: CFG + resolved expression trees + class table.
#include "llvm/Support/xxhash.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("gapp-facts");
static llvm::cl::opt<std::string> OutFile("out", llvm::cl::desc("output file"), llvm::cl::cat(Cat), llvm::cl::Required);
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source roots"), llvm::cl::cat(Cat));

namespace {

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> FileIds;
  std::vector<std::string> Files;
  std::unordered_map<std::string, int> TypeIds;
  Array Types;
  std::unordered_map<const FunctionDecl *, std::string> Keys;
  std::set<std::string> Done;
  std::deque<const FunctionDecl *> Work;
  std::set<const CXXRecordDecl *> RecDone;
  std::deque<const CXXRecordDecl *> RecWork;
  std::map<const VarDecl *, int> GlobIds;
  Array Globals;
  Array Functions;
  Array Records;
  Array TemplatesUnused;

  explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.TerseOutput = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  // ---- locations
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    PresumedLoc PL = SM.getPresumedLoc(L);   // #line directives name the instantiation file
    if (PL.isValid() && StringRef(PL.getFilename()).ends_with("inst.inc")) return PL.getFilename();
    StringRef N = F->getFileEntry().tryGetRealPathName();
    return N.empty() ? F->getName().str() : N.str();
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    for (auto &R : Roots) if (StringRef(F).starts_with(R)) return true;
    return false;
  }
  int fileId(const std::string &F) {
    auto It = FileIds.find(F);
    if (It != FileIds.end()) return It->second;
    int Id = Files.size();
    Files.push_back(F);
    FileIds[F] = Id;
    return Id;
  }
  unsigned line(SourceLocation L) { return L.isInvalid() ? 0 : SM.getPresumedLineNumber(SM.getExpansionLoc(L)); }
  unsigned col(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionColumnNumber(L); }

  std::string macroOf(SourceLocation L) {
    std::string Name;
    while (L.isMacroID()) {
      if (SM.isMacroBodyExpansion(L) || SM.isMacroArgExpansion(L)) {
        StringRef N = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
        if (!N.empty()) Name = N.str();
      }
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return Name;
  }

  // ---- types
  std::string tstr(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    std::string S = CT.getAsString(PP);
    auto It = TypeIds.find(S);
    if (It != TypeIds.end()) return It->second;
    Object O;
    O["s"] = S;
    QualType B = CT;
    if (CT->isLValueReferenceType()) O["ref"] = 1;
    if (CT->isRValueReferenceType()) O["ref"] = 2;
    B = CT.getNonReferenceType();
    if (B.isConstQualified()) O["const"] = true;
    if (B->isPointerType()) { O["ptr"] = true; if (B->getPointeeType().isConstQualified()) O["pconst"] = true; }
    QualType P = B->isPointerType() ? B->getPointeeType() : B;
    const CXXRecordDecl *R = P->getAsCXXRecordDecl();
    if (R) { O["rec"] = recName(R); O["tmpl"] = R->getQualifiedNameAsString(); touchRec(R); 
      if (R->isLambda()) O["lambda"] = key(R->getLambdaCallOperator());
      if (R->hasDefinition()) { if (!R->hasTrivialDestructor()) O["ntdtor"] = true; if (R->isPolymorphic()) O["poly"] = true; 
        Array Bs; std::set<const CXXRecordDecl*> Seen; collectBases(R, Bs, Seen); if (!Bs.empty()) O["bases"] = std::move(Bs); } }
    if (B->isIntegralOrEnumerationType()) O["int"] = true;
    if (B->isBooleanType()) O["bool"] = true;
    if (B->isRealFloatingType()) O["float"] = true;
    int Id = Types.size();
    TypeIds[S] = Id;
    Types.push_back(Value(std::move(O)));
    return Id;
  }
  void collectBases(const CXXRecordDecl *R, Array &Bs, std::set<const CXXRecordDecl*> &Seen) {
    if (!R->hasDefinition()) return;
    for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
      if (!Seen.insert(BR->getCanonicalDecl()).second) continue;
      Bs.push_back(recName(BR)); collectBases(BR, Bs, Seen);
    }
  }
  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda()) return "(lambda:" + std::to_string(line(R->getLocation())) + ":" + std::to_string(col(R->getLocation())) + ":" + llvm::StringRef(fileOf(R->getLocation())).rsplit('/').second.str() + ")";
    return C.getRecordType(R).getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  SourceLocation recLoc(const CXXRecordDecl *R) {
    // an explicit instantiation is located where it is requested; use the template
    if (auto *Pt = R->getTemplateInstantiationPattern()) return Pt->getLocation();
    return R->getLocation();
  }
  // documentation of a function, also when it is declared inside a class template and defined outside
  std::string docOf(const FunctionDecl *F) {
    std::vector<const Decl *> Ds;
    auto add = [&](const FunctionDecl *G) {
      if (!G) return;
      for (auto *R : G->redecls()) { Ds.push_back(R); if (auto *T = R->getDescribedFunctionTemplate()) Ds.push_back(T); }
    };
    auto both = [&](const FunctionDecl *G) {
      for (int i = 0; G && i < 4; i++) { add(G); G = G->getInstantiatedFromMemberFunction(); }
    };
    both(F);
    both(F->getTemplateInstantiationPattern());
    const FunctionTemplateDecl *T = F->getPrimaryTemplate();
    for (int i = 0; T && i < 4; i++) { for (auto *R : T->redecls()) { Ds.push_back(R); Ds.push_back(cast<FunctionTemplateDecl>(R)->getTemplatedDecl()); } T = T->getInstantiatedFromMemberTemplate(); }
    for (auto *D : Ds)
      if (const RawComment *RC = C.getRawCommentForDeclNoCache(D)) {
        StringRef DT = RC->getRawText(C.getSourceManager());
        if (DT.contains("@param")) return DT.str();
      }
    return "";
  }

  void touchRec(const CXXRecordDecl *R) {
    if (!R || !R->hasDefinition()) return;
    R = R->getDefinition();
    if (R->isDependentContext()) return;
    if (!inRoots(recLoc(R))) return;
    if (RecDone.insert(R).second) RecWork.push_back(R);
  }

  // ---- function keys
  // lambdas of different instantiations of a template are different functions
  std::string instance(const CXXRecordDecl *R) {
    if (!R || !R->isLambda()) return "";
    auto *F = dyn_cast<FunctionDecl>(R->getDeclContext());
    if (!F) return "";
    bool T = F->isTemplateInstantiation();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (!M->getParent()->isLambda() && isa<ClassTemplateSpecializationDecl>(M->getParent())) T = true;
    std::string K = key(F);
    if (!T && K.find('#') == std::string::npos) return "";
    return "#" + llvm::utohexstr(llvm::xxh3_64bits(llvm::StringRef(K)), true).substr(0, 8);
  }
  std::string key(const FunctionDecl *F) {
    if (!F) return "";
    const FunctionDecl *Can = F->getCanonicalDecl();
    auto It = Keys.find(Can);
    if (It != Keys.end()) return It->second;
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *M = dyn_cast<CXXMethodDecl>(Can)) {
      OS << recName(M->getParent()) << "::";
      OS << M->getNameAsString();
    } else {
      OS << Can->getQualifiedNameAsString();
    }
    if (auto *TA = Can->getTemplateSpecializationArgs()) {
      OS << "<";
      bool First = true;
      for (auto &A : TA->asArray()) { if (!First) OS << ", "; First = false; A.print(PP, OS, true); }
      OS << ">";
    }
    OS << "(";
    bool First = true;
    for (auto *P : Can->parameters()) { if (!First) OS << ", "; First = false; OS << tstr(P->getType()); }
    OS << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(Can)) { if (M->isConst()) OS << " const"; 
      if (M->getRefQualifier() == RQ_RValue) OS << " &&"; else if (M->getRefQualifier() == RQ_LValue) OS << " &"; }
    SourceLocation L = Can->getLocation();
    bool Internal = Can->getFormalLinkage() == Linkage::Internal || (isa<CXXMethodDecl>(Can) && cast<CXXMethodDecl>(Can)->getParent()->isLambda());
    if (Internal) OS << "@" << llvm::StringRef(fileOf(L)).rsplit('/').second << ":" << line(L) << ":" << col(L);
    if (auto *M = dyn_cast<CXXMethodDecl>(Can)) OS << instance(M->getParent());
    if (auto *TA = Can->getTemplateSpecializationArgs()) for (auto &A : TA->asArray()) if (A.getKind() == TemplateArgument::Type) OS << instance(A.getAsType().getNonReferenceType()->getAsCXXRecordDecl());
    OS.flush();
    Keys[Can] = S;
    return S;
  }
  void enqueue(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def) || !Def) {
      return;
    }
    if (Def->isDependentContext() || Def->isDeleted() || !Def->getBody()) return;
    if (!inRoots(Def->getLocation())) return;
    std::string K = key(Def);
    if (Done.insert(K).second) Work.push_back(Def);
  }

  // ================= per function state
  Array *E = nullptr;                                  // expression table
  std::unordered_map<const Stmt *, int> EIds;
  std::map<const ValueDecl *, int> VIds;
  Array *Vars = nullptr;
  const FunctionDecl *CurF = nullptr;
  int CurFile = -1;

  int globId(const VarDecl *V) {
    V = V->getCanonicalDecl();
    auto It = GlobIds.find(V);
    if (It != GlobIds.end()) return It->second;
    int Id = GlobIds.size();
    GlobIds[V] = Id;
    Object O;
    O["id"] = Id;
    O["qname"] = V->getQualifiedNameAsString();
    O["t"] = type(V->getType());
    const VarDecl *Def = V->getDefinition();
    const VarDecl *D = Def ? Def : V;
    O["file"] = fileId(fileOf(D->getLocation()));
    O["l"] = line(D->getLocation());
    O["const"] = D->getType().isConstQualified() || D->isConstexpr();
    O["constexpr"] = D->isConstexpr();
    O["tls"] = D->getTLSKind() != VarDecl::TLS_None;
    O["local"] = D->isStaticLocal();
    if (Def && !Def->getType()->isDependentType()) {
      const VarDecl *ID = nullptr; const Expr *Init = Def->getAnyInitializer(ID);
      if (Init && !Init->isValueDependent() && !Init->isTypeDependent() && Def->hasGlobalStorage() && !Def->isStaticLocal()) O["cinit"] = Def->hasConstantInitialization();
      if (Init && Def->isConstexpr() && !Init->isValueDependent() && !Init->isTypeDependent()) {
        if (const APValue *AV = Def->evaluateValue()) if (AV->isInt()) { llvm::SmallString<32> SS; AV->getInt().toString(SS, 10); O["cv"] = std::string(SS.str()); }
      }
    }
    O["member"] = D->isStaticDataMember();
    O["repo"] = inRoots(D->getLocation());
    Globals.push_back(Value(std::move(O)));
    return Id;
  }

  int var(const ValueDecl *D) {
    auto It = VIds.find(D);
    if (It != VIds.end()) return It->second;
    int Id = VIds.size();
    VIds[D] = Id;
    Vars->push_back(nullptr);
    Object O;
    O["name"] = D->getNameAsString();
    O["t"] = type(D->getType());
    O["l"] = line(D->getLocation());
    O["c"] = col(D->getLocation());
    if (auto *P = dyn_cast<ParmVarDecl>(D)) {
      O["st"] = "param";
      O["idx"] = (int)P->getFunctionScopeIndex();
      if (P->getDeclContext() != CurF && cast<FunctionDecl>(P->getDeclContext())->getCanonicalDecl() != CurF->getCanonicalDecl()) { O["st"] = "outer"; }
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage()) {
        O["st"] = V->getTLSKind() != VarDecl::TLS_None ? "tls" : V->isStaticLocal() ? "static" : "global";
        O["g"] = globId(V);
        if (V->isStaticLocal() || V->getTLSKind() != VarDecl::TLS_None) O["init_file"] = fileId(fileOf(V->getLocation()));
      } else {
        O["st"] = "local";
        if (V->getDeclContext() != CurF) {
          auto *FD = dyn_cast<FunctionDecl>(V->getDeclContext());
          if (FD && FD->getCanonicalDecl() != CurF->getCanonicalDecl()) O["st"] = "outer";
        }
        if (V->isInitCapture()) O["initcap"] = true;
        if (V->isImplicit() || V->isCXXForRangeDecl()) O["range"] = V->isCXXForRangeDecl();
      }
      if (V->isConstexpr()) O["constexpr"] = true;
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      O["st"] = "binding";
      if (B->getBinding()) O["bind"] = expr(B->getBinding());
      if (B->getDecomposedDecl()) O["of"] = var(B->getDecomposedDecl());
      if (auto *DD = dyn_cast_or_null<DecompositionDecl>(B->getDecomposedDecl())) {
        int I = 0; for (auto *BB : DD->bindings()) { if (BB == B) O["bidx"] = I; ++I; }
      }
    } else O["st"] = "other";
    (*Vars)[Id] = Value(std::move(O));
    return Id;
  }

  const Expr *strip(const Expr *X) {
    while (X) {
      if (auto *P = dyn_cast<ParenExpr>(X)) X = P->getSubExpr();
      else if (auto *I = dyn_cast<ImplicitCastExpr>(X)) {
        if (I->getCastKind() == CK_LValueToRValue && false) break;
        X = I->getSubExpr();
      }
      else if (auto *F = dyn_cast<FullExpr>(X)) X = F->getSubExpr();
      else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(X)) X = M->getSubExpr();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(X)) X = B->getSubExpr();
      else if (auto *S = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) X = S->getReplacement();
      else if (auto *CE = dyn_cast<ConstantExpr>(X)) X = CE->getSubExpr();
      else if (auto *G = dyn_cast<GenericSelectionExpr>(X)) X = G->getResultExpr();
      else break;
    }
    return X;
  }

  int stmtId(const Stmt *S) {
    if (!S) return -1;
    if (auto *X = dyn_cast<Expr>(S)) return expr(X);
    auto It = EIds.find(S);
    if (It != EIds.end()) return It->second;
    return dump(S);
  }
  int expr(const Expr *X) {
    if (!X) return -1;
    X = strip(X);
    auto It = EIds.find(X);
    if (It != EIds.end()) return It->second;
    return dump(X);
  }

  static const char *evalNonThrow(const FunctionDecl *F) { return ""; }
  bool isNoexcept(const FunctionDecl *F) {
    auto *PT = F->getType()->getAs<FunctionProtoType>();
    if (!PT) return false;
    if (isUnresolvedExceptionSpec(PT->getExceptionSpecType())) return false;
    return PT->isNothrow();
  }

  void callee(Object &O, const FunctionDecl *F) {
    if (!F) return;
    enqueue(F);
    O["fn"] = key(F);
    O["qn"] = F->getQualifiedNameAsString();
    if (isNoexcept(F)) O["ne"] = true;
    if (F->isNoReturn()) O["noret"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["stm"] = true;
      O["cls"] = recName(M->getParent());
      touchRec(M->getParent());
    }
    // reference-ness of parameters
    Array Ps;
    for (auto *P : F->parameters()) Ps.push_back(type(P->getType()));
    O["pt"] = std::move(Ps);
  }

  int dump(const Stmt *S) {
    int Id = E->size();
    EIds[S] = Id;
    E->push_back(nullptr);
    Object O;
    SourceLocation L = S->getBeginLoc();
    if (auto *ME = dyn_cast<MemberExpr>(S)) L = ME->getExprLoc();
    else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) L = OC->getOperatorLoc();
    else if (auto *CE = dyn_cast<CXXMemberCallExpr>(S)) L = CE->getExprLoc();
    O["l"] = line(L);
    if (L.isMacroID()) { std::string M = macroOf(L); if (!M.empty()) O["mac"] = M; }
    if (auto *X = dyn_cast<Expr>(S)) { O["t"] = type(X->getType()); if (X->isLValue()) O["lv"] = true; 
      if (!X->isValueDependent() && !X->isTypeDependent() && X->getType()->isIntegralOrEnumerationType() && !isa<CallExpr>(X)) {
        Expr::EvalResult R;
        if (X->isPRValue() && X->EvaluateAsInt(R, C)) { llvm::SmallString<16> Str; R.Val.getInt().toString(Str, 10); O["cv"] = Str.str().str(); }
      } }
    dumpInto(S, O);
    (*E)[Id] = Value(std::move(O));
    return Id;
  }

  void args(Object &O, llvm::ArrayRef<const Expr *> As) {
    Array A;
    for (auto *X : As) A.push_back(expr(X));
    O["args"] = std::move(A);
  }

  void dumpInto(const Stmt *S, Object &O) {
    if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["k"] = "fnref"; callee(O, F); return; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["k"] = "enum"; O["name"] = EC->getQualifiedNameAsString(); return; }
      if (isa<VarDecl>(D) || isa<BindingDecl>(D)) { O["k"] = "var"; O["v"] = var(D); if (X->refersToEnclosingVariableOrCapture()) O["cap"] = true; return; }
      O["k"] = "declref"; O["name"] = D->getNameAsString(); return;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(S)) { O["k"] = "lit"; llvm::SmallString<16> Str; X->getValue().toStringUnsigned(Str); O["v"] = Str.str().str(); return; }
    if (auto *X = dyn_cast<FloatingLiteral>(S)) { O["k"] = "lit"; llvm::SmallString<16> Str; X->getValue().toString(Str); O["v"] = Str.str().str(); return; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) { O["k"] = "lit"; O["v"] = X->getValue() ? "true" : "false"; return; }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { O["k"] = "lit"; O["v"] = "nullptr"; return; }
    if (auto *X = dyn_cast<StringLiteral>(S)) { O["k"] = "str"; O["v"] = X->isOrdinary() ? X->getString().take_front(80).str() : ""; 
      if (!llvm::json::isUTF8(X->isOrdinary() ? X->getString().take_front(80) : "")) O["v"] = ""; return; }
    if (isa<CharacterLiteral>(S)) { O["k"] = "lit"; O["v"] = "chr"; return; }
    if (auto *X = dyn_cast<MemberExpr>(S)) {
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["k"] = "field"; O["name"] = FD->getNameAsString();
        if (FD->isAnonymousStructOrUnion()) O["anon"] = true;
        O["b"] = expr(X->getBase()); O["arrow"] = X->isArrow();
        if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) { O["cls"] = recName(R); touchRec(R); }
        if (FD->isMutable()) O["mut"] = true;
        return;
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { O["k"] = "var"; O["v"] = var(V); return; }
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) { O["k"] = "mref"; callee(O, F); O["b"] = expr(X->getBase()); return; }
    }
    if (isa<CXXThisExpr>(S)) { O["k"] = "this"; return; }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(S)) { 
      O["k"] = "defarg"; O["e"] = expr(X->getExpr()); return; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(S)) { O["k"] = "definit"; O["e"] = expr(X->getExpr()); return; }
    if (auto *X = dyn_cast<LambdaExpr>(S)) {
      O["k"] = "lambda";
      dumpLambda(X, O);
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "ctor"; callee(O, X->getConstructor());
      O["rec"] = recName(X->getConstructor()->getParent());
      std::vector<const Expr *> As(X->arg_begin(), X->arg_end());
      args(O, As);
      if (X->getConstructor()->isCopyConstructor()) O["copy"] = true;
      if (X->getConstructor()->isMoveConstructor()) O["move"] = true;
      if (X->isElidable()) O["elide"] = true;
      if (isa<CXXTemporaryObjectExpr>(S)) O["temp"] = true;
      if (X->isListInitialization()) O["list"] = true;
      return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(S)) { O["k"] = "ctor"; callee(O, X->getConstructor()); O["rec"] = recName(X->getConstructor()->getParent()); args(O, {}); O["inherited"] = true; return; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
      O["k"] = "call";
      const FunctionDecl *F = X->getDirectCallee();
      callee(O, F);
      std::vector<const Expr *> As(X->arg_begin(), X->arg_end());
      O["op"] = getOperatorSpelling(X->getOperator());
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        O["obj"] = expr(As[0]);
        As.erase(As.begin());
        if (cast<CXXMethodDecl>(F)->isVirtual()) O["virt"] = true;
      } else if (F && isa<CXXMethodDecl>(F)) { As.erase(As.begin()); }
      args(O, As);
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
      O["k"] = "call";
      std::vector<const Expr *> As(X->arg_begin(), X->arg_end());
      if (auto *M = X->getMethodDecl()) {
        callee(O, M);
        O["obj"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) O["arrow"] = true;
          if (M->isVirtual()) O["virt"] = !ME->hasQualifier();
        }
        if (auto *Ctx = X->getImplicitObjectArgument()) O["objt"] = type(Ctx->getType());
        if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      } else {
        O["ind"] = expr(X->getCallee());
      }
      args(O, As);
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(S)) {
      O["k"] = "call";
      if (auto *PD = dyn_cast<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) { O["pseudo"] = expr(PD->getBase()); }
      else if (auto *F = X->getDirectCallee()) {
        callee(O, F);
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) O["sobj"] = expr(ME->getBase());
      }
      else O["ind"] = expr(X->getCallee());
      std::vector<const Expr *> As(X->arg_begin(), X->arg_end());
      args(O, As);
      return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(S)) {
      O["k"] = X->isAssignmentOp() ? "assign" : "bin";
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS());
      return;
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(S)) { 
      O["k"] = "wrap"; O["e"] = expr(X->getSemanticForm()); O["op"] = "rewritten"; return; }
    if (auto *X = dyn_cast<UnaryOperator>(S)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["a"] = expr(X->getSubExpr());
      if (X->isPostfix()) O["post"] = true;
      return;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(S)) { O["k"] = "cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr()); return; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(S)) { O["k"] = "sub"; O["a"] = expr(X->getBase()); O["b"] = expr(X->getIdx()); return; }
    if (auto *X = dyn_cast<ExplicitCastExpr>(S)) {
      O["k"] = "cast"; O["ck"] = X->getStmtClassName(); O["cast"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr());
      O["tt"] = type(X->getTypeAsWritten());
      return;
    }
    if (auto *X = dyn_cast<InitListExpr>(S)) {
      O["k"] = "ilist";
      if (X->isSyntacticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      std::vector<const Expr *> As; for (unsigned I = 0; I < X->getNumInits(); ++I) if (X->getInit(I)) As.push_back(X->getInit(I));
      args(O, As);
      if (auto *R = X->getType()->getAsCXXRecordDecl()) { O["rec"] = recName(R); touchRec(R);}
      return;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(S)) { O["k"] = "wrap"; O["e"] = expr(X->getSubExpr()); return; }
    if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      O["k"] = "new"; O["nt"] = type(X->getAllocatedType());
      if (X->getInitializer()) O["init"] = expr(X->getInitializer());
      std::vector<const Expr *> As; for (unsigned I = 0; I < X->getNumPlacementArgs(); ++I) As.push_back(X->getPlacementArg(I));
      args(O, As);
      if (X->isArray()) O["arr"] = true;
      return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(S)) { O["k"] = "delete"; O["a"] = expr(X->getArgument()); return; }
    if (auto *X = dyn_cast<CXXThrowExpr>(S)) { O["k"] = "throw"; if (X->getSubExpr()) O["e"] = expr(X->getSubExpr()); return; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; if (X->getRetValue()) O["e"] = expr(X->getRetValue()); return; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      Array Vs;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          Object VO; VO["v"] = var(V);
          if (V->hasInit()) { VO["init"] = expr(V->getInit()); VO["style"] = (int)V->getInitStyle(); }
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) { Array Bs; for (auto *B : DD->bindings()) Bs.push_back(var(B)); VO["binds"] = std::move(Bs);
            for (auto *B : DD->bindings()) if (auto *H = B->getHoldingVar()) { if (H->hasInit()) expr(H->getInit()); } }
          Vs.push_back(Value(std::move(VO)));
        }
      }
      O["vars"] = std::move(Vs);
      return;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(S)) { O["k"] = "wrap"; if (X->getSourceExpr()) O["e"] = expr(X->getSourceExpr()); return; }
    if (auto *X = dyn_cast<CXXTypeidExpr>(S)) { O["k"] = "typeid"; return; }
    if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) { O["k"] = "zero"; return; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { O["k"] = "lit"; O["v"] = "sizeof"; return; }
    if (isa<TypeTraitExpr>(S) || isa<RequiresExpr>(S) || isa<ConceptSpecializationExpr>(S) || isa<CXXNoexceptExpr>(S) || isa<SizeOfPackExpr>(S)) { O["k"] = "lit"; O["v"] = "const"; return; }
    if (auto *X = dyn_cast<AtomicExpr>(S)) { O["k"] = "atomic"; Array A; for (auto *Ch : X->children()) A.push_back(stmtId(Ch)); O["args"] = std::move(A); return; }
    // generic
    O["k"] = "other"; O["sc"] = S->getStmtClassName();
    Array A;
    if (!isa<CompoundStmt>(S)) for (auto *Ch : S->children()) if (Ch) A.push_back(stmtId(Ch));
    O["args"] = std::move(A);
  }

  void dumpLambda(const LambdaExpr *X, Object &O) {
    const CXXMethodDecl *Op = X->getCallOperator();
    Array Ops;
    if (auto *FT = Op->getDescribedFunctionTemplate()) {
      for (auto *Spec : FT->specializations()) { const FunctionDecl *Def; if (Spec->isDefined(Def)) { enqueue(Spec); Ops.push_back(key(Spec)); } }
      O["generic"] = true;
    } else { enqueue(Op); Ops.push_back(key(Op)); }
    O["ops"] = std::move(Ops);
    O["rec"] = recName(X->getLambdaClass());
    Array Caps;
    unsigned I = 0;
    for (auto &Cp : X->captures()) {
      Object CO;
      if (Cp.capturesThis()) { CO["this"] = true; if (Cp.getCaptureKind() == LCK_StarThis) CO["copy"] = true; }
      else if (Cp.capturesVariable()) { CO["v"] = var(Cp.getCapturedVar()); CO["name"] = Cp.getCapturedVar()->getNameAsString(); if (Cp.getCaptureKind() == LCK_ByRef) CO["ref"] = true; 
        CO["initcap"] = isa<VarDecl>(Cp.getCapturedVar()) && cast<VarDecl>(Cp.getCapturedVar())->isInitCapture(); }
      auto *Init = *(X->capture_init_begin() + I);
      if (Init) CO["init"] = expr(Init);
      ++I;
      Caps.push_back(Value(std::move(CO)));
    }
    O["caps"] = std::move(Caps);
  }

  static std::string accessStr(AccessSpecifier A) { return A == AS_public ? "public" : A == AS_protected ? "protected" : A == AS_private ? "private" : "none"; }

  void dumpFunction(const FunctionDecl *F) {
    const Stmt *Body = F->getBody();
    Object O;
    CurF = F;
    Array Ex, Vs;
    E = &Ex; Vars = &Vs;
    EIds.clear(); VIds.clear();
    O["key"] = key(F);
    O["qn"] = F->getQualifiedNameAsString();
    O["name"] = F->getNameAsString();
    CurFile = fileId(fileOf(F->getLocation()));
    O["file"] = CurFile;
    O["l"] = line(F->getLocation());
    O["c"] = col(F->getLocation());
    O["el"] = line(F->getEndLoc());
    O["ret"] = type(F->getReturnType());
    if (isNoexcept(F)) O["ne"] = true;
    if (F->isNoReturn()) O["noret"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    if (F->isConstexpr()) O["constexpr"] = true;
    { std::string D = docOf(F); if (!D.empty()) O["doc"] = D; }
    Array Ps;
    for (auto *P : F->parameters()) { Ps.push_back(var(P)); }
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["tmpl"] = M->getParent()->getQualifiedNameAsString();
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virtual"] = true;
      if (M->isCopyAssignmentOperator()) O["copyasg"] = true;
      if (M->isMoveAssignmentOperator()) O["moveasg"] = true;
      O["access"] = accessStr(M->getAccess());
      if (M->getParent()->isLambda()) {
        O["lambda"] = true;
        for (const DeclContext *DC = M->getParent()->getDeclContext(); DC; DC = DC->getParent())
          if (auto *PF = dyn_cast<FunctionDecl>(DC)) { if (!PF->isDependentContext()) O["parent"] = key(PF); break; }
      }
      Array Ov; overridden(M, Ov); if (!Ov.empty()) O["over"] = std::move(Ov);
      if (isa<CXXConstructorDecl>(M)) { O["ctor"] = true; auto *CD = cast<CXXConstructorDecl>(M); if (CD->isCopyConstructor()) O["copy"] = true; if (CD->isMoveConstructor()) O["move"] = true; if (CD->isDelegatingConstructor()) O["delegating"] = true; if (CD->isInheritingConstructor()) O["inheriting"] = true; }
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      touchRec(M->getParent());
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array Inits;
      for (auto *I : CD->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) IO["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) { IO["base"] = tstr(QualType(I->getBaseClass(), 0)); }
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["written"] = I->isWritten();
        if (I->getInit()) IO["init"] = expr(I->getInit());
        Inits.push_back(Value(std::move(IO)));
      }
      O["inits"] = std::move(Inits);
    }
    // CFG
    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddInitializers = true;
    BO.AddEHEdges = false;
    BO.AddCXXDefaultInitExprInCtors = false;
    BO.AddScopes = false;
    BO.AddLifetime = false;
    BO.AddStaticInitBranches = false;
    BO.PruneTriviallyFalseEdges = true;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt *>(Body), &C, BO);
    if (!G) {
      O["nocfg"] = true;
    } else {
      O["entry"] = (int)G->getEntry().getBlockID();
      O["exit"] = (int)G->getExit().getBlockID();
      Array Bl;
      for (const CFGBlock *B : *G) {
        Object BO2;
        BO2["id"] = (int)B->getBlockID();
        Array El;
        for (const CFGElement &Elm : *B) {
          if (auto CS = Elm.getAs<CFGStmt>()) {
            const Stmt *S = CS->getStmt();
            if (auto *X = dyn_cast<Expr>(S)) { if (strip(X) != X) continue; }
            El.push_back(stmtId(S));
          } else if (auto CI = Elm.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *I = CI->getInitializer();
            Object IO; IO["k"] = "init";
            if (I->isAnyMemberInitializer()) IO["field"] = I->getAnyMember()->getNameAsString();
            else if (I->isBaseInitializer()) IO["base"] = tstr(QualType(I->getBaseClass(), 0));
            if (I->getInit()) IO["e"] = expr(I->getInit());
            El.push_back(Value(std::move(IO)));
          } else if (auto D = Elm.getAs<CFGAutomaticObjDtor>()) {
            Object IO; IO["k"] = "adtor"; IO["v"] = var(D->getVarDecl()); IO["l"] = D->getTriggerStmt() ? line(D->getTriggerStmt()->getEndLoc()) : 0;
            if (auto *DD = D->getDestructorDecl(C)) { IO["fn"] = key(DD); enqueue(DD); }
            El.push_back(Value(std::move(IO)));
          } else if (auto D = Elm.getAs<CFGTemporaryDtor>()) {
            Object IO; IO["k"] = "tdtor"; IO["e"] = expr(D->getBindTemporaryExpr());
            if (auto *DD = D->getDestructorDecl(C)) { IO["fn"] = key(DD); enqueue(DD); }
            El.push_back(Value(std::move(IO)));
          } else if (auto D = Elm.getAs<CFGMemberDtor>()) {
            Object IO; IO["k"] = "mdtor"; IO["field"] = D->getFieldDecl()->getNameAsString();
            El.push_back(Value(std::move(IO)));
          } else if (auto D = Elm.getAs<CFGBaseDtor>()) {
            Object IO; IO["k"] = "bdtor"; IO["base"] = tstr(D->getBaseSpecifier()->getType());
            El.push_back(Value(std::move(IO)));
          }
        }
        BO2["e"] = std::move(El);
        Array Su;
        for (auto &A : B->succs()) { const CFGBlock *R = A.getReachableBlock(); Su.push_back(R ? (int)R->getBlockID() : -1); }
        BO2["s"] = std::move(Su);
        if (B->hasNoReturnElement()) BO2["nr"] = true;
        if (const Stmt *T = B->getTerminatorStmt()) {
          BO2["term"] = T->getStmtClassName();
          BO2["tl"] = line(T->getBeginLoc());
          if (B->getTerminator().isTemporaryDtorsBranch()) BO2["tdbranch"] = true;
          if (auto *Cd = B->getTerminatorCondition(false)) if (isa<Expr>(Cd)) BO2["cond"] = expr(cast<Expr>(Cd));
          if (isa<CXXTryStmt>(T)) {}
          if (auto *BOp = dyn_cast<BinaryOperator>(T)) BO2["top"] = BOp->getOpcodeStr().str();
        }
        if (const Stmt *Lb = B->getLabel()) { BO2["label"] = Lb->getStmtClassName();
          if (auto *CS = dyn_cast<CXXCatchStmt>(Lb)) { BO2["catch"] = CS->getCaughtType().isNull() ? "..." : tstr(CS->getCaughtType()); BO2["catchl"] = line(CS->getBeginLoc()); 
            if (CS->getExceptionDecl()) var(CS->getExceptionDecl()); } 
          if (auto *CS = dyn_cast<CaseStmt>(Lb)) BO2["case"] = expr(CS->getLHS());
        }
        Bl.push_back(Value(std::move(BO2)));
      }
      O["blocks"] = std::move(Bl);
      // try regions: list of {begin expr-line range, catches}; map each stmt element to innermost try
      Array Tries;
      collectTries(Body, Tries, *G);
      if (auto *CDx = dyn_cast<FunctionDecl>(F)) if (auto *TB = dyn_cast_or_null<CXXTryStmt>(CDx->getBody())) (void)TB;
      if (!Tries.empty()) O["tries"] = std::move(Tries);
    }
    // loops (source structure): list of {kind, init, cond, inc, body range, var}
    Array Loops;
    collectLoops(Body, Loops);
    if (!Loops.empty()) O["loops"] = std::move(Loops);
    O["E"] = std::move(Ex);
    O["V"] = std::move(Vs);
    Functions.push_back(Value(std::move(O)));
  }

  void allExprs(const Stmt *S, std::set<int> &Out) {
    if (!S) return;
    if (auto *X = dyn_cast<Expr>(S)) { auto It = EIds.find(strip(X)); if (It != EIds.end()) Out.insert(It->second); }
    else { auto It = EIds.find(S); if (It != EIds.end()) Out.insert(It->second); }
    if (isa<LambdaExpr>(S)) return;
    for (auto *Ch : S->children()) allExprs(Ch, Out);
  }

  void collectTries(const Stmt *S, Array &Out, CFG &G) {
    if (!S || isa<LambdaExpr>(S)) return;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      Object O;
      std::set<int> Ids; allExprs(T->getTryBlock(), Ids);
      Array A; for (int I : Ids) A.push_back(I);
      O["body"] = std::move(A);
      Array Hs;
      for (unsigned I = 0; I < T->getNumHandlers(); ++I) {
        auto *H = T->getHandler(I);
        for (const CFGBlock *B : G) if (B->getLabel() == H) { Object HO; HO["b"] = (int)B->getBlockID(); HO["t"] = H->getCaughtType().isNull() ? "..." : tstr(H->getCaughtType()); Hs.push_back(Value(std::move(HO))); }
      }
      O["h"] = std::move(Hs);
      Out.push_back(Value(std::move(O)));
    }
    for (auto *Ch : S->children()) collectTries(Ch, Out, G);
  }

  void collectLoops(const Stmt *S, Array &Out) {
    if (!S || isa<LambdaExpr>(S)) return;
    auto push = [&](const char *Kind, const Stmt *Init, const Expr *Cond, const Expr *Inc, const Stmt *Body, const VarDecl *RV, const Expr *Range) {
      Object O; O["k"] = Kind; O["l"] = line(S->getBeginLoc());
      if (Init) O["init"] = stmtId(Init);
      if (Cond) O["cond"] = expr(Cond);
      if (Inc) O["inc"] = expr(Inc);
      if (RV) O["var"] = var(RV);
      if (Range) O["range"] = expr(Range);
      std::set<int> Ids; allExprs(Body, Ids); Array A; for (int I : Ids) A.push_back(I); O["body"] = std::move(A);
      Out.push_back(Value(std::move(O)));
    };
    if (auto *X = dyn_cast<ForStmt>(S)) push("for", X->getInit(), X->getCond(), X->getInc(), X->getBody(), nullptr, nullptr);
    else if (auto *X = dyn_cast<WhileStmt>(S)) push("while", nullptr, X->getCond(), nullptr, X->getBody(), nullptr, nullptr);
    else if (auto *X = dyn_cast<DoStmt>(S)) push("do", nullptr, X->getCond(), nullptr, X->getBody(), nullptr, nullptr);
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) push("range", nullptr, nullptr, nullptr, X->getBody(), X->getLoopVariable(), X->getRangeInit());
    for (auto *Ch : S->children()) collectLoops(Ch, Out);
  }

  void overridden(const CXXMethodDecl *M, Array &Ov) {
    for (auto *B : M->overridden_methods()) { Ov.push_back(key(B)); overridden(B, Ov); }
  }

  void dumpRecord(const CXXRecordDecl *R) {
    Object O;
    O["name"] = recName(R);
    O["tmpl"] = R->getQualifiedNameAsString();
    O["file"] = fileId(fileOf(recLoc(R)));
    O["l"] = line(recLoc(R));
    if (R->isLambda()) O["lambda"] = true;
    if (R->isAbstract()) O["abstract"] = true;
    if (R->isPolymorphic()) O["poly"] = true;
    if (R->isUnion()) O["union"] = true;
    Array Bs;
    for (auto &B : R->bases()) { Object BO; BO["t"] = type(B.getType()); BO["access"] = accessStr(B.getAccessSpecifier()); BO["name"] = B.getType()->getAsCXXRecordDecl() ? recName(B.getType()->getAsCXXRecordDecl()) : tstr(B.getType()); BO["virtual"] = B.isVirtual(); Bs.push_back(Value(std::move(BO))); }
    O["bases"] = std::move(Bs);
    Array Fs;
    for (auto *F : R->fields()) { Object FO; FO["name"] = F->getNameAsString(); FO["t"] = type(F->getType()); FO["l"] = line(F->getLocation()); if (F->isMutable()) FO["mutable"] = true; FO["access"] = accessStr(F->getAccess()); if (F->hasInClassInitializer()) FO["dinit"] = true; Fs.push_back(Value(std::move(FO))); }
    O["fields"] = std::move(Fs);
    Array Ms;
    for (auto *M : R->methods()) {
      Object MO; MO["key"] = key(M); MO["name"] = M->getNameAsString(); MO["access"] = accessStr(M->getAccess());
      if (M->isVirtual()) MO["virtual"] = true; if (M->isPureVirtual()) MO["pure"] = true; if (M->isDeleted()) MO["deleted"] = true; if (M->isDefaulted()) MO["defaulted"] = true; if (M->isConst()) MO["const"] = true; if (M->isStatic()) MO["static"] = true; if (M->isImplicit()) MO["implicit"] = true;
      if (isNoexcept(M)) MO["ne"] = true;
      MO["ret"] = type(M->getReturnType());
      MO["l"] = line(M->getLocation());
      Array Ps; for (auto *P : M->parameters()) Ps.push_back(type(P->getType())); MO["pt"] = std::move(Ps);
      Array Pn; for (auto *P : M->parameters()) Pn.push_back(P->getNameAsString()); MO["pn"] = std::move(Pn);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { MO["ctor"] = true; if (CD->isCopyConstructor()) MO["copy"] = true; if (CD->isMoveConstructor()) MO["move"] = true; if (CD->isExplicit()) MO["explicit"] = true; }
      if (isa<CXXDestructorDecl>(M)) MO["dtor"] = true;
      if (M->isCopyAssignmentOperator()) MO["copyasg"] = true;
      if (M->isMoveAssignmentOperator()) MO["moveasg"] = true;
      Array Ov; overridden(M, Ov); if (!Ov.empty()) MO["over"] = std::move(Ov);
      const FunctionDecl *Def; MO["def"] = M->isDefined(Def);
      enqueue(M);
      Ms.push_back(Value(std::move(MO)));
    }
    O["methods"] = std::move(Ms);
    Records.push_back(Value(std::move(O)));
  }

  void drain() {
    while (!Work.empty() || !RecWork.empty()) {
      if (!Work.empty()) { auto *F = Work.front(); Work.pop_front(); dumpFunction(F); }
      else { auto *R = RecWork.front(); RecWork.pop_front(); dumpRecord(R); }
    }
  }
};

struct Collect : RecursiveASTVisitor<Collect> {
  Dumper &D;
  explicit Collect(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && !F->isDependentContext()) D.enqueue(F);
    if (auto *FT = F->getDescribedFunctionTemplate()) {
      if (F->doesThisDeclarationHaveABody() && D.inRoots(F->getLocation())) {
        bool Any = false;
        for (auto *S : FT->specializations()) { const FunctionDecl *Def; if (S->isDefined(Def)) Any = true; }
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (!Any && !(M && M->getParent()->isLambda()) && !F->getParent()->isDependentContext()) {
          Object O; O["qn"] = F->getQualifiedNameAsString(); O["file"] = D.fileId(D.fileOf(F->getLocation())); O["l"] = D.line(F->getLocation());
          D.TemplatesUnused.push_back(Value(std::move(O)));
        }
      }
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext()) D.touchRec(R); 
    if (R->isThisDeclarationADefinition() && R->getDescribedClassTemplate() && D.inRoots(R->getLocation())) {
      bool Any = false; for (auto *S : R->getDescribedClassTemplate()->specializations()) if (S->isThisDeclarationADefinition()) Any = true;
      if (!Any) { Object O; O["qn"] = R->getQualifiedNameAsString(); O["cls"] = true; O["file"] = D.fileId(D.fileOf(R->getLocation())); O["l"] = D.line(R->getLocation()); D.TemplatesUnused.push_back(Value(std::move(O))); }
    }
    return true; }
  bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage() && D.inRoots(V->getLocation()) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) D.globId(V); return true; }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Collect V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    Object O;
    Array Fl; for (auto &F : D.Files) Fl.push_back(F);
    O["functions"] = std::move(D.Functions);
    O["records"] = std::move(D.Records);
    O["types"] = std::move(D.Types);
    O["globals"] = std::move(D.Globals);
    O["unused_templates"] = std::move(D.TemplatesUnused);
    Array Fl2; for (auto &F : D.Files) Fl2.push_back(F);
    O["files"] = std::move(Fl2);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << Value(std::move(O));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
  auto OP = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!OP) { llvm::errs() << OP.takeError(); return 2; }
  tooling::ClangTool Tool(OP->getCompilations(), OP->getSourcePathList());
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
