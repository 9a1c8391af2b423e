// ffdump: dumps the resolved program (AST, resolved callees, types, constants,
// clang CFG with implicit destructors) of all functions whose definition lies
// below a root directory as JSON.
//
//   ffdump --root=/repo --prefix=t0 -o out.json file.cpp -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
using namespace clang::tooling;

static llvm::cl::OptionCategory Cat("ffdump");
static llvm::cl::list<std::string> RootOpt("root", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> PrefixOpt("prefix", llvm::cl::cat(Cat), llvm::cl::init("t"));
static llvm::cl::opt<std::string> OutOpt("o", llvm::cl::cat(Cat), llvm::cl::init("-"));

namespace {

struct Json {
  std::string s;
  void raw(llvm::StringRef r) { s.append(r.data(), r.size()); }
  void str(llvm::StringRef r) {
    s.push_back('"');
    for (unsigned char c : r) {
      switch (c) {
        case '"': s += "\\\""; break;
        case '\\': s += "\\\\"; break;
        case '\n': s += "\\n"; break;
        case '\t': s += "\\t"; break;
        case '\r': s += "\\r"; break;
        default:
          if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            s += b;
          } else
            s.push_back((char)c);
      }
    }
    s.push_back('"');
  }
  void key(const char* k) { s.push_back('"'); s += k; s += "\":"; }
  void num(long long v) { s += std::to_string(v); }
};

class Dumper {
public:
  ASTContext* C;
  SourceManager* SM;
  PrintingPolicy PP;
  Json out;
  std::unordered_map<std::string, int> types;
  std::vector<std::string> typeList;
  std::map<const Decl*, std::string> localIds;
  std::set<std::string> doneFns, doneRecs, doneEnums, doneVars;
  std::unordered_map<const Stmt*, int> nodeId;
  int nextNode = 0, nextLocal = 0;
  std::string fnJson, recJson, enumJson, varJson, instJson;
  std::vector<const FunctionDecl*> pending;

  Dumper(ASTContext& c) : C(&c), SM(&c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.TerseOutput = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM->getExpansionLoc(L);
    if (L.isInvalid()) return "";
    PresumedLoc P = SM->getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> p(P.getFilename());
    llvm::sys::fs::make_absolute(p);
    llvm::sys::path::remove_dots(p, true);
    return std::string(p.str());
  }
  int lineOf(SourceLocation L) {
    L = SM->getExpansionLoc(L);
    if (L.isInvalid()) return 0;
    return SM->getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto& r : RootOpt)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  int typeId(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int id = (int)typeList.size();
    types.emplace(s, id);
    typeList.push_back(s);
    return id;
  }

  std::string usr(const Decl* D) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(D, b)) return "";
    return std::string(b.str());
  }

  std::string qname(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    os.flush();
    return s;
  }

  bool isLocal(const ValueDecl* D) {
    if (isa<ParmVarDecl>(D)) return true;
    if (auto* V = dyn_cast<VarDecl>(D)) return V->isLocalVarDeclOrParm() || V->getParentFunctionOrMethod();
    if (isa<BindingDecl>(D)) return true;
    return false;
  }

  std::string declId(const ValueDecl* D) {
    if (isLocal(D)) {
      const Decl* K = D->getCanonicalDecl();
      if (isa<ParmVarDecl>(D)) K = D;
      auto it = localIds.find(K);
      if (it != localIds.end()) return it->second;
      std::string id = PrefixOpt + ":" + std::to_string(nextLocal++);
      localIds.emplace(K, id);
      return id;
    }
    return usr(D);
  }

  static const Expr* strip1(const Expr* E) {
    if (auto* P = dyn_cast<ParenExpr>(E)) return P->getSubExpr();
    if (auto* F = dyn_cast<FullExpr>(E)) return F->getSubExpr();
    if (auto* M = dyn_cast<MaterializeTemporaryExpr>(E)) return M->getSubExpr();
    if (auto* B = dyn_cast<CXXBindTemporaryExpr>(E)) return B->getSubExpr();
    if (auto* S = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return S->getReplacement();
    if (auto* D = dyn_cast<CXXDefaultArgExpr>(E)) return D->getExpr();
    if (auto* D = dyn_cast<CXXDefaultInitExpr>(E)) return D->getExpr();
    if (auto* I = dyn_cast<CXXStdInitializerListExpr>(E)) return I->getSubExpr();
    if (auto* I = dyn_cast<ImplicitCastExpr>(E)) {
      switch (I->getCastKind()) {
        case CK_IntegralCast: case CK_IntegralToBoolean: case CK_IntegralToFloating:
        case CK_FloatingToIntegral: case CK_FloatingCast: case CK_BooleanToSignedIntegral:
        case CK_FloatingToBoolean: case CK_PointerToBoolean:
          return nullptr;
        default:
          return I->getSubExpr();
      }
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      if (X->isElidable() && X->getNumArgs() >= 1) return X->getArg(0);
    }
    if (auto* F = dyn_cast<CXXFunctionalCastExpr>(E)) {
      if (F->getCastKind() == CK_ConstructorConversion || F->getCastKind() == CK_NoOp || F->getCastKind() == CK_UserDefinedConversion)
        return F->getSubExpr();
    }
    if (auto* F = dyn_cast<CXXStaticCastExpr>(E)) {
      if (F->getCastKind() == CK_ConstructorConversion || F->getCastKind() == CK_UserDefinedConversion)
        return F->getSubExpr();
    }
    return nullptr;
  }

  void calleeInfo(const FunctionDecl* FD) {
    out.raw(",");
    out.key("f"); out.str(usr(FD));
    out.raw(",");
    out.key("fn"); out.str(FD->getNameAsString());
    out.raw(",");
    out.key("fq"); out.str(qname(FD));
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      if (M->isVirtual()) out.raw(",\"virt\":1");
      if (M->isStatic()) out.raw(",\"static\":1");
      if (M->isConst()) out.raw(",\"const\":1");
      // lambda call?
      if (M->getParent()->isLambda()) {
        out.raw(",");
        out.key("lam"); out.str(lambdaId(M->getParent()));
      }
    }
    out.raw(",\"pt\":[");
    bool first = true;
    for (auto* P : FD->parameters()) {
      if (!first) out.raw(",");
      first = false;
      out.num(typeId(P->getType()));
    }
    out.raw("]");
    if (FD->isNoReturn()) out.raw(",\"noret\":1");
    if (auto* TA = FD->getTemplateSpecializationArgs()) {
      out.raw(",\"ta\":[");
      bool f = true;
      for (auto& a : TA->asArray()) {
        if (!f) out.raw(",");
        f = false;
        std::string s; llvm::raw_string_ostream os(s);
        a.print(PP, os, true); os.flush();
        out.str(s.size() > 200 ? s.substr(0, 200) : s);
      }
      out.raw("]");
    }
  }

  std::map<const CXXRecordDecl*, std::string> lamIds;
  std::string lambdaId(const CXXRecordDecl* R) {
    R = R->getCanonicalDecl();
    auto it = lamIds.find(R);
    if (it != lamIds.end()) return it->second;
    std::string id = PrefixOpt + ":lam" + std::to_string(lamIds.size());
    lamIds.emplace(R, id);
    return id;
  }

  void child(const Stmt* S, bool& first) {
    if (!first) out.raw(",");
    first = false;
    if (!S) out.raw("null");
    else node(S);
  }

  void varDecl(const VarDecl* V) {
    out.raw("{");
    out.key("d"); out.str(declId(V));
    out.raw(","); out.key("n"); out.str(V->getNameAsString());
    out.raw(","); out.key("t"); out.num(typeId(V->getType()));
    out.raw(","); out.key("l"); out.num(lineOf(V->getLocation()));
    if (V->isStaticLocal()) out.raw(",\"static\":1");
    if (V->isImplicit()) out.raw(",\"impl\":1");
    if (V->getInit() && !V->isCXXForRangeDecl() ) {
      out.raw(","); out.key("init"); node(V->getInit());
    } else if (V->getInit()) {
      out.raw(","); out.key("init"); node(V->getInit());
    }
    out.raw("}");
  }

  // prints node JSON; returns id
  int node(const Stmt* S) {
    // strip
    std::vector<const Stmt*> aliases;
    const Stmt* cur = S;
    while (auto* E = dyn_cast<Expr>(cur)) {
      const Expr* n = strip1(E);
      if (!n) break;
      aliases.push_back(cur);
      cur = n;
    }
    int id = nextNode++;
    nodeId[cur] = id;
    for (auto* a : aliases) nodeId[a] = id;
    out.raw("{");
    out.key("i"); out.num(id);
    int ln = lineOf(cur->getBeginLoc());
    out.raw(","); out.key("l"); out.num(ln);
    if (auto* E = dyn_cast<Expr>(cur)) {
      out.raw(","); out.key("t"); out.num(typeId(E->getType()));
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E) && E->isPRValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, *C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<40> b;
          R.Val.getInt().toString(b, 10);
          out.raw(","); out.key("cv"); out.str(b);
        }
      }
    }
    emit(cur);
    out.raw("}");
    return id;
  }

  void kind(const char* k) { out.raw(","); out.key("k"); out.str(k); }

  void kids(std::initializer_list<const Stmt*> l) {
    out.raw(","); out.key("c"); out.raw("[");
    bool first = true;
    for (auto* s : l) child(s, first);
    out.raw("]");
  }

  void emit(const Stmt* S) {
    switch (S->getStmtClass()) {
      case Stmt::IntegerLiteralClass: {
        kind("Int");
        llvm::SmallString<40> b;
        auto* L = cast<IntegerLiteral>(S);
        L->getValue().toString(b, 10, L->getType()->isSignedIntegerType());
        out.raw(","); out.key("v"); out.str(b);
        return;
      }
      case Stmt::CXXBoolLiteralExprClass:
        kind("Bool"); out.raw(","); out.key("v"); out.num(cast<CXXBoolLiteralExpr>(S)->getValue()); return;
      case Stmt::CharacterLiteralClass:
        kind("Char"); out.raw(","); out.key("v"); out.num(cast<CharacterLiteral>(S)->getValue()); return;
      case Stmt::FloatingLiteralClass: {
        kind("Float");
        llvm::SmallString<32> b;
        cast<FloatingLiteral>(S)->getValue().toString(b);
        out.raw(","); out.key("v"); out.str(b); return;
      }
      case Stmt::StringLiteralClass:
        kind("Str"); out.raw(","); out.key("v");
        if (cast<StringLiteral>(S)->getCharByteWidth() == 1) out.str(cast<StringLiteral>(S)->getString()); else out.str("?");
        return;
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass:
        kind("Null"); return;
      case Stmt::CXXThisExprClass:
        kind("This"); return;
      case Stmt::DeclRefExprClass: {
        auto* D = cast<DeclRefExpr>(S)->getDecl();
        kind("Ref");
        out.raw(","); out.key("d"); out.str(declId(D));
        out.raw(","); out.key("n"); out.str(D->getNameAsString());
        if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
          out.raw(",\"dk\":\"enum\"");
          out.raw(","); out.key("q"); out.str(qname(EC));
        } else if (auto* FD = dyn_cast<FunctionDecl>(D)) {
          out.raw(",\"dk\":\"func\"");
          out.raw(","); out.key("q"); out.str(qname(FD));
        } else if (isa<ParmVarDecl>(D)) out.raw(",\"dk\":\"param\"");
        else if (isLocal(D)) out.raw(",\"dk\":\"local\"");
        else {
          out.raw(",\"dk\":\"global\"");
          out.raw(","); out.key("q"); out.str(qname(D));
          if (auto* VD = dyn_cast<VarDecl>(D)) { if (VD->isStaticDataMember()) out.raw(",\"sm\":1"); }
        }
        return;
      }
      case Stmt::MemberExprClass: {
        auto* M = cast<MemberExpr>(S);
        kind("Member");
        out.raw(","); out.key("m"); out.str(usr(M->getMemberDecl()));
        out.raw(","); out.key("n"); out.str(M->getMemberDecl()->getNameAsString());
        out.raw(","); out.key("q"); out.str(qname(M->getMemberDecl()));
        if (isa<VarDecl>(M->getMemberDecl())) out.raw(",\"sm\":1");
        if (isa<CXXMethodDecl>(M->getMemberDecl())) out.raw(",\"meth\":1");
        if (M->isArrow()) out.raw(",\"arrow\":1");
        if (M->isImplicitAccess()) out.raw(",\"impl\":1");
        kids({M->getBase()});
        return;
      }
      case Stmt::CompoundAssignOperatorClass:
      case Stmt::BinaryOperatorClass: {
        auto* B = cast<BinaryOperator>(S);
        kind(B->isAssignmentOp() ? "Assign" : "Bin");
        out.raw(","); out.key("op"); out.str(B->getOpcodeStr());
        kids({B->getLHS(), B->getRHS()});
        return;
      }
      case Stmt::UnaryOperatorClass: {
        auto* U = cast<UnaryOperator>(S);
        kind("Un");
        out.raw(","); out.key("op");
        out.str(UnaryOperator::getOpcodeStr(U->getOpcode()));
        if (U->isPostfix()) out.raw(",\"post\":1");
        kids({U->getSubExpr()});
        return;
      }
      case Stmt::ConditionalOperatorClass: {
        auto* Q = cast<ConditionalOperator>(S);
        kind("Cond");
        kids({Q->getCond(), Q->getTrueExpr(), Q->getFalseExpr()});
        return;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto* A = cast<ArraySubscriptExpr>(S);
        kind("Sub");
        kids({A->getBase(), A->getIdx()});
        return;
      }
      case Stmt::CXXOperatorCallExprClass:
      case Stmt::CXXMemberCallExprClass:
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto* X = cast<CallExpr>(S);
        kind("Call");
        const FunctionDecl* FD = X->getDirectCallee();
        if (FD) calleeInfo(FD);
        if (auto* O = dyn_cast<CXXOperatorCallExpr>(X)) {
          out.raw(","); out.key("op"); out.str(getOperatorSpelling(O->getOperator()));
          if (O->getOperator() == OO_PlusPlus || O->getOperator() == OO_MinusMinus)
            if (O->getNumArgs() == 2) out.raw(",\"post\":1");
        }
        if (auto* MC = dyn_cast<CXXMemberCallExpr>(X)) {
          if (auto* O = MC->getImplicitObjectArgument()) {
            out.raw(","); out.key("obj"); node(O);
            if (auto* ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
              nodeId[ME] = -2;
              if (ME->isArrow()) out.raw(",\"arrow\":1");
              if (ME->hasQualifier()) out.raw(",\"qual\":1");
            }
          }
        } else if (!FD) {
          out.raw(","); out.key("callee"); node(X->getCallee());
        }
        out.raw(","); out.key("c"); out.raw("[");
        bool first = true;
        for (auto* a : X->arguments()) child(a, first);
        out.raw("]");
        return;
      }
      case Stmt::CXXTemporaryObjectExprClass:
      case Stmt::CXXConstructExprClass: {
        auto* X = cast<CXXConstructExpr>(S);
        kind("Construct");
        calleeInfo(X->getConstructor());
        if (X->getConstructor()->isCopyConstructor()) out.raw(",\"copy\":1");
        if (X->getConstructor()->isMoveConstructor()) out.raw(",\"move\":1");
        out.raw(","); out.key("c"); out.raw("[");
        bool first = true;
        for (auto* a : X->arguments()) child(a, first);
        out.raw("]");
        return;
      }
      case Stmt::CXXScalarValueInitExprClass:
      case Stmt::ImplicitValueInitExprClass:
        kind("ZeroInit"); return;
      case Stmt::CXXNewExprClass: {
        auto* N = cast<CXXNewExpr>(S);
        kind("New");
        out.raw(","); out.key("at"); out.num(typeId(N->getAllocatedType()));
        if (N->isArray()) out.raw(",\"array\":1");
        out.raw(","); out.key("c"); out.raw("[");
        bool first = true;
        if (N->isArray() && N->getArraySize() && *N->getArraySize()) child(*N->getArraySize(), first);
        if (N->getInitializer()) child(N->getInitializer(), first);
        out.raw("]");
        return;
      }
      case Stmt::CXXDeleteExprClass: {
        auto* D = cast<CXXDeleteExpr>(S);
        kind("Delete");
        if (D->isArrayForm()) out.raw(",\"array\":1");
        kids({D->getArgument()});
        return;
      }
      case Stmt::LambdaExprClass: {
        auto* L = cast<LambdaExpr>(S);
        kind("Lambda");
        out.raw(","); out.key("lam"); out.str(lambdaId(L->getLambdaClass()));
        out.raw(","); out.key("caps"); out.raw("[");
        bool first = true;
        for (auto& c : L->captures()) {
          if (!first) out.raw(",");
          first = false;
          out.raw("{");
          if (c.capturesThis()) out.raw("\"this\":1");
          else if (c.capturesVariable()) {
            out.key("d"); out.str(declId(c.getCapturedVar()));
            out.raw(","); out.key("n"); out.str(c.getCapturedVar()->getNameAsString());
            out.raw(","); out.key("ref"); out.num(c.getCaptureKind() == LCK_ByRef);
          } else out.raw("\"other\":1");
          out.raw("}");
        }
        out.raw("]");
        out.raw(","); out.key("c"); out.raw("[");
        first = true;
        for (auto* ci : L->capture_inits()) child(ci, first);
        out.raw("]");
        // call operators
        if (auto* M = L->getCallOperator()) {
          if (!M->isDependentContext()) pending.push_back(M);
          else if (auto* FT = M->getDescribedFunctionTemplate())
            for (auto* sp : FT->specializations()) pending.push_back(sp);
        }
        return;
      }
      case Stmt::InitListExprClass: {
        auto* L = cast<InitListExpr>(S);
        if (L->isSemanticForm() == false && L->getSemanticForm()) L = L->getSemanticForm();
        kind("InitList");
        out.raw(","); out.key("c"); out.raw("[");
        bool first = true;
        for (auto* a : L->inits()) child(a, first);
        out.raw("]");
        return;
      }
      case Stmt::CXXThrowExprClass:
        kind("Throw"); kids({cast<CXXThrowExpr>(S)->getSubExpr()}); return;
      case Stmt::ImplicitCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXDynamicCastExprClass:
      case Stmt::CXXFunctionalCastExprClass: {
        auto* X = cast<CastExpr>(S);
        kind("Cast");
        out.raw(","); out.key("ck"); out.str(X->getCastKindName());
        if (isa<ImplicitCastExpr>(S)) out.raw(",\"impl\":1");
        kids({X->getSubExpr()});
        return;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass:
        kind("SizeOf"); return;
      case Stmt::CompoundStmtClass: {
        kind("Compound");
        out.raw(","); out.key("c"); out.raw("[");
        bool first = true;
        for (auto* s : cast<CompoundStmt>(S)->body()) child(s, first);
        out.raw("]");
        return;
      }
      case Stmt::DeclStmtClass: {
        kind("Decl");
        out.raw(","); out.key("vars"); out.raw("[");
        bool first = true;
        for (auto* D : cast<DeclStmt>(S)->decls())
          if (auto* V = dyn_cast<VarDecl>(D)) {
            if (!first) out.raw(",");
            first = false;
            varDecl(V);
          }
        out.raw("]");
        return;
      }
      case Stmt::IfStmtClass: {
        auto* I = cast<IfStmt>(S);
        kind("If");
        kids({I->getCond(), I->getThen(), I->getElse(), I->getInit(), I->getConditionVariableDeclStmt()});
        return;
      }
      case Stmt::ForStmtClass: {
        auto* F = cast<ForStmt>(S);
        kind("For");
        kids({F->getInit(), F->getCond(), F->getInc(), F->getBody()});
        return;
      }
      case Stmt::WhileStmtClass: {
        auto* W = cast<WhileStmt>(S);
        kind("While");
        kids({W->getCond(), W->getBody()});
        return;
      }
      case Stmt::DoStmtClass: {
        auto* W = cast<DoStmt>(S);
        kind("Do");
        kids({W->getBody(), W->getCond()});
        return;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* F = cast<CXXForRangeStmt>(S);
        kind("ForRange");
        kids({F->getLoopVarStmt(), F->getRangeStmt(), F->getBody(), F->getBeginStmt(), F->getEndStmt(), F->getCond(), F->getInc()});
        return;
      }
      case Stmt::SwitchStmtClass: {
        auto* W = cast<SwitchStmt>(S);
        kind("Switch");
        kids({W->getCond(), W->getBody()});
        return;
      }
      case Stmt::CaseStmtClass: {
        auto* K = cast<CaseStmt>(S);
        kind("Case");
        kids({K->getLHS(), K->getRHS(), K->getSubStmt()});
        return;
      }
      case Stmt::DefaultStmtClass:
        kind("Default"); kids({cast<DefaultStmt>(S)->getSubStmt()}); return;
      case Stmt::ReturnStmtClass:
        kind("Return"); kids({cast<ReturnStmt>(S)->getRetValue()}); return;
      case Stmt::BreakStmtClass: kind("Break"); return;
      case Stmt::ContinueStmtClass: kind("Continue"); return;
      case Stmt::NullStmtClass: kind("NullStmt"); return;
      case Stmt::CXXTryStmtClass: {
        auto* T = cast<CXXTryStmt>(S);
        kind("Try");
        out.raw(","); out.key("c"); out.raw("[");
        bool first = true;
        child(T->getTryBlock(), first);
        for (unsigned i = 0; i != T->getNumHandlers(); ++i) child(T->getHandler(i), first);
        out.raw("]");
        return;
      }
      case Stmt::CXXCatchStmtClass: {
        auto* K = cast<CXXCatchStmt>(S);
        kind("Catch");
        if (K->getExceptionDecl()) { out.raw(","); out.key("vars"); out.raw("["); varDecl(K->getExceptionDecl()); out.raw("]"); }
        kids({K->getHandlerBlock()});
        return;
      }
      default: {
        kind("Other");
        out.raw(","); out.key("cls"); out.str(S->getStmtClassName());
        out.raw(","); out.key("c"); out.raw("[");
        bool first = true;
        for (auto* s : S->children()) child(s, first);
        out.raw("]");
        return;
      }
    }
  }

  int idOf(const Stmt* S) {
    auto it = nodeId.find(S);
    if (it != nodeId.end()) return it->second;
    return -1;
  }

  void cfg(const FunctionDecl* FD) {
    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddEHEdges = false;
    BO.AddTemporaryDtors = false;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), C, BO);
    out.raw(","); out.key("cfg");
    if (!G) { out.raw("null"); return; }
    out.raw("{");
    out.key("entry"); out.num(G->getEntry().getBlockID());
    out.raw(","); out.key("exit"); out.num(G->getExit().getBlockID());
    out.raw(","); out.key("b"); out.raw("[");
    bool fb = true;
    for (const CFGBlock* B : *G) {
      if (!fb) out.raw(",");
      fb = false;
      out.raw("{");
      out.key("id"); out.num(B->getBlockID());
      out.raw(","); out.key("s"); out.raw("[");
      bool f = true;
      for (auto it = B->succ_begin(); it != B->succ_end(); ++it) {
        if (!f) out.raw(",");
        f = false;
        if (const CFGBlock* R = it->getReachableBlock()) out.num(R->getBlockID());
        else out.raw("null");
      }
      out.raw("]");
      out.raw(","); out.key("e"); out.raw("[");
      f = true;
      int last = -5;
      for (const CFGElement& E : *B) {
        if (auto CS = E.getAs<CFGStmt>()) {
          int id = idOf(CS->getStmt());
          if (id < 0) {
            // DeclStmts are split by the CFG: map to var
            if (auto* DS = dyn_cast<DeclStmt>(CS->getStmt())) {
              if (DS->isSingleDecl())
                if (auto* V = dyn_cast<VarDecl>(DS->getSingleDecl())) {
                  if (!f) out.raw(",");
                  f = false;
                  out.raw("[\"V\","); out.str(declId(V)); out.raw("]");
                  last = -5;
                }
            }
            continue;
          }
          if (id == last) continue;
          last = id;
          if (!f) out.raw(",");
          f = false;
          out.raw("[\"S\","); out.num(id); out.raw("]");
        } else if (auto CI = E.getAs<CFGInitializer>()) {
          if (!f) out.raw(",");
          f = false;
          auto* I = CI->getInitializer();
          out.raw("[\"I\","); 
          if (I->isAnyMemberInitializer()) out.str(usr(I->getAnyMember())); else out.str("base");
          out.raw(","); out.num(I->getInit() ? idOf(I->getInit()) : -1);
          out.raw("]");
          last = -5;
        } else if (auto CD = E.getAs<CFGAutomaticObjDtor>()) {
          if (!f) out.raw(",");
          f = false;
          out.raw("[\"D\","); out.str(declId(CD->getVarDecl())); out.raw("]");
          last = -5;
        } else if (auto CD = E.getAs<CFGDeleteDtor>()) {
          (void)CD;
        }
      }
      out.raw("]");
      if (const Stmt* T = B->getTerminatorStmt()) {
        out.raw(","); out.key("t"); out.num(idOf(T));
        out.raw(","); out.key("tk"); out.str(T->getStmtClassName());
      }
      if (const Stmt* T = B->getTerminatorCondition()) { out.raw(","); out.key("cd"); out.num(idOf(T)); }
      if (const Stmt* L = B->getLabel()) { out.raw(","); out.key("lb"); out.num(idOf(L)); }
      if (B->hasNoReturnElement()) out.raw(",\"nr\":1");
      out.raw("}");
    }
    out.raw("]}");
  }

  void function(const FunctionDecl* FD) {
    if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted() && !FD->isDeleted()) return;
    if (FD->isDependentContext()) return;
    if (!inRoot(FD->getLocation())) return;
    if (FD->isInvalidDecl()) return;
    std::string u = usr(FD);
    auto* M = dyn_cast<CXXMethodDecl>(FD);
    bool lam = M && M->getParent()->isLambda();
    if (lam) u = lambdaId(M->getParent()) + "#" + std::to_string((unsigned long)0) + (FD->isTemplateInstantiation() ? u : "");
    if (!doneFns.insert(u).second) return;
    bool hasBody = FD->doesThisDeclarationHaveABody() && FD->getBody() != nullptr;
    out.s.clear();
    out.raw("{");
    out.key("u"); out.str(u);
    out.raw(","); out.key("n"); out.str(FD->getNameAsString());
    out.raw(","); out.key("q"); out.str(qname(FD));
    out.raw(","); out.key("file"); out.str(fileOf(FD->getLocation()));
    out.raw(","); out.key("l"); out.num(lineOf(FD->getLocation()));
    out.raw(","); out.key("ret"); out.num(typeId(FD->getReturnType()));
    if (FD->isDefaulted()) out.raw(",\"defaulted\":1");
    if (FD->isDeleted()) out.raw(",\"deleted\":1");
    if (FD->isImplicit()) out.raw(",\"implicit\":1");
    if (FD->isNoReturn()) out.raw(",\"noret\":1");
    if (FD->isTemplateInstantiation()) out.raw(",\"inst\":1");
    if (lam) { out.raw(","); out.key("lam"); out.str(lambdaId(M->getParent())); }
    if (M) {
      out.raw(","); out.key("rec"); out.str(usr(M->getParent()));
      out.raw(","); out.key("recq"); out.str(qname(M->getParent()));
      out.raw(","); out.key("recn"); out.str(M->getParent()->getNameAsString());
      if (M->isStatic()) out.raw(",\"static\":1");
      if (M->isConst()) out.raw(",\"const\":1");
      if (M->isVirtual()) out.raw(",\"virt\":1");
      const char* acc = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      out.raw(","); out.key("acc"); out.str(acc);
      if (auto* K = dyn_cast<CXXConstructorDecl>(FD)) {
        out.raw(",\"kind\":\"ctor\"");
        if (K->isCopyConstructor()) out.raw(",\"copy\":1");
        if (K->isMoveConstructor()) out.raw(",\"move\":1");
        if (K->isDelegatingConstructor()) out.raw(",\"deleg\":1");
      } else if (isa<CXXDestructorDecl>(FD)) out.raw(",\"kind\":\"dtor\"");
      else {
        out.raw(",\"kind\":\"method\"");
        if (M->isCopyAssignmentOperator()) out.raw(",\"copy\":1");
        if (M->isMoveAssignmentOperator()) out.raw(",\"move\":1");
      }
      std::string ov;
      for (auto* o : M->overridden_methods()) { out.raw(","); out.key("over"); out.str(usr(o)); break; }
    } else out.raw(",\"kind\":\"func\"");
    if (FD->isOverloadedOperator()) { out.raw(","); out.key("op"); out.str(getOperatorSpelling(FD->getOverloadedOperator())); }
    if (auto* TA = FD->getTemplateSpecializationArgs()) {
      out.raw(","); out.key("targs"); out.raw("[");
      bool f = true;
      for (auto& a : TA->asArray()) {
        if (!f) out.raw(",");
        f = false;
        std::string s; llvm::raw_string_ostream os(s);
        a.print(PP, os, true); os.flush();
        out.str(s);
      }
      out.raw("]");
    }
    out.raw(","); out.key("params"); out.raw("[");
    bool f = true;
    for (auto* P : FD->parameters()) {
      if (!f) out.raw(",");
      f = false;
      varDecl(P);
    }
    out.raw("]");
    if (auto* K = dyn_cast<CXXConstructorDecl>(FD)) {
      out.raw(","); out.key("inits"); out.raw("[");
      f = true;
      for (auto* I : K->inits()) {
        if (!f) out.raw(",");
        f = false;
        out.raw("{");
        if (I->isAnyMemberInitializer()) { out.key("m"); out.str(usr(I->getAnyMember())); out.raw(","); out.key("n"); out.str(I->getAnyMember()->getNameAsString()); }
        else if (I->isBaseInitializer()) { out.key("base"); out.num(typeId(QualType(I->getBaseClass(), 0))); }
        else out.raw("\"deleg\":1");
        out.raw(","); out.key("w"); out.num(I->isWritten());
        if (I->getInit()) { out.raw(","); out.key("e"); node(I->getInit()); }
        out.raw("}");
      }
      out.raw("]");
    }
    if (hasBody) {
      out.raw(","); out.key("body"); node(FD->getBody());
      cfg(FD);
    }
    out.raw("}");
    if (!fnJson.empty()) fnJson += ",\n";
    fnJson += out.s;
    out.s.clear();
  }

  void drain() {
    while (!pending.empty()) {
      auto* F = pending.back();
      pending.pop_back();
      function(F);
    }
  }

  void record(const CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    std::string u = usr(R);
    if (!doneRecs.insert(u).second) return;
    out.s.clear();
    out.raw("{");
    out.key("u"); out.str(u);
    out.raw(","); out.key("n"); out.str(R->getNameAsString());
    out.raw(","); out.key("q"); out.str(qname(R));
    out.raw(","); out.key("tn"); out.num(typeId(C->getRecordType(R)));
    out.raw(","); out.key("file"); out.str(fileOf(R->getLocation()));
    out.raw(","); out.key("l"); out.num(lineOf(R->getLocation()));
    out.raw(","); out.key("bases"); out.raw("[");
    bool f = true;
    for (auto& b : R->bases()) {
      if (!f) out.raw(",");
      f = false;
      if (auto* BR = b.getType()->getAsCXXRecordDecl()) out.str(usr(BR)); else out.str("");
    }
    out.raw("]");
    out.raw(","); out.key("fields"); out.raw("[");
    f = true;
    for (auto* F : R->fields()) {
      if (!f) out.raw(",");
      f = false;
      out.raw("{");
      out.key("u"); out.str(usr(F));
      out.raw(","); out.key("n"); out.str(F->getNameAsString());
      out.raw(","); out.key("t"); out.num(typeId(F->getType()));
      out.raw(","); out.key("l"); out.num(lineOf(F->getLocation()));
      if (F->isMutable()) out.raw(",\"mutable\":1");
      out.raw(","); out.key("acc"); out.str(F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private");
      if (F->hasInClassInitializer() && F->getInClassInitializer()) { out.raw(","); out.key("init"); node(F->getInClassInitializer()); }
      out.raw("}");
    }
    out.raw("]");
    out.raw(","); out.key("statics"); out.raw("[");
    f = true;
    for (auto* D : R->decls())
      if (auto* V = dyn_cast<VarDecl>(D)) {
        if (!f) out.raw(",");
        f = false;
        out.raw("{");
        out.key("u"); out.str(usr(V));
        out.raw(","); out.key("n"); out.str(V->getNameAsString());
        out.raw(","); out.key("t"); out.num(typeId(V->getType()));
        out.raw(","); out.key("l"); out.num(lineOf(V->getLocation()));
        if (V->getType().isConstQualified()) out.raw(",\"const\":1");
        out.raw(","); out.key("acc"); out.str(V->getAccess() == AS_public ? "public" : V->getAccess() == AS_protected ? "protected" : "private");
        out.raw("}");
      }
    out.raw("]");
    out.raw(","); out.key("methods"); out.raw("[");
    f = true;
    for (auto* M : R->methods()) {
      if (!f) out.raw(",");
      f = false;
      out.raw("{");
      out.key("u"); out.str(usr(M));
      out.raw(","); out.key("n"); out.str(M->getNameAsString());
      out.raw(","); out.key("acc"); out.str(M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
      if (M->isImplicit()) out.raw(",\"implicit\":1");
      if (M->isDeleted()) out.raw(",\"deleted\":1");
      if (M->isDefaulted()) out.raw(",\"defaulted\":1");
      if (M->isCopyAssignmentOperator()) out.raw(",\"copy\":1");
      if (M->isMoveAssignmentOperator()) out.raw(",\"move\":1");
      if (auto* K = dyn_cast<CXXConstructorDecl>(M)) {
        out.raw(",\"ctor\":1");
        if (K->isCopyConstructor()) out.raw(",\"copy\":1");
        if (K->isMoveConstructor()) out.raw(",\"move\":1");
      }
      if (isa<CXXDestructorDecl>(M)) out.raw(",\"dtor\":1");
      out.raw("}");
    }
    out.raw("]");
    out.raw("}");
    if (!recJson.empty()) recJson += ",\n";
    recJson += out.s;
    out.s.clear();
  }

  void enumd(const EnumDecl* E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation())) return;
    if (E->isDependentContext()) return;
    std::string u = usr(E);
    if (!doneEnums.insert(u).second) return;
    out.s.clear();
    out.raw("{");
    out.key("u"); out.str(u);
    out.raw(","); out.key("q"); out.str(qname(E));
    out.raw(","); out.key("l"); out.num(lineOf(E->getLocation()));
    out.raw(","); out.key("file"); out.str(fileOf(E->getLocation()));
    out.raw(","); out.key("c"); out.raw("[");
    bool f = true;
    for (auto* K : E->enumerators()) {
      if (!f) out.raw(",");
      f = false;
      out.raw("["); out.str(K->getNameAsString()); out.raw(",");
      llvm::SmallString<40> b; K->getInitVal().toString(b, 10);
      out.str(b); out.raw(","); out.str(usr(K)); out.raw("]");
    }
    out.raw("]}");
    if (!enumJson.empty()) enumJson += ",\n";
    enumJson += out.s;
    out.s.clear();
  }

  void globalVar(const VarDecl* V) {
    if (V->isLocalVarDeclOrParm() || V->getParentFunctionOrMethod()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (!inRoot(V->getLocation())) return;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    if (isa<VarTemplateSpecializationDecl>(V)) return;
    std::string u = usr(V);
    if (!doneVars.insert(u).second) return;
    out.s.clear();
    out.raw("{");
    out.key("u"); out.str(u);
    out.raw(","); out.key("n"); out.str(V->getNameAsString());
    out.raw(","); out.key("q"); out.str(qname(V));
    out.raw(","); out.key("t"); out.num(typeId(V->getType()));
    out.raw(","); out.key("l"); out.num(lineOf(V->getLocation()));
    out.raw(","); out.key("file"); out.str(fileOf(V->getLocation()));
    if (V->getType().isConstQualified()) out.raw(",\"const\":1");
    if (V->isStaticDataMember()) out.raw(",\"sm\":1");
    if (V->getInit()) { out.raw(","); out.key("init"); node(V->getInit()); }
    out.raw("}");
    if (!varJson.empty()) varJson += ",\n";
    varJson += out.s;
    out.s.clear();
    drain();
  }

  // explicit instantiation definitions
  void inst(llvm::StringRef what, SourceLocation L) {
    if (!inRoot(L)) return;
    if (!instJson.empty()) instJson += ",";
    Json j;
    j.str(what);
    instJson += j.s;
  }

  void finish(llvm::raw_ostream& os, bool errors) {
    os << "{\"errors\":" << (errors ? 1 : 0) << ",\n\"types\":[";
    for (size_t i = 0; i != typeList.size(); ++i) {
      Json j; j.str(typeList[i]);
      if (i) os << ",";
      os << j.s;
    }
    os << "],\n\"functions\":[" << fnJson << "],\n\"records\":[" << recJson << "],\n\"enums\":[" << enumJson << "],\n\"globals\":[" << varJson << "],\n\"insts\":[" << instJson << "]}\n";
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper& D;
  explicit Visitor(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->getTemplateSpecializationKind() == TSK_ExplicitInstantiationDefinition) {
      D.inst(D.usr(F), F->getPointOfInstantiation().isValid() ? F->getPointOfInstantiation() : F->getLocation());
    }
    D.function(F);
    D.drain();
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R))
      if (S->getSpecializationKind() == TSK_ExplicitInstantiationDefinition) D.inst(D.usr(R), S->getPointOfInstantiation());
    D.record(R); return true;
  }
  bool VisitEnumDecl(EnumDecl* E) { D.enumd(E); return true; }
  bool VisitVarDecl(VarDecl* V) { D.globalVar(V); return true; }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance& CI;
  explicit Consumer(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& Ctx) override {
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    D.drain();
    std::error_code EC;
    llvm::raw_fd_ostream os(OutOpt, EC);
    D.finish(os, CI.getDiagnostics().hasErrorOccurred());
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

} // namespace

int main(int argc, const char** argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
