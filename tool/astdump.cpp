// astdump: prints, as JSON, the resolved syntax trees of every function defined
// under --root (default /repo/), plus the classes, enums and globals there.
// usage: astdump --root=/repo/ SOURCE -- COMPILER-FLAGS
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo/";

struct Dumper {
   ASTContext &Ctx;
   SourceManager &SM;
   PrintingPolicy PP;
   explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
      PP.SuppressTagKeyword = true;
      PP.FullyQualifiedName = true;
      PP.Bool = true;
      PP.PrintCanonicalTypes = true;
   }
   std::string file(SourceLocation L) {
      L = SM.getExpansionLoc(L);
      auto P = SM.getPresumedLoc(L);
      if (P.isInvalid()) return "";
      return P.getFilename();
   }
   int line(SourceLocation L) {
      L = SM.getExpansionLoc(L);
      auto P = SM.getPresumedLoc(L);
      return P.isInvalid() ? 0 : P.getLine();
   }
   bool inRoot(SourceLocation L) {
      std::string F = file(L);
      return F.compare(0, Root.size(), Root) == 0;
   }
   std::string ty(QualType T) {
      if (T.isNull()) return "";
      return T.getCanonicalType().getAsString(PP);
   }
   std::string usr(const Decl *D) {
      llvm::SmallString<128> B;
      if (index::generateUSRForDecl(D, B)) return "";
      return std::string(B.str());
   }
   std::string declId(const Decl *D) {
      D = D->getCanonicalDecl();
      SourceLocation L = SM.getExpansionLoc(D->getLocation());
      std::string N;
      if (auto *ND = dyn_cast<NamedDecl>(D)) N = ND->getNameAsString();
      unsigned Col = L.isValid() ? SM.getExpansionColumnNumber(L) : 0;
      std::string F = file(D->getLocation());
      auto P = F.rfind('/');
      if (P != std::string::npos) F = F.substr(P + 1);
      return N + "@" + F + ":" + std::to_string(line(D->getLocation())) + ":" + std::to_string(Col);
   }
   std::string qname(const NamedDecl *D) { return D->getQualifiedNameAsString(); }

   void fnRef(json::Object &O, const FunctionDecl *F) {
      O["callee"] = qname(F);
      O["cid"] = declId(F);
      if (auto *P = F->getTemplateInstantiationPattern()) O["pat"] = declId(P);
      O["cty"] = ty(F->getType());
      if (F->isNoReturn()) O["noreturn"] = true;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
         O["cls"] = qname(M->getParent());
         if (M->isVirtual()) O["virt"] = true;
         if (M->isConst()) O["cconst"] = true;
         if (M->isStatic()) O["cstatic"] = true;
         if (isa<CXXConversionDecl>(M)) O["conv"] = true;
      }
      json::Array PT;
      for (auto *P : F->parameters()) PT.push_back(ty(P->getType()));
      O["pt"] = std::move(PT);
      if (F->isTemplateInstantiation())
         if (auto *TA = F->getTemplateSpecializationArgs()) {
            json::Array A;
            for (auto &X : TA->asArray())
               if (X.getKind() == TemplateArgument::Type) A.push_back(ty(X.getAsType()));
            O["targs"] = std::move(A);
         }
   }

   json::Value null() { return json::Value(nullptr); }

   const Expr *strip(const Expr *E) {
      while (E) {
         if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
         else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
         else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
         else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
         else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
         else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) E = X->getSubExpr();
         else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
         else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
         else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
         else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
            if (X->getCastKind() == CK_ConstructorConversion) E = X->getSubExpr();
            else break;
         }
         else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            // elide copy/move construction of a temporary
            if (X->getNumArgs() == 1 && X->isElidable()) E = X->getArg(0);
            else break;
         } else break;
      }
      return E;
   }

   json::Array exprs(const Expr *const *A, unsigned N) {
      json::Array R;
      for (unsigned I = 0; I < N; I++) R.push_back(expr(A[I]));
      return R;
   }

   json::Value expr(const Expr *E0) {
      if (!E0) return null();
      bool defArg = isa<CXXDefaultArgExpr>(E0);
      const Expr *E = strip(E0);
      if (!E) return null();
      json::Object O;
      O["l"] = line(E->getExprLoc());
      O["t"] = ty(E->getType());
      if (defArg) O["defarg"] = true;
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType()
          && !isa<IntegerLiteral>(E)) {
         Expr::EvalResult R;
         if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects))
            { auto &AI = R.Val.getInt(); if (AI.isRepresentableByInt64()) O["cv"] = AI.getExtValue(); }
      }
      auto K = [&](const char *S) { O["k"] = S; };
      if (auto *X = dyn_cast<IntegerLiteral>(E)) { K("int"); O["v"] = X->getValue().getLimitedValue(INT64_MAX); }
      else if (auto *X = dyn_cast<FloatingLiteral>(E)) { K("float"); O["v"] = X->getValueAsApproximateDouble(); }
      else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { K("bool"); O["v"] = X->getValue(); }
      else if (auto *X = dyn_cast<CharacterLiteral>(E)) { K("char"); O["v"] = (int64_t)X->getValue(); }
      else if (auto *X = dyn_cast<StringLiteral>(E)) { K("str"); std::string S = X->isOrdinary() || X->isUTF8() ? X->getString().str() : "?"; O["v"] = json::fixUTF8(S); }
      else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { K("null"); }
      else if (isa<CXXThisExpr>(E)) { K("this"); }
      else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
         K("ref");
         const ValueDecl *D = X->getDecl();
         O["n"] = D->getNameAsString();
         O["id"] = declId(D);
         if (auto *V = dyn_cast<VarDecl>(D)) {
            O["dk"] = isa<ParmVarDecl>(V) ? "param" : V->isLocalVarDecl() ? (V->isStaticLocal() ? "slocal" : "local") : "global";
            if (!V->isLocalVarDecl() && !isa<ParmVarDecl>(V)) O["q"] = qname(V);
         } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
            O["dk"] = "enum"; O["q"] = qname(EC);
         } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
            O["dk"] = "func"; fnRef(O, F);
         } else O["dk"] = "other";
      }
      else if (auto *X = dyn_cast<MemberExpr>(E)) {
         K("mem");
         const ValueDecl *D = X->getMemberDecl();
         O["n"] = D->getNameAsString();
         O["id"] = declId(D);
         if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "method"; fnRef(O, F); }
         else { O["dk"] = isa<VarDecl>(D) ? "smember" : "field"; O["q"] = qname(D);
            if (auto *FD = dyn_cast<FieldDecl>(D)) O["cls"] = qname(FD->getParent()); }
         O["arrow"] = X->isArrow();
         O["b"] = expr(X->getBase());
      }
      else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
         K("mcall");
         if (auto *M = X->getMethodDecl()) fnRef(O, M);
         O["obj"] = expr(X->getImplicitObjectArgument());
         if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts()))
            { O["arrow"] = ME->isArrow(); if (ME->hasQualifier()) O["qual"] = true; }
         O["a"] = exprs(X->getArgs(), X->getNumArgs());
      }
      else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
         K("opcall");
         O["op"] = getOperatorSpelling(X->getOperator());
         if (auto *F = X->getDirectCallee()) fnRef(O, F);
         O["a"] = exprs(X->getArgs(), X->getNumArgs());
      }
      else if (auto *X = dyn_cast<CallExpr>(E)) {
         K("call");
         if (auto *F = X->getDirectCallee()) fnRef(O, F);
         else O["fn"] = expr(X->getCallee());
         O["a"] = exprs(X->getArgs(), X->getNumArgs());
      }
      else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
         K("ctor");
         O["cls"] = qname(X->getConstructor()->getParent());
         fnRef(O, X->getConstructor());
         if (X->getConstructor()->isCopyConstructor()) O["copy"] = true;
         if (X->getConstructor()->isMoveConstructor()) O["move"] = true;
         O["a"] = exprs(X->getArgs(), X->getNumArgs());
      }
      else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
         K("new");
         O["at"] = ty(X->getAllocatedType());
         if (X->isArray()) O["size"] = X->getArraySize() && *X->getArraySize() ? expr(*X->getArraySize()) : null();
         if (X->getInitializer()) O["init"] = expr(X->getInitializer());
      }
      else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { K("delete"); O["array"] = X->isArrayForm(); O["e"] = expr(X->getArgument()); }
      else if (auto *X = dyn_cast<UnaryOperator>(E)) { K("un"); O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix(); O["e"] = expr(X->getSubExpr()); }
      else if (auto *X = dyn_cast<BinaryOperator>(E)) { K(X->isAssignmentOp() ? "assign" : "bin"); O["op"] = X->getOpcodeStr().str(); O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS()); }
      else if (auto *X = dyn_cast<ConditionalOperator>(E)) { K("cond"); O["c"] = expr(X->getCond()); O["x"] = expr(X->getTrueExpr()); O["y"] = expr(X->getFalseExpr()); }
      else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { K("sub"); O["x"] = expr(X->getBase()); O["y"] = expr(X->getIdx()); }
      else if (auto *X = dyn_cast<CastExpr>(E)) { K("cast"); O["ck"] = X->getCastKindName(); O["cst"] = X->getStmtClassName(); O["e"] = expr(X->getSubExpr()); }
      else if (auto *X = dyn_cast<InitListExpr>(E)) { K("ilist"); json::Array A; for (auto *I : X->inits()) A.push_back(expr(I)); O["a"] = std::move(A); }
      else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { K("sizeof"); O["st"] = ty(X->getTypeOfArgument()); }
      else if (auto *X = dyn_cast<LambdaExpr>(E)) {
         K("lambda");
         json::Array C;
         for (auto &Cp : X->captures()) {
            json::Object CO;
            if (Cp.capturesThis()) CO["n"] = "this";
            else if (Cp.capturesVariable()) { CO["n"] = Cp.getCapturedVar()->getNameAsString(); CO["id"] = declId(Cp.getCapturedVar()); }
            CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
            C.push_back(std::move(CO));
         }
         O["cap"] = std::move(C);
         json::Array P;
         for (auto *Pm : X->getCallOperator()->parameters()) P.push_back(param(Pm));
         O["params"] = std::move(P);
         O["body"] = stmt(X->getBody());
         O["cid"] = declId(X->getCallOperator());
      }
      else if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) { K("dmem"); O["n"] = X->getMember().getAsString(); if (!X->isImplicitAccess()) O["b"] = expr(X->getBase()); }
      else if (auto *X = dyn_cast<OverloadExpr>(E)) { K("ovl"); O["n"] = X->getName().getAsString(); }
      else if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) { K("uctor"); json::Array A; for (auto *I : X->arguments()) A.push_back(expr(I)); O["a"] = std::move(A); }
      else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { K("zero"); }
      else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { K("throw"); O["e"] = expr(X->getSubExpr()); }
      else if (auto *X = dyn_cast<PredefinedExpr>(E)) { K("str"); O["v"] = json::fixUTF8(X->getFunctionName() ? X->getFunctionName()->getString().str() : ""); }
      else {
         K("other"); O["cls_"] = E->getStmtClassName();
         json::Array A;
         for (auto *C : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(C)) A.push_back(expr(CE));
         O["a"] = std::move(A);
      }
      return O;
   }

   json::Object param(const ParmVarDecl *P) {
      json::Object O;
      O["n"] = P->getNameAsString(); O["id"] = declId(P); O["t"] = ty(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) O["def"] = expr(P->getDefaultArg());
      return O;
   }
   json::Object var(const VarDecl *V) {
      json::Object O;
      O["k"] = "var"; O["n"] = V->getNameAsString(); O["id"] = declId(V); O["t"] = ty(V->getType());
      O["l"] = line(V->getLocation());
      if (V->isStaticLocal()) O["static"] = true;
      if (V->getInit()) O["init"] = expr(V->getInit());
      return O;
   }

   json::Value stmt(const Stmt *S) {
      if (!S) return null();
      if (auto *E = dyn_cast<Expr>(S)) {
         json::Object O; O["k"] = "expr"; O["l"] = line(E->getExprLoc()); O["e"] = expr(E);
         return O;
      }
      json::Object O;
      O["l"] = line(S->getBeginLoc());
      auto K = [&](const char *Z) { O["k"] = Z; };
      if (auto *X = dyn_cast<CompoundStmt>(S)) { K("block"); json::Array A; for (auto *C : X->body()) A.push_back(stmt(C)); O["s"] = std::move(A); O["le"] = line(X->getEndLoc()); }
      else if (auto *X = dyn_cast<DeclStmt>(S)) {
         K("decl"); json::Array A;
         for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
         O["v"] = std::move(A);
      }
      else if (auto *X = dyn_cast<IfStmt>(S)) { K("if"); O["init"] = stmt(X->getInit()); O["cvar"] = X->getConditionVariable() ? json::Value(var(X->getConditionVariable())) : null(); O["c"] = expr(X->getCond()); O["th"] = stmt(X->getThen()); O["el"] = stmt(X->getElse()); }
      else if (auto *X = dyn_cast<ForStmt>(S)) { K("for"); O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["body"] = stmt(X->getBody()); }
      else if (auto *X = dyn_cast<WhileStmt>(S)) { K("while"); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); }
      else if (auto *X = dyn_cast<DoStmt>(S)) { K("do"); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); }
      else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { K("rfor"); O["var"] = var(X->getLoopVariable()); O["range"] = expr(X->getRangeInit()); O["body"] = stmt(X->getBody()); }
      else if (auto *X = dyn_cast<SwitchStmt>(S)) { K("switch"); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); O["allenum"] = X->isAllEnumCasesCovered(); }
      else if (auto *X = dyn_cast<CaseStmt>(S)) { K("case"); O["v"] = expr(X->getLHS()); O["s"] = stmt(X->getSubStmt()); }
      else if (auto *X = dyn_cast<DefaultStmt>(S)) { K("default"); O["s"] = stmt(X->getSubStmt()); }
      else if (isa<BreakStmt>(S)) K("break");
      else if (isa<ContinueStmt>(S)) K("continue");
      else if (auto *X = dyn_cast<ReturnStmt>(S)) { K("return"); O["e"] = expr(X->getRetValue()); }
      else if (isa<NullStmt>(S)) K("nop");
      else if (auto *X = dyn_cast<LabelStmt>(S)) { K("label"); O["n"] = X->getName(); O["s"] = stmt(X->getSubStmt()); }
      else if (auto *X = dyn_cast<GotoStmt>(S)) { K("goto"); O["n"] = X->getLabel()->getNameAsString(); }
      else if (auto *X = dyn_cast<CXXTryStmt>(S)) { K("try"); O["body"] = stmt(X->getTryBlock()); json::Array A; for (unsigned I = 0; I < X->getNumHandlers(); I++) A.push_back(stmt(X->getHandler(I)->getHandlerBlock())); O["h"] = std::move(A); }
      else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
      else { K("otherstmt"); O["cls_"] = S->getStmtClassName(); }
      return O;
   }

   json::Object func(const FunctionDecl *F) {
      json::Object O;
      O["name"] = qname(F); O["id"] = declId(F); O["usr"] = usr(F);
      if (auto *P = F->getTemplateInstantiationPattern()) O["pat"] = declId(P);
      if (F->isTemplateInstantiation()) if (auto *TA = F->getTemplateSpecializationArgs()) {
         json::Array A; for (auto &X : TA->asArray()) if (X.getKind() == TemplateArgument::Type) A.push_back(ty(X.getAsType()));
         O["targs"] = std::move(A);
      }
      O["dependent"] = F->isDependentContext();
      O["file"] = file(F->getLocation()); O["line"] = line(F->getLocation());
      O["end"] = line(F->getEndLoc());
      O["ret"] = ty(F->getReturnType()); O["type"] = ty(F->getType());
      json::Array P;
      for (auto *Pm : F->parameters()) P.push_back(param(Pm));
      O["params"] = std::move(P);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
         O["cls"] = qname(M->getParent()); O["const"] = M->isConst(); O["virtual"] = M->isVirtual(); O["mstatic"] = M->isStatic();
         O["implicit"] = M->isImplicit(); O["defaulted"] = M->isDefaulted();
         json::Array Ov;
         for (auto *B : M->overridden_methods()) Ov.push_back(qname(B) + " " + ty(B->getType()));
         O["overrides"] = std::move(Ov);
         O["access"] = (int64_t)M->getAccess();
         if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
            O["kind"] = "ctor";
            json::Array I;
            for (auto *In : C->inits()) {
               json::Object IO;
               if (In->isAnyMemberInitializer()) { IO["field"] = In->getAnyMember()->getNameAsString(); IO["id"] = declId(In->getAnyMember()); }
               else if (In->isBaseInitializer()) IO["base"] = ty(QualType(In->getBaseClass(), 0));
               else IO["delegating"] = true;
               IO["written"] = In->isWritten();
               IO["e"] = expr(In->getInit());
               IO["l"] = line(In->getSourceLocation());
               I.push_back(std::move(IO));
            }
            O["inits"] = std::move(I);
         } else if (isa<CXXDestructorDecl>(M)) O["kind"] = "dtor";
         else O["kind"] = "method";
      } else O["kind"] = "function";
      O["static"] = F->getStorageClass() == SC_Static;
      O["body"] = stmt(F->getBody());
      return O;
   }

   json::Object record(const CXXRecordDecl *R) {
      json::Object O;
      O["name"] = qname(R); O["file"] = file(R->getLocation()); O["line"] = line(R->getLocation());
      O["dependent"] = R->isDependentContext();
      O["abstract"] = R->isAbstract();
      json::Array B;
      for (auto &X : R->bases()) B.push_back(ty(X.getType()));
      O["bases"] = std::move(B);
      json::Array F;
      for (auto *D : R->fields()) {
         json::Object FO; FO["n"] = D->getNameAsString(); FO["t"] = ty(D->getType()); FO["l"] = line(D->getLocation()); FO["id"] = declId(D);
         FO["access"] = (int64_t)D->getAccess();
         if (D->hasInClassInitializer()) FO["init"] = expr(D->getInClassInitializer());
         F.push_back(std::move(FO));
      }
      O["fields"] = std::move(F);
      json::Array M;
      for (auto *D : R->methods()) {
         json::Object MO; MO["n"] = D->getNameAsString(); MO["t"] = ty(D->getType()); MO["virtual"] = D->isVirtual(); MO["pure"] = D->isPureVirtual();
         MO["deleted"] = D->isDeleted(); MO["implicit"] = D->isImplicit(); MO["defaulted"] = D->isDefaulted(); MO["defined"] = D->isDefined(); MO["id"] = declId(D);
         MO["l"] = line(D->getLocation());
         if (auto *C = dyn_cast<CXXConstructorDecl>(D)) { MO["ctor"] = true; MO["copy"] = C->isCopyConstructor(); }
         if (isa<CXXDestructorDecl>(D)) MO["dtor"] = true;
         if (D->isCopyAssignmentOperator()) MO["copyassign"] = true;
         json::Array Ov;
         for (auto *X : D->overridden_methods()) Ov.push_back(qname(X));
         MO["overrides"] = std::move(Ov);
         M.push_back(std::move(MO));
      }
      O["methods"] = std::move(M);
      O["has_copy_ctor"] = R->hasUserDeclaredCopyConstructor();
      O["has_copy_assign"] = R->hasUserDeclaredCopyAssignment();
      O["has_dtor"] = R->hasUserDeclaredDestructor();
      return O;
   }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
   Dumper &D;
   json::Array Funcs, Recs, Enums, Globals;
   explicit Visitor(Dumper &D) : D(D) {}
   bool shouldVisitTemplateInstantiations() const { return true; }
   bool shouldVisitImplicitCode() const { return false; }
   bool VisitFunctionDecl(FunctionDecl *F) {
      if (!F->isThisDeclarationADefinition() || !F->hasBody() || !D.inRoot(F->getLocation())) return true;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
      Funcs.push_back(D.func(F));
      return true;
   }
   bool VisitCXXRecordDecl(CXXRecordDecl *R) {
      if (!R->isThisDeclarationADefinition() || R->isLambda() || !D.inRoot(R->getLocation())) return true;
      Recs.push_back(D.record(R));
      return true;
   }
   bool VisitEnumDecl(EnumDecl *E) {
      if (!E->isThisDeclarationADefinition() || !D.inRoot(E->getLocation())) return true;
      json::Object O; O["name"] = D.qname(E); O["line"] = D.line(E->getLocation()); O["file"] = D.file(E->getLocation());
      json::Array C; for (auto *X : E->enumerators()) { json::Object CO; CO["n"] = X->getNameAsString(); CO["v"] = X->getInitVal().isRepresentableByInt64() ? X->getInitVal().getExtValue() : INT64_MAX; C.push_back(std::move(CO)); }
      O["consts"] = std::move(C); Enums.push_back(std::move(O));
      return true;
   }
   bool VisitVarDecl(VarDecl *V) {
      if (V->isLocalVarDecl() || isa<ParmVarDecl>(V) || !D.inRoot(V->getLocation())) return true;
      json::Object O = D.var(V); O["q"] = D.qname(V); O["file"] = D.file(V->getLocation()); O["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
      Globals.push_back(std::move(O));
      return true;
   }
};

struct Consumer : ASTConsumer {
   void HandleTranslationUnit(ASTContext &C) override {
      Dumper D(C);
      Visitor V(D);
      V.TraverseDecl(C.getTranslationUnitDecl());
      json::Object O;
      O["functions"] = std::move(V.Funcs); O["records"] = std::move(V.Recs); O["enums"] = std::move(V.Enums); O["globals"] = std::move(V.Globals);
      O["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
      llvm::outs() << json::Value(std::move(O)) << "\n";
   }
};
struct Action : ASTFrontendAction {
   std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char **argv) {
   std::string Err;
   auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv, Err);
   if (!DB) { llvm::errs() << "no flags\n" << Err; return 2; }
   std::vector<std::string> Src;
   for (int I = 1; I < argc; I++) {
      std::string A = argv[I];
      if (A.rfind("--root=", 0) == 0) Root = A.substr(7);
      else Src.push_back(A);
   }
   tooling::ClangTool T(*DB, Src);
   return T.run(tooling::newFrontendActionFactory<Action>().get());
}
