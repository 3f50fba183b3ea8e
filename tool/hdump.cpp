// hdump: dump the resolved (type-checked, instantiated) program of one
// translation unit as JSON.  Only declarations whose definition lies below
// the given root directory are dumped.  The analyses in ../hv consume this.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>

using namespace clang;

static std::string Root;
static std::string OutFile;

struct J {
   std::string s;
   static void esc(std::string& o, llvm::StringRef in) {
      o += '"';
      for (unsigned char c : in) {
         if (c == '"' || c == '\\') { o += '\\'; o += c; }
         else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
         else if (c >= 0x80) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
         else o += c;
      }
      o += '"';
   }
};

class Dumper : public RecursiveASTVisitor<Dumper> {
   ASTContext& C;
   SourceManager& SM;
   ASTNameGenerator Names;
   PrintingPolicy PP;
   std::map<std::string,int> types;
   std::vector<std::string> typeList;
   std::map<const ValueDecl*, int> ids;
   std::set<const Decl*> seen;
   std::map<std::string,int> files;
   std::vector<std::string> fileList;
public:
   std::string funcs, records, enums, globals;

   explicit Dumper(ASTContext& c)
      : C(c), SM(c.getSourceManager()), Names(c), PP(c.getPrintingPolicy()) {
      PP.SuppressTagKeyword = true;
      PP.FullyQualifiedName = true;
      PP.Bool = true;
   }
   bool shouldVisitTemplateInstantiations() const { return true; }
   bool shouldVisitImplicitCode() const { return false; }
   bool shouldVisitLambdaBody() const { return false; }

   std::string fileOf(SourceLocation L) {
      auto E = SM.getExpansionLoc(L);
      auto F = SM.getFilename(E);
      return F.str();
   }
   unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
   bool inRoot(const Decl* D) {
      auto f = fileOf(D->getLocation());
      return llvm::StringRef(f).starts_with(Root);
   }
   int tyId(QualType T) {
      if (T.isNull()) return 0;
      std::string s = T.getCanonicalType().getUnqualifiedType().getAsString(PP);
      auto it = types.find(s);
      if (it != types.end()) return it->second;
      int n = typeList.size();
      types[s] = n; typeList.push_back(s);
      return n;
   }
   int fileId(SourceLocation L) {
      auto f = fileOf(L);
      auto it = files.find(f);
      if (it != files.end()) return it->second;
      int n = fileList.size();
      files[f] = n; fileList.push_back(f);
      return n;
   }
   int idOf(const ValueDecl* D) {
      D = cast<ValueDecl>(D->getCanonicalDecl());
      auto it = ids.find(D);
      if (it != ids.end()) return it->second;
      int n = ids.size() + 1;
      ids[D] = n;
      return n;
   }
   std::string qn(const NamedDecl* D) {
      std::string s; llvm::raw_string_ostream os(s);
      D->printQualifiedName(os, PP); os.flush(); return s;
   }
   std::string mangled(const FunctionDecl* D) {
      if (auto* F = dyn_cast<CXXDestructorDecl>(D)) {
         return "dtor:" + qn(F->getParent());
      }
      std::string base = qn(D);
      std::string sig;
      llvm::raw_string_ostream os(sig);
      os << base << "(";
      bool first = true;
      for (auto* P : D->parameters()) {
         if (!first) os << ",";
         first = false;
         os << P->getType().getCanonicalType().getAsString(PP);
      }
      os << ")";
      if (auto* M = dyn_cast<CXXMethodDecl>(D)) if (M->isConst()) os << "c";
      if (auto* TA = D->getTemplateSpecializationArgs()) {
         os << "<";
         for (unsigned i = 0; i < TA->size(); i++) {
            if (i) os << ",";
            TA->get(i).print(PP, os, true);
         }
         os << ">";
      }
      os.flush();
      if (auto* M = dyn_cast<CXXMethodDecl>(D))
         if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) {
            sig += "@" + C.getRecordType(S).getCanonicalType().getAsString(PP);
         }
      // internal linkage: disambiguate by file
      if (D->getFormalLinkage() == Linkage::Internal ||
          D->isInAnonymousNamespace()) {
         sig += "#" + fileOf(D->getLocation());
      }
      return sig;
   }

   // ---- output helpers
   std::string* out = nullptr;
   void raw(llvm::StringRef s) { *out += s; }
   void num(long long n) { *out += std::to_string(n); }
   void str(llvm::StringRef s) { J::esc(*out, s); }
   void head(const char* k, SourceLocation L, QualType T) {
      raw("[\""); raw(k); raw("\","); num(lineOf(L)); raw(","); num(tyId(T));
   }
   void headS(const char* k, SourceLocation L) {
      raw("[\""); raw(k); raw("\","); num(lineOf(L)); raw(",0");
   }
   void E(const Expr* e) { raw(","); expr(e); }
   void list(llvm::ArrayRef<const Expr*> a) {
      raw(",[");
      bool f = true;
      for (auto* x : a) { if (!f) raw(","); f = false; expr(x); }
      raw("]");
   }
   template <class Range> void args(Range r) {
      raw(",[");
      bool f = true;
      for (const Expr* x : r) { if (!f) raw(","); f = false; expr(x); }
      raw("]");
   }

   static const Expr* strip(const Expr* e) {
      while (e) {
         if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
         if (auto* p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
         if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
         if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
         if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
         if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
         if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
         if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
         if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
         if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
            switch (p->getCastKind()) {
            case CK_IntegralToFloating: case CK_FloatingToIntegral:
            case CK_FloatingToBoolean: case CK_IntegralToBoolean:
               return e;
            default: e = p->getSubExpr(); continue;
            }
         }
         break;
      }
      return e;
   }

   void expr(const Expr* e0) {
      const Expr* e = strip(e0);
      if (!e) { raw("null"); return; }
      SourceLocation L = e->getExprLoc();
      QualType T = e->getType();
      if (auto* x = dyn_cast<IntegerLiteral>(e)) {
         head("int", L, T); raw(",");
         llvm::SmallString<32> s; x->getValue().toString(s, 10, T->isSignedIntegerType()); raw(s); raw("]"); return;
      }
      if (auto* x = dyn_cast<FloatingLiteral>(e)) {
         head("flt", L, T); raw(",");
         llvm::SmallString<64> buf; bool inv = false;
         auto sp = Lexer::getSpelling(SM.getSpellingLoc(x->getLocation()), buf, SM, C.getLangOpts(), &inv);
         llvm::SmallString<64> v; x->getValue().toString(v);
         str(inv ? llvm::StringRef(v) : sp); raw(","); str(v); raw("]"); return;
      }
      if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { head("bool", L, T); raw(x->getValue() ? ",1]" : ",0]"); return; }
      if (auto* x = dyn_cast<StringLiteral>(e)) { head("str", L, T); raw(","); if (x->getCharByteWidth()==1) str(x->getString()); else str("?"); raw("]"); return; }
      if (auto* x = dyn_cast<CharacterLiteral>(e)) { head("char", L, T); raw(","); num(x->getValue()); raw("]"); return; }
      if (isa<CXXNullPtrLiteralExpr>(e)) { head("nullptr", L, T); raw("]"); return; }
      if (isa<CXXThisExpr>(e)) { head("this", L, T); raw("]"); return; }
      if (auto* x = dyn_cast<DeclRefExpr>(e)) {
         auto* D = x->getDecl();
         if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
            head("enum", L, T); raw(","); num(EC->getInitVal().getExtValue()); raw(","); str(qn(EC)); raw("]"); return;
         }
         if (auto* F = dyn_cast<FunctionDecl>(D)) {
            head("fref", L, T); raw(","); str(qn(F)); raw(","); str(mangled(F)); raw("]"); return;
         }
         head("ref", L, T); raw(","); num(idOf(D)); raw(","); str(D->getNameAsString()); raw(",");
         bool global = false;
         if (auto* V = dyn_cast<VarDecl>(D)) global = V->hasGlobalStorage();
         if (global) str(qn(D)); else raw("null");
         raw("]"); return;
      }
      if (auto* x = dyn_cast<MemberExpr>(e)) {
         auto* D = x->getMemberDecl();
         if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
            head("enum", L, T); raw(","); num(EC->getInitVal().getExtValue()); raw(","); str(qn(EC)); raw("]"); return;
         }
         if (auto* V = dyn_cast<VarDecl>(D)) {
            head("ref", L, T); raw(","); num(idOf(V)); raw(","); str(V->getNameAsString()); raw(","); str(qn(V)); raw("]"); return;
         }
         head("mem", L, T); E(x->getBase()); raw(","); str(D->getNameAsString()); raw(","); str(qn(D)); raw("]"); return;
      }
      if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
         head("opcall", L, T); raw(","); str(getOperatorSpelling(x->getOperator()));
         args(x->arguments());
         raw(",");
         auto* F = x->getDirectCallee();
         if (F) { str(mangled(F)); } else raw("null");
         raw(",");
         if (F && isa<CXXMethodDecl>(F)) raw("1"); else raw("0");
         raw("]"); return;
      }
      if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
         auto* F = x->getMethodDecl();
         head("mcall", L, T); raw(","); str(F ? qn(F) : "?"); E(x->getImplicitObjectArgument()); args(x->arguments());
         raw(","); if (F) str(mangled(F)); else raw("null"); raw("]"); return;
      }
      if (auto* x = dyn_cast<CallExpr>(e)) {
         auto* F = x->getDirectCallee();
         head("call", L, T); raw(",");
         if (F) str(qn(F)); else raw("null");
         args(x->arguments()); raw(",");
         if (F) str(mangled(F)); else raw("null");
         raw(",");
         if (!F) expr(x->getCallee()); else raw("null");
         raw("]"); return;
      }
      if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
         auto* D = x->getConstructor();
         head("ctor", L, T); raw(","); str(qn(D->getParent())); args(x->arguments()); raw(","); str(mangled(D));
         raw(","); num(D->isCopyOrMoveConstructor() ? 1 : 0); raw("]"); return;
      }
      if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
         head("opaque", L, T); raw(",\"inheritedctor\",[]]"); (void)x; return;
      }
      if (auto* x = dyn_cast<UnaryOperator>(e)) {
         head("un", L, T); raw(",");
         std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
         if (x->isPostfix()) op = "post" + op;
         str(op); E(x->getSubExpr()); raw("]"); return;
      }
      if (auto* x = dyn_cast<BinaryOperator>(e)) {
         head("bin", L, T); raw(","); str(x->getOpcodeStr()); E(x->getLHS()); E(x->getRHS()); raw("]"); return;
      }
      if (auto* x = dyn_cast<ConditionalOperator>(e)) {
         head("cond", L, T); E(x->getCond()); E(x->getTrueExpr()); E(x->getFalseExpr()); raw("]"); return;
      }
      if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
         head("idx", L, T); E(x->getBase()); E(x->getIdx()); raw("]"); return;
      }
      if (auto* x = dyn_cast<InitListExpr>(e)) {
         if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
         head("init", L, T); args(x->inits());
         raw(",[");
         if (auto* RT = T->getAs<RecordType>()) {
            bool f = true;
            if (auto* CR = dyn_cast<CXXRecordDecl>(RT->getDecl()))
               for (auto& B : CR->bases()) { (void)B; if (!f) raw(","); f=false; str("<base>"); }
            for (auto* fd : RT->getDecl()->fields()) { if (!f) raw(","); f = false; str(fd->getNameAsString()); }
         }
         raw("]]"); return;
      }
      if (auto* x = dyn_cast<CastExpr>(e)) { // explicit casts + retained implicit
         head("cast", L, T); raw(","); str(x->getCastKindName()); E(x->getSubExpr()); raw("]"); return;
      }
      if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
         head("throw", L, T); E(x->getSubExpr()); raw("]"); return;
      }
      if (auto* x = dyn_cast<LambdaExpr>(e)) {
         head("lambda", L, T); raw(",[");
         bool f = true;
         auto* M = x->getCallOperator();
         for (auto* P : M->parameters()) { if (!f) raw(","); f = false; var(P); }
         raw("],[");
         f = true;
         for (auto& cap : x->captures()) {
            if (!f) raw(","); f = false;
            if (cap.capturesThis()) raw("[\"this\"]");
            else if (cap.capturesVariable()) {
               raw("["); num(idOf(cap.getCapturedVar())); raw(","); str(cap.getCapturedVar()->getNameAsString());
               raw(cap.getCaptureKind() == LCK_ByRef ? ",1]" : ",0]");
            } else raw("[]");
         }
         raw("],");
         if (M->getBody() && !x->isGenericLambda()) stmt(M->getBody()); else raw("null");
         raw(",");
         str(mangled(M));
         raw(",[");   // instantiations of a generic lambda
         f = true;
         if (auto* FT = M->getDescribedFunctionTemplate())
            for (auto* S : FT->specializations()) {
               if (!S->getBody()) continue;
               if (!f) raw(","); f = false;
               raw("["); str(mangled(S)); raw(",[");
               bool g = true;
               for (auto* P : S->parameters()) { if (!g) raw(","); g = false; var(P); }
               raw("],"); stmt(S->getBody()); raw("]");
            }
         raw("]");
         raw("]"); return;
      }
      if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { head("zero", L, T); (void)x; raw("]"); return; }
      if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) { head("zero", L, T); (void)x; raw("]"); return; }
      if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
         Expr::EvalResult R;
         if (e->EvaluateAsInt(R, C)) { head("int", L, T); raw(","); num(R.Val.getInt().getExtValue()); raw("]"); return; }
         (void)x;
      }
      // generic constant
      if (!e->isValueDependent() && !e->isTypeDependent() && T->isIntegralOrEnumerationType()) {
         Expr::EvalResult R;
         if (e->EvaluateAsInt(R, C)) { head("int", L, T); raw(","); num(R.Val.getInt().getExtValue()); raw("]"); return; }
      }
      head("opaque", L, T); raw(","); str(e->getStmtClassName()); raw(",[");
      bool f = true;
      for (auto* ch : e->children()) {
         if (!ch) continue;
         if (!f) raw(","); f = false;
         if (auto* ex = dyn_cast<Expr>(ch)) expr(ex); else stmt(ch);
      }
      raw("]]");
   }

   void var(const VarDecl* V) {
      raw("["); num(idOf(V)); raw(","); str(V->getNameAsString()); raw(","); num(tyId(V->getType().getNonReferenceType()));
      raw(","); num(lineOf(V->getLocation()));
      raw(",\"");
      QualType T = V->getType();
      if (T->isReferenceType()) raw("&");
      if (T.isConstQualified() || (T->isReferenceType() && T->getPointeeType().isConstQualified())) raw("c");
      if (V->isStaticLocal()) raw("s");
      if (V->isConstexpr()) raw("x");
      raw("\",");
      if (V->hasInit() && !isa<ParmVarDecl>(V)) expr(V->getInit()); else raw("null");
      raw("]");
   }

   void stmt(const Stmt* s) {
      if (!s) { raw("null"); return; }
      SourceLocation L = s->getBeginLoc();
      if (auto* x = dyn_cast<Expr>(s)) { expr(x); return; }
      if (auto* x = dyn_cast<CompoundStmt>(s)) {
         headS("compound", L); raw(",["); bool f = true;
         for (auto* c : x->body()) { if (!f) raw(","); f = false; stmt(c); }
         raw("]]"); return;
      }
      if (auto* x = dyn_cast<DeclStmt>(s)) {
         headS("decl", L); raw(",["); bool f = true;
         for (auto* d : x->decls()) if (auto* V = dyn_cast<VarDecl>(d)) { if (!f) raw(","); f = false; var(V); }
         raw("]]"); return;
      }
      if (auto* x = dyn_cast<IfStmt>(s)) {
         headS("if", L); raw(","); stmt(x->getInit()); raw(",");
         if (x->getConditionVariable()) var(x->getConditionVariable()); else raw("null");
         raw(","); expr(x->getCond()); raw(","); stmt(x->getThen()); raw(","); stmt(x->getElse()); raw("]"); return;
      }
      if (auto* x = dyn_cast<ForStmt>(s)) {
         headS("for", L); raw(","); stmt(x->getInit()); raw(","); if (x->getCond()) expr(x->getCond()); else raw("null");
         raw(","); if (x->getInc()) expr(x->getInc()); else raw("null"); raw(","); stmt(x->getBody()); raw("]"); return;
      }
      if (auto* x = dyn_cast<WhileStmt>(s)) { headS("while", L); raw(","); expr(x->getCond()); raw(","); stmt(x->getBody()); raw("]"); return; }
      if (auto* x = dyn_cast<DoStmt>(s)) { headS("do", L); raw(","); expr(x->getCond()); raw(","); stmt(x->getBody()); raw("]"); return; }
      if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
         headS("rangefor", L); raw(","); var(x->getLoopVariable()); raw(","); expr(x->getRangeInit()); raw(","); stmt(x->getBody()); raw("]"); return;
      }
      if (auto* x = dyn_cast<SwitchStmt>(s)) { headS("switch", L); raw(","); expr(x->getCond()); raw(","); stmt(x->getBody()); 
         raw(","); num(tyId(x->getCond()->IgnoreParenImpCasts()->getType())); raw("]"); return; }
      if (auto* x = dyn_cast<CaseStmt>(s)) {
         headS("case", L); raw(",");
         Expr::EvalResult R;
         if (x->getLHS() && x->getLHS()->EvaluateAsInt(R, C)) num(R.Val.getInt().getExtValue()); else raw("null");
         raw(","); expr(x->getLHS()); raw(","); stmt(x->getSubStmt()); raw("]"); return;
      }
      if (auto* x = dyn_cast<DefaultStmt>(s)) { headS("default", L); raw(","); stmt(x->getSubStmt()); raw("]"); return; }
      if (isa<BreakStmt>(s)) { headS("break", L); raw("]"); return; }
      if (isa<ContinueStmt>(s)) { headS("continue", L); raw("]"); return; }
      if (isa<NullStmt>(s)) { headS("null", L); raw("]"); return; }
      if (auto* x = dyn_cast<ReturnStmt>(s)) { headS("return", L); raw(","); if (x->getRetValue()) expr(x->getRetValue()); else raw("null"); raw("]"); return; }
      if (auto* x = dyn_cast<CXXTryStmt>(s)) {
         headS("try", L); raw(","); stmt(x->getTryBlock()); raw(",["); 
         for (unsigned i = 0; i < x->getNumHandlers(); i++) {
            if (i) raw(",");
            auto* h = x->getHandler(i);
            raw("["); if (h->getExceptionDecl()) var(h->getExceptionDecl()); else raw("null"); raw(","); stmt(h->getHandlerBlock()); raw("]");
         }
         raw("]]"); return;
      }
      headS("opaquestmt", L); raw(","); str(s->getStmtClassName()); raw(",["); bool f = true;
      for (auto* ch : s->children()) { if (!ch) continue; if (!f) raw(","); f = false; stmt(ch); }
      raw("]]");
   }

   bool VisitFunctionDecl(FunctionDecl* D) {
      if (!inRoot(D)) return true;
      if (D->isDependentContext() || D->getDescribedFunctionTemplate()) return true;
      if (D->isImplicit() && !isa<CXXConstructorDecl>(D)) return true;
      // skip lambda call operators: dumped inside the lambda expr
      if (auto* M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) return true;
      const FunctionDecl* Def = nullptr;
      bool hasBody = D->hasBody(Def) && Def == D;
      bool isDef = D->isThisDeclarationADefinition();
      if (!seen.insert(D).second) return true;
      std::string buf; out = &buf;
      raw("{\"qn\":"); str(qn(D));
      raw(",\"m\":"); str(mangled(D));
      raw(",\"file\":"); num(fileId(D->getLocation()));
      raw(",\"line\":"); num(lineOf(D->getLocation()));
      raw(",\"def\":"); num(isDef ? 1 : 0);
      raw(",\"ret\":"); num(tyId(D->getReturnType().getNonReferenceType()));
      raw(",\"retref\":"); num(D->getReturnType()->isReferenceType() ? 1 : 0);
      raw(",\"externC\":"); num(D->isExternC() ? 1 : 0);
      raw(",\"deleted\":"); num(D->isDeleted() ? 1 : 0);
      raw(",\"defaulted\":"); num(D->isDefaulted() ? 1 : 0);
      raw(",\"internal\":"); num(D->getFormalLinkage() == Linkage::Internal || D->isInAnonymousNamespace());
      auto* FPT = D->getType()->getAs<FunctionProtoType>();
      bool ne = false;
      if (FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) ne = FPT->isNothrow();
      raw(",\"noexcept\":"); num(ne ? 1 : 0);
      if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
         raw(",\"cls\":"); str(qn(M->getParent()));
         raw(",\"const\":"); num(M->isConst());
         raw(",\"static\":"); num(M->isStatic());
         raw(",\"virtual\":"); num(M->isVirtual());
         raw(",\"access\":"); num((int)M->getAccess());
      }
      raw(",\"kind\":\""); 
      if (isa<CXXConstructorDecl>(D)) raw("ctor"); else if (isa<CXXDestructorDecl>(D)) raw("dtor"); else if (isa<CXXMethodDecl>(D)) raw("method"); else raw("fn");
      raw("\"");
      raw(",\"params\":["); bool f = true;
      for (auto* P : D->parameters()) { if (!f) raw(","); f = false; var(P); }
      raw("]");
      if (auto* K = dyn_cast<CXXConstructorDecl>(D)) {
         raw(",\"inits\":["); f = true;
         for (auto* I : K->inits()) {
            if (!f) raw(","); f = false;
            raw("[");
            if (I->isMemberInitializer()) str(I->getMember()->getNameAsString());
            else if (I->isDelegatingInitializer()) str("<delegate>");
            else str("<base>");
            raw(","); expr(I->getInit());
            raw(","); num(I->isWritten() ? 1 : 0);
            raw("]");
         }
         raw("]");
      }
      raw(",\"body\":");
      if (hasBody && D->getBody()) stmt(D->getBody()); else raw("null");
      raw("}");
      out = nullptr;
      if (!funcs.empty()) funcs += ",\n";
      funcs += buf;
      return true;
   }

   bool VisitCXXRecordDecl(CXXRecordDecl* D) {
      if (!inRoot(D) || !D->isThisDeclarationADefinition()) return true;
      if (D->isDependentContext() || D->isLambda()) return true;
      std::string buf; out = &buf;
      raw("{\"qn\":"); str(qn(D)); raw(",\"file\":"); num(fileId(D->getLocation())); raw(",\"line\":"); num(lineOf(D->getLocation()));
      raw(",\"type\":"); num(tyId(C.getRecordType(D)));
      raw(",\"bases\":["); bool f = true;
      for (auto& B : D->bases()) { if (!f) raw(","); f = false; num(tyId(B.getType())); }
      raw("],\"fields\":["); f = true;
      for (auto* F : D->fields()) {
         if (!f) raw(","); f = false;
         raw("["); str(F->getNameAsString()); raw(","); num(tyId(F->getType().getNonReferenceType())); raw(","); num(lineOf(F->getLocation()));
         raw(",\""); if (F->getType()->isReferenceType()) raw("&"); if (F->isMutable()) raw("m"); if (F->getType().isConstQualified()) raw("c"); raw("\",");
         if (F->hasInClassInitializer() && F->getInClassInitializer()) expr(F->getInClassInitializer()); else raw("null");
         raw(","); num((int)F->getAccess());
         raw("]");
      }
      raw("]}"); out = nullptr;
      if (!records.empty()) records += ",\n";
      records += buf;
      return true;
   }
   bool VisitEnumDecl(EnumDecl* D) {
      if (!inRoot(D) || !D->isThisDeclarationADefinition() || D->isDependentContext()) return true;
      std::string buf; out = &buf;
      raw("{\"qn\":"); str(qn(D)); raw(",\"type\":"); num(tyId(C.getEnumType(D))); raw(",\"file\":"); num(fileId(D->getLocation())); raw(",\"line\":"); num(lineOf(D->getLocation()));
      raw(",\"vals\":["); bool f = true;
      for (auto* c : D->enumerators()) { if (!f) raw(","); f = false; raw("["); str(c->getNameAsString()); raw(","); num(c->getInitVal().getExtValue()); raw("]"); }
      raw("]}"); out = nullptr;
      if (!enums.empty()) enums += ",\n";
      enums += buf;
      return true;
   }
   bool VisitVarDecl(VarDecl* D) {
      if (!D->hasGlobalStorage() || !inRoot(D)) return true;
      if (isa<ParmVarDecl>(D) || D->isTemplated()) return true;
      if (!D->isThisDeclarationADefinition() && !D->isStaticDataMember() && !D->hasExternalStorage()) return true;
      std::string buf; out = &buf;
      raw("{\"qn\":"); str(qn(D)); raw(",\"name\":"); str(D->getNameAsString());
      raw(",\"file\":"); num(fileId(D->getLocation())); raw(",\"line\":"); num(lineOf(D->getLocation()));
      raw(",\"type\":"); num(tyId(D->getType().getNonReferenceType()));
      raw(",\"const\":"); num(D->getType().isConstQualified() || D->isConstexpr());
      raw(",\"local\":"); num(D->isStaticLocal());
      raw(",\"extern\":"); num(D->hasExternalStorage());
      raw(",\"tls\":"); num(D->getTLSKind() != VarDecl::TLS_None);
      raw(",\"var\":"); var(D);
      raw("}"); out = nullptr;
      if (!globals.empty()) globals += ",\n";
      globals += buf;
      return true;
   }
   void finish(llvm::raw_ostream& os) {
      os << "{\"types\":[";
      for (size_t i = 0; i < typeList.size(); i++) { std::string b; J::esc(b, typeList[i]); os << (i ? "," : "") << b; }
      os << "],\n\"files\":[";
      for (size_t i = 0; i < fileList.size(); i++) { std::string b; J::esc(b, fileList[i]); os << (i ? "," : "") << b; }
      os << "],\n\"records\":[" << records << "],\n\"enums\":[" << enums << "],\n\"globals\":[" << globals << "],\n\"funcs\":[" << funcs << "]}\n";
   }
   void start() { typeList.push_back("?"); types["?"] = 0; }
};

class Consumer : public ASTConsumer {
public:
   void HandleTranslationUnit(ASTContext& C) override {
      if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
      Dumper D(C); D.start();
      D.TraverseDecl(C.getTranslationUnitDecl());
      std::error_code EC;
      llvm::raw_fd_ostream os(OutFile, EC);
      D.finish(os);
   }
};
class Action : public ASTFrontendAction {
   std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv) {
   // hdump ROOT OUT SOURCE -- flags...
   if (argc < 5) return 2;
   Root = argv[1]; OutFile = argv[2];
   std::string src = argv[3];
   std::vector<std::string> flags;
   for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
   tooling::FixedCompilationDatabase DB(".", flags);
   tooling::ClangTool Tool(DB, {src});
   return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
