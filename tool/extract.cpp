// Extracts a compact, fully resolved program representation (JSON lines) from a
// clang AST: every function definition located under the given roots, template
// instantiations included, with resolved callees, plus records, enums and globals.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include <set>
#include <map>
#include <fstream>
#include <sstream>
using namespace clang;

static std::string gOut; static std::vector<std::string> gRoots; static std::string gRegex; static bool gPatterns=false;

struct Str { // minimal JSON writer into a std::string
    std::string s;
    void str(llvm::StringRef t) {
        s+='"';
        for (unsigned char c : t) {
            if (c=='"'||c=='\\') { s+='\\'; s+=char(c); }
            else if (c<0x20||c>=0x7f) { char b[8]; snprintf(b,8,"\\u%04x",c); s+=b; }
            else s+=char(c);
        }
        s+='"';
    }
};

class Emitter : public RecursiveASTVisitor<Emitter> {
    ASTContext& C; SourceManager& SM; PrintingPolicy PP; ASTNameGenerator NG;
    std::ofstream& os; llvm::Regex re;
    std::map<const Decl*,int> fnidx; std::vector<std::string> fnrec; // callee table
    std::set<const Decl*> done; std::set<const CXXRecordDecl*> recs;
    std::map<const Decl*,int> varid; int nvar=0;
    std::string o; // current function body output
    std::vector<const FunctionDecl*> pendingLambda;
  public:
    Emitter(ASTContext& c, std::ofstream& f) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), NG(c), os(f), re(gRegex.empty()?".":gRegex) {
        PP.SuppressTagKeyword=true; PP.FullyQualifiedName=true; PP.PrintCanonicalTypes=true; PP.SuppressInlineNamespace=true; PP.Bool=true; PP.AnonymousTagLocations=true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string ty(QualType t) {
        if (t.isNull()) return "?";
        std::string s=t.getCanonicalType().getAsString(PP);
        // classes local to a function (one per instance of a template) are told apart by the function
        if (auto* R=t.getCanonicalType().getNonReferenceType()->getAsCXXRecordDecl(); R && !R->isLambda() && R->getIdentifier())
            if (auto* F=dyn_cast_or_null<FunctionDecl>(R->getParentFunctionOrMethod()); F && !F->isDependentContext()) {
                std::string n=R->getName().str(); auto k=s.rfind(n);
                if (k!=std::string::npos) s=s.substr(0,k)+n+"@"+llvm::utohexstr(std::hash<std::string>()(mangled(F)))+s.substr(k+n.size());
            }
        return s; }
    void q(llvm::StringRef t) { Str s; s.str(t); o+=s.s; }
    std::string qs(llvm::StringRef t) { Str s; s.str(t); return s.s; }
    std::string fileOf(SourceLocation l) {
        l=SM.getExpansionLoc(l); auto f=SM.getFilename(l); return f.str(); }
    int lineOf(SourceLocation l) { return l.isValid()?(int)SM.getExpansionLineNumber(l):0; }
    bool inRoots(SourceLocation l) {
        std::string f=fileOf(l); for (auto& r:gRoots) if (f.compare(0,r.size(),r)==0) return true; return false; }

    std::string qual(const NamedDecl* D) {
        std::string s; llvm::raw_string_ostream ss(s);
        // friend functions defined in a class: use the semantic namespace; the lexical record is reported separately
        D->getNameForDiagnostic(ss,PP,true); ss.flush(); return s;
    }
    std::string lexrec(const FunctionDecl* F) {
        if (auto* M=dyn_cast<CXXMethodDecl>(F)) return ty(C.getTypeDeclType(M->getParent()));
        if (auto* R=dyn_cast<CXXRecordDecl>(F->getLexicalDeclContext())) return ty(C.getTypeDeclType(R));
        return "";
    }
    std::string mangled(const FunctionDecl* F) {
        std::string s;
        if (!F->isDependentContext() && !F->isTemplated()) s=NG.getName(F);
        if (s.empty()) { s="?"+qual(F)+"@"+ty(F->getType()); }
        if (auto* M=dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
            s+="@"+fileOf(F->getLocation())+":"+std::to_string(lineOf(F->getLocation()))+":"+std::to_string(SM.getExpansionColumnNumber(F->getLocation()));
        }
        return s;
    }
    const FunctionDecl* definitionOf(const FunctionDecl* F) { const FunctionDecl* D=nullptr; if (F->isDefined(D)) return D; return F->getCanonicalDecl(); }

    int fn(const FunctionDecl* F0) {
        const FunctionDecl* F=F0->getCanonicalDecl();
        auto it=fnidx.find(F); if (it!=fnidx.end()) return it->second;
        int i=fnrec.size(); fnidx[F]=i; fnrec.emplace_back();
        std::string r="{\"i\":"; r+=qs(mangled(F));
        r+=",\"q\":"+qs(qual(F)); r+=",\"n\":"+qs(F->getNameAsString());
        r+=",\"rec\":"+qs(lexrec(definitionOf(F)));
        r+=",\"ret\":"+qs(ty(F->getReturnType())); r+=",\"p\":[";
        for (unsigned k=0;k<F->getNumParams();++k) { if (k) r+=","; r+=qs(ty(F->getParamDecl(k)->getType())); }
        r+="]"; 
        if (auto* M=dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) r+=",\"virt\":1"; if (M->isStatic()) r+=",\"static\":1"; else r+=",\"meth\":1"; if (M->isConst()) r+=",\"const\":1"; if (M->getParent()->isLambda()) r+=",\"lam\":1"; if (M->isCopyAssignmentOperator()) r+=",\"casg\":1"; if (M->isMoveAssignmentOperator()) r+=",\"masg\":1";}
        if (auto* K=dyn_cast<CXXConstructorDecl>(F)) { r+=",\"ctor\":1"; if (K->isCopyConstructor()) r+=",\"copy\":1"; if (K->isMoveConstructor()) r+=",\"move\":1"; if (K->isExplicit()) r+=",\"expl\":1";}
        if (auto* K=dyn_cast<CXXConversionDecl>(F)) { r+=",\"conv\":1"; if (K->isExplicit()) r+=",\"expl\":1"; }
        if (isa<CXXDestructorDecl>(F)) r+=",\"dtor\":1";
        if (F->isDeleted()) r+=",\"del\":1"; if (F->isDefaulted()) r+=",\"dflt\":1"; if (F->isPureVirtual()) r+=",\"pure\":1";
        if (F->isNoReturn()) r+=",\"noret\":1";
        r+=",\"f\":"+qs(fileOf(F->getLocation()))+",\"l\":"+std::to_string(lineOf(F->getLocation()))+"}";
        fnrec[i]=r; return i;
    }
    int var(const Decl* D) { D=D->getCanonicalDecl(); auto it=varid.find(D); if (it!=varid.end()) return it->second; return varid[D]=nvar++; }

    // ---------------- expressions -----------------
    const Expr* strip(const Expr* E) {
        while (E) {
            if (auto* X=dyn_cast<ParenExpr>(E)) E=X->getSubExpr();
            else if (auto* X=dyn_cast<ExprWithCleanups>(E)) E=X->getSubExpr();
            else if (auto* X=dyn_cast<MaterializeTemporaryExpr>(E)) E=X->getSubExpr();
            else if (auto* X=dyn_cast<CXXBindTemporaryExpr>(E)) E=X->getSubExpr();
            else if (auto* X=dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E=X->getReplacement();
            else if (auto* X=dyn_cast<ConstantExpr>(E)) E=X->getSubExpr();
            else if (auto* X=dyn_cast<CXXDefaultArgExpr>(E)) E=X->getExpr();
            else if (auto* X=dyn_cast<CXXDefaultInitExpr>(E)) E=X->getExpr();
            else if (auto* X=dyn_cast<CXXRewrittenBinaryOperator>(E)) E=X->getSemanticForm();
            else if (auto* X=dyn_cast<GenericSelectionExpr>(E)) E=X->getResultExpr();
            else if (auto* X=dyn_cast<ChooseExpr>(E)) E=X->getChosenSubExpr();
            else if (auto* X=dyn_cast<CXXFunctionalCastExpr>(E)) { if (trivialCast(X->getCastKind())) E=X->getSubExpr(); else break; }
            else if (auto* X=dyn_cast<CXXStaticCastExpr>(E)) { if (trivialCast(X->getCastKind())) E=X->getSubExpr(); else break; }
            else if (auto* X=dyn_cast<CStyleCastExpr>(E)) { if (trivialCast(X->getCastKind())) E=X->getSubExpr(); else break; }
            else if (auto* X=dyn_cast<CXXConstCastExpr>(E)) { if (trivialCast(X->getCastKind())) E=X->getSubExpr(); else break; }
            else if (auto* X=dyn_cast<ImplicitCastExpr>(E)) { if (trivialCast(X->getCastKind())) E=X->getSubExpr(); else break; }
            else break;
        }
        return E;
    }
    static bool trivialCast(CastKind k) {
        switch(k) { case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion:
            case CK_ArrayToPointerDecay: case CK_BuiltinFnToFnPtr: return true; default: return false; } }
    void list(const char* tag) { o+="[\""; o+=tag; o+="\""; }
    void args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { o+=",["; bool f=true; for (auto* A : r) { if (!f) o+=","; f=false; expr(A);} o+="]"; }
    void opaque(const Stmt* S) { list("opq"); o+=","; q(S->getStmtClassName()); o+=",["; bool f=true; for (auto* c : S->children()) { if (!c) continue; if (!f) o+=","; f=false; if (auto* e=dyn_cast<Expr>(c)) expr(e); else stmt(c); } o+="]]"; }
    const VarDecl* initOf(const VarDecl* V) { const VarDecl* D=nullptr; const Expr* I=V->getAnyInitializer(D); if (!I||!D||I->isValueDependent()||D->getDeclContext()->isDependentContext()) return nullptr; return D; }
    void declref(const ValueDecl* D, const Expr* E) {
        if (auto* F=dyn_cast<FunctionDecl>(D)) { o+="[\"fn\","+std::to_string(fn(F))+"]"; return; }
        if (auto* EC=dyn_cast<EnumConstantDecl>(D)) { list("enum"); o+=","; q(qual(EC)); o+=","; o+=llvm::toString(EC->getInitVal(),10)+"]"; return; }
        if (auto* V=dyn_cast<VarDecl>(D)) {
            if (V->hasGlobalStorage()) { list("gvar"); o+=","; q(qual(V)); o+=","; q(ty(V->getType()));
                o+= V->isStaticLocal()?",\"slocal\"":",\"global\""; 
                o+=","; // constant value if known
                if (V->getType()->isIntegralOrEnumerationType() && (V->isConstexpr()||V->getType().isConstQualified()) && initOf(V)) { if (auto* val=initOf(V)->evaluateValue()) { if (val->isInt()) o+=llvm::toString(val->getInt(),10); else o+="null"; } else o+="null"; } else o+="null";
                o+="]"; return; }
            list("var"); o+=","+std::to_string(var(V))+","; q(V->getNameAsString()); o+=","; q(ty(V->getType())); o+="]"; return; }
        if (auto* B=dyn_cast<BindingDecl>(D)) { list("var"); o+=","+std::to_string(var(B))+","; q(B->getNameAsString()); o+=","; q(ty(B->getType())); o+="]"; return; }
        list("ref"); o+=","; q(qual(D)); o+="]";
    }
    void expr(const Expr* E0) {
        const Expr* E=strip(E0);
        if (!E) { o+="null"; return; }
        std::string ln=std::to_string(lineOf(E->getExprLoc()));
        if (auto* X=dyn_cast<IntegerLiteral>(E)) { list("int"); o+=","+llvm::toString(X->getValue(),10,X->getType()->isSignedIntegerType())+","; q(ty(X->getType())); o+="]"; return; }
        if (auto* X=dyn_cast<CharacterLiteral>(E)) { list("int"); o+=","+std::to_string(X->getValue())+",\"char\"]"; return; }
        if (auto* X=dyn_cast<FloatingLiteral>(E)) { list("flt"); llvm::SmallString<32> s; X->getValue().toString(s); o+=","; q(s); o+="]"; return; }
        if (auto* X=dyn_cast<CXXBoolLiteralExpr>(E)) { o+= X->getValue()?"[\"bool\",true]":"[\"bool\",false]"; return; }
        if (isa<CXXNullPtrLiteralExpr>(E)||isa<GNUNullExpr>(E)) { o+="[\"null\"]"; return; }
        if (auto* X=dyn_cast<clang::StringLiteral>(E)) { list("str"); o+=","; if (X->getCharByteWidth()==1) q(X->getString()); else q("?"); o+="]"; return; }
        if (isa<CXXThisExpr>(E)) { o+="[\"this\"]"; return; }
        if (auto* X=dyn_cast<DeclRefExpr>(E)) { declref(X->getDecl(),E); return; }
        if (auto* X=dyn_cast<MemberExpr>(E)) {
            if (auto* F=dyn_cast<FieldDecl>(X->getMemberDecl())) { list("mem"); o+=","; expr(X->getBase()); o+=","; q(F->getNameAsString()); o+=","; q(ty(F->getType())); o+=","; q(ty(C.getTypeDeclType(F->getParent()))); o+="]"; return; }
            if (auto* F=dyn_cast<FunctionDecl>(X->getMemberDecl())) { list("mfn"); o+=","; expr(X->getBase()); o+=","+std::to_string(fn(F))+"]"; return; }
            declref(X->getMemberDecl(),E); return; }
        if (auto* X=dyn_cast<CXXMemberCallExpr>(E)) {
            const CXXMethodDecl* M=X->getMethodDecl();
            if (!M) { list("icall"); o+=","; expr(X->getCallee()); args(X->arguments()); o+=","+ln+"]"; return; }
            bool nv = M->isVirtual(); if (auto* ME=dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->hasQualifier()) nv=false;
            list("mcall"); o+=","+std::to_string(fn(M))+","; expr(X->getImplicitObjectArgument()); args(X->arguments()); o+=","+ln+","+(nv?"1":"0")+"]"; return; }
        if (auto* X=dyn_cast<CXXOperatorCallExpr>(E)) {
            const FunctionDecl* F=X->getDirectCallee();
            if (F) { if (auto* M=dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
                list("mcall"); o+=","+std::to_string(fn(M))+","; expr(X->getArg(0)); o+=",["; for (unsigned k=1;k<X->getNumArgs();++k) { if (k>1) o+=","; expr(X->getArg(k)); } o+="],"+ln+","+(M->isVirtual()?"1":"0")+"]"; return; }
                list("call"); o+=","+std::to_string(fn(F)); args(X->arguments()); o+=","+ln+"]"; return; }
            opaque(E); return; }
        if (auto* X=dyn_cast<CallExpr>(E)) {
            if (auto* F=X->getDirectCallee()) { list("call"); o+=","+std::to_string(fn(F)); args(X->arguments()); o+=","+ln+"]"; return; }
            list("icall"); o+=","; expr(X->getCallee()); args(X->arguments()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<CXXInheritedCtorInitExpr>(E)) { list("ictor"); o+=","+std::to_string(fn(X->getConstructor()))+"]"; return; }
        if (auto* X=dyn_cast<CXXConstructExpr>(E)) { 
            list("ctor"); o+=","+std::to_string(fn(X->getConstructor())); args(X->arguments()); o+=","; q(ty(X->getType())); o+=","+ln+(X->isListInitialization()?",1":"")+"]"; return; }
        if (auto* X=dyn_cast<UnaryOperator>(E)) { list("un"); o+=","; std::string op=UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) op="p"+op; q(op); o+=","; expr(X->getSubExpr()); if (op=="-" || op=="~") { o+=","; q(ty(X->getType())); } o+="]"; return; }
        if (auto* X=dyn_cast<CompoundAssignOperator>(E)) { list("asg"); o+=","; q(X->getOpcodeStr()); o+=","; expr(X->getLHS()); o+=","; expr(X->getRHS()); o+=","+ln+","; q(ty(X->getLHS()->getType())); o+="]"; return; }
        if (auto* X=dyn_cast<BinaryOperator>(E)) { list(X->isAssignmentOp()?"asg":"bin"); o+=","; q(X->getOpcodeStr()); o+=","; expr(X->getLHS()); o+=","; expr(X->getRHS()); o+=","+ln+","; q(ty(X->getLHS()->getType())); o+="]"; return; }
        if (auto* X=dyn_cast<ConditionalOperator>(E)) { list("cond"); o+=","; expr(X->getCond()); o+=","; expr(X->getTrueExpr()); o+=","; expr(X->getFalseExpr()); o+="]"; return; }
        if (auto* X=dyn_cast<ArraySubscriptExpr>(E)) { list("idx"); o+=","; expr(X->getBase()); o+=","; expr(X->getIdx()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<CastExpr>(E)) {
            list("cast"); o+=","; q(X->getCastKindName()); o+=","; q(ty(X->getType())); o+=","; expr(X->getSubExpr()); o+=","; q(isa<ImplicitCastExpr>(X)?"i":isa<CXXDynamicCastExpr>(X)?"d":isa<CXXConstCastExpr>(X)?"c":isa<CXXReinterpretCastExpr>(X)?"r":"e"); o+="]"; return; }
        if (auto* X=dyn_cast<InitListExpr>(E)) { list("ilist"); o+=",["; for (unsigned k=0;k<X->getNumInits();++k) { if (k) o+=","; expr(X->getInit(k)); } o+="],"; q(ty(X->getType())); o+="]"; return; }
        if (auto* X=dyn_cast<CXXStdInitializerListExpr>(E)) { list("silist"); o+=","; expr(X->getSubExpr()); o+="]"; return; }
        if (auto* X=dyn_cast<CXXScalarValueInitExpr>(E)) { list("zero"); o+=","; q(ty(X->getType())); o+="]"; return; }
        if (auto* X=dyn_cast<ImplicitValueInitExpr>(E)) { list("zero"); o+=","; q(ty(X->getType())); o+="]"; return; }
        if (auto* X=dyn_cast<CXXNewExpr>(E)) { list("new"); o+=","; q(ty(X->getAllocatedType())); o+=","; if (X->getInitializer()) expr(X->getInitializer()); else o+="null"; o+=","; if (X->isArray() && X->getArraySize()) expr(*X->getArraySize()); else o+="null"; o+=","; o+=(X->getNumPlacementArgs()?"1":"0"); if (X->getNumPlacementArgs()==1) { o+=","; expr(X->getPlacementArg(0)); } o+="]"; return; }
        if (auto* X=dyn_cast<CXXDeleteExpr>(E)) { list("delete"); o+=","; expr(X->getArgument()); o+=","; o+=(X->isArrayForm()?"1":"0"); o+="]"; return; }
        if (auto* X=dyn_cast<CXXThrowExpr>(E)) { list("throw"); o+=","; if (X->getSubExpr()) expr(X->getSubExpr()); else o+="null"; o+="]"; return; }
        if (auto* X=dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Expr::EvalResult R; if (!X->isValueDependent() && X->EvaluateAsInt(R,C)) { list("int"); o+=","+llvm::toString(R.Val.getInt(),10)+",\"sizeof\"]"; } else opaque(E); return; }
        if (auto* X=dyn_cast<TypeTraitExpr>(E)) { if (!X->isValueDependent()) { o+= X->getValue()?"[\"bool\",true]":"[\"bool\",false]"; } else opaque(E); return; }
        if (isa<ConceptSpecializationExpr>(E) || isa<RequiresExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<SizeOfPackExpr>(E)) { Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R,C)) { list("int"); o+=","+llvm::toString(R.Val.getInt(),10)+",\"ct\"]"; } else opaque(E); return; }
        if (auto* X=dyn_cast<LambdaExpr>(E)) {
            list("lambda"); o+=",[";
            auto* R=X->getLambdaClass(); bool f=true;
            if (auto* FT=R->getDependentLambdaCallOperator()) { for (auto* S : FT->specializations()) { if (!f) o+=","; f=false; o+=std::to_string(fn(S)); pendingLambda.push_back(S);} }
            else if (auto* M=R->getLambdaCallOperator()) { o+=std::to_string(fn(M)); pendingLambda.push_back(M); }
            o+="],["; f=true;
            unsigned ci=0;
            for (auto& c : X->captures()) { if (!f) o+=","; f=false;
                if (c.capturesThis()) o+="[\"this\"]";
                else if (c.capturesVariable()) { auto* V=c.getCapturedVar(); o+="["; o+=std::to_string(var(V))+","; q(V->getNameAsString()); o+=(c.getCaptureKind()==LCK_ByRef?",\"ref\"":",\"val\""); 
                    if (V->isInitCapture()) { o+=","; expr(cast<VarDecl>(V)->getInit()); } o+="]"; }
                else o+="[\"?\"]"; ++ci; }
            o+="],"; q(ty(X->getType())); o+="]"; return; }
        if (auto* X=dyn_cast<CXXTypeidExpr>(E)) { list("typeid"); o+=","; if (X->isTypeOperand()) q(ty(X->getTypeOperand(C))); else expr(X->getExprOperand()); o+="]"; return; }
        if (auto* X=dyn_cast<StmtExpr>(E)) { list("stmtexpr"); o+=","; stmt(X->getSubStmt()); o+="]"; return; }
        if (auto* X=dyn_cast<PredefinedExpr>(E)) { o+="[\"str\",\"__func__\"]"; return; }
        if (auto* X=dyn_cast<UnresolvedLookupExpr>(E)) { list("ulookup"); o+=","; q(X->getName().getAsString()); o+="]"; return; }
        opaque(E);
    }
    // ---------------- statements -----------------
    void vardecl(const VarDecl* V) {
        o+="["; o+=std::to_string(var(V))+","; q(V->getNameAsString()); o+=","; q(ty(V->getType())); o+=",";
        if (V->getInit()) expr(V->getInit()); else o+="null";
        o+= V->isStaticLocal()?",\"static\"":",\"\"";
        o+="]";
    }
    void stmt(const Stmt* S) {
        if (!S) { o+="null"; return; }
        std::string ln=std::to_string(lineOf(S->getBeginLoc()));
        if (auto* X=dyn_cast<CompoundStmt>(S)) { list("{}"); o+=",["; bool f=true; for (auto* c : X->body()) { if (!f) o+=","; f=false; stmt(c);} o+="]]"; return; }
        if (auto* X=dyn_cast<DeclStmt>(S)) { list("decl"); o+=",["; bool f=true; for (auto* D : X->decls()) { 
                if (auto* DD=dyn_cast<DecompositionDecl>(D)) { if (!f) o+=","; f=false; vardecl(DD); for (auto* B : DD->bindings()) { o+=",["+std::to_string(var(B))+","; q(B->getNameAsString()); o+=","; q(ty(B->getType())); o+=",[\"binding\","; if (B->getBinding()) expr(B->getBinding()); else o+="null"; o+="],\"bind\"]"; } }
                else if (auto* V=dyn_cast<VarDecl>(D)) { if (!f) o+=","; f=false; vardecl(V);} } o+="],"+ln+"]"; return; }
        if (auto* X=dyn_cast<IfStmt>(S)) { list("if"); o+=","; if (X->getInit()) stmt(X->getInit()); else if (X->getConditionVariableDeclStmt()) stmt(X->getConditionVariableDeclStmt()); else o+="null"; o+=","; 
            if (X->isConstexpr()) { Expr::EvalResult R; if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsInt(R,C)) o+= R.Val.getInt()!=0?"[\"bool\",true]":"[\"bool\",false]"; else expr(X->getCond()); } else expr(X->getCond());
            o+=","; stmt(X->getThen()); o+=","; stmt(X->getElse()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<ForStmt>(S)) { list("for"); o+=","; stmt(X->getInit()); o+=","; expr(X->getCond()); o+=","; expr(X->getInc()); o+=","; stmt(X->getBody()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<WhileStmt>(S)) { list("while"); o+=","; expr(X->getCond()); o+=","; stmt(X->getBody()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<DoStmt>(S)) { list("do"); o+=","; stmt(X->getBody()); o+=","; expr(X->getCond()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<CXXForRangeStmt>(S)) { list("rfor"); o+=","; if (X->getLoopVariable()) vardecl(X->getLoopVariable()); else o+="null"; o+=","; expr(X->getRangeInit()); o+=","; stmt(X->getBody()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<SwitchStmt>(S)) { list("switch"); o+=","; expr(X->getCond()); o+=","; stmt(X->getBody()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<CaseStmt>(S)) { list("case"); o+=","; expr(X->getLHS()); o+=","; 
            { Expr::EvalResult R; if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R,C)) o+=llvm::toString(R.Val.getInt(),10); else o+="null"; }
            o+=","; stmt(X->getSubStmt()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<DefaultStmt>(S)) { list("default"); o+=","; stmt(X->getSubStmt()); o+=","+ln+"]"; return; }
        if (auto* X=dyn_cast<ReturnStmt>(S)) { list("ret"); o+=","; if (X->getRetValue()) expr(X->getRetValue()); else o+="null"; o+=","+ln+"]"; return; }
        if (isa<BreakStmt>(S)) { o+="[\"break\"]"; return; }
        if (isa<ContinueStmt>(S)) { o+="[\"continue\"]"; return; }
        if (isa<NullStmt>(S)) { o+="[\"nop\"]"; return; }
        if (auto* X=dyn_cast<CXXTryStmt>(S)) { list("try"); o+=","; stmt(X->getTryBlock()); o+=",["; for (unsigned k=0;k<X->getNumHandlers();++k) { if (k) o+=","; auto* h=X->getHandler(k); o+="["; if (h->getExceptionDecl()) { q(ty(h->getCaughtType())); } else q("..."); o+=","; stmt(h->getHandlerBlock()); o+="]"; } o+="],"+ln+"]"; return; }
        if (auto* X=dyn_cast<LabelStmt>(S)) { list("label"); o+=","; q(X->getName()); o+=","; stmt(X->getSubStmt()); o+="]"; return; }
        if (auto* X=dyn_cast<GotoStmt>(S)) { list("goto"); o+=","; q(X->getLabel()->getName()); o+="]"; return; }
        if (auto* X=dyn_cast<GCCAsmStmt>(S)) { list("asm"); o+=","; q(X->getAsmString()->getString()); o+=",["; for (unsigned k=0;k<X->getNumOutputs();++k) { if (k) o+=","; expr(X->getOutputExpr(k)); } o+="],["; for (unsigned k=0;k<X->getNumInputs();++k) { if (k) o+=","; expr(X->getInputExpr(k)); } o+="]]"; return; }
        if (auto* X=dyn_cast<AttributedStmt>(S)) { stmt(X->getSubStmt()); return; }
        if (auto* E=dyn_cast<Expr>(S)) { list("e"); o+=","; expr(E); o+=","+ln+"]"; return; }
        opaque(S);
    }
    // ---------------- declarations -----------------
    void emitFunction(const FunctionDecl* F) {
        if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
        if (!F->doesThisDeclarationHaveABody()) return;
        bool pattern = F->isDependentContext() || F->isTemplated();
        if (pattern && !gPatterns) return;
        if (F->isInvalidDecl()) return;
        if (F->isImplicit() && !(isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())) return;
        if (!inRoots(F->getLocation())) return;
        std::string file=fileOf(F->getLocation());
        if (!re.match(file)) return;
        if (!done.insert(F->getCanonicalDecl()).second) return;
        o.clear();
        o+="{\"k\":\"fn\",\"fi\":"+std::to_string(fn(F))+",\"f\":"; q(file); o+=",\"l\":"+std::to_string(lineOf(F->getLocation()));
        if (pattern) o+=",\"pat\":1";
        if (F->isTemplateInstantiation()) o+=",\"inst\":1";
        o+=",\"ps\":["; for (unsigned k=0;k<F->getNumParams();++k) { if (k) o+=","; auto* P=F->getParamDecl(k); o+="["; o+=std::to_string(var(P))+","; q(P->getNameAsString()); o+=","; q(ty(P->getType())); o+="]"; } o+="]";
        if (auto* K=dyn_cast<CXXConstructorDecl>(F)) {
            o+=",\"inits\":["; bool f=true;
            for (auto* I : K->inits()) { if (!f) o+=","; f=false; 
                if (I->isMemberInitializer()) { o+="[\"m\","; q(I->getMember()->getNameAsString()); }
                else if (I->isBaseInitializer()) { o+="[\"b\","; q(ty(QualType(I->getBaseClass(),0))); }
                else if (I->isDelegatingInitializer()) { o+="[\"d\",\"\""; }
                else o+="[\"i\",\"\"";
                o+=","; expr(I->getInit()); o+=(I->isWritten()?",1]":",0]"); }
            o+="]";
        }
        if (F->isExternallyVisible()) o+=",\"ext\":1";
        if (auto* M=dyn_cast<CXXMethodDecl>(F)) { o+=",\"acc\":"+std::to_string((int)M->getAccess());
            if (M->size_overridden_methods()) { o+=",\"ovr\":["; bool f=true; for (auto* B : M->overridden_methods()) { if (!f) o+=","; f=false; o+=std::to_string(fn(B)); } o+="]"; } }
        o+=",\"body\":"; stmt(F->getBody()); o+="}\n";
        os<<o;
    }
    bool VisitFunctionDecl(FunctionDecl* F) {
        emitFunction(F);
        while (!pendingLambda.empty()) { auto* L=pendingLambda.back(); pendingLambda.pop_back(); emitFunction(L); }
        return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!inRoots(R->getLocation()) || !re.match(fileOf(R->getLocation()))) return true;
        if (!recs.insert(cast<CXXRecordDecl>(R->getCanonicalDecl())).second) return true;
        o.clear(); o+="{\"k\":\"rec\",\"q\":"; q(ty(C.getTypeDeclType(R))); o+=",\"f\":"; q(fileOf(R->getLocation())); o+=",\"l\":"+std::to_string(lineOf(R->getLocation()))+",\"bases\":[";
        bool f=true; for (auto& B : R->bases()) { if (!f) o+=","; f=false; q(ty(B.getType())); }
        o+="],\"fields\":["; f=true; for (auto* D : R->fields()) { if (!f) o+=","; f=false; o+="["; q(D->getNameAsString()); o+=","; q(ty(D->getType())); o+=","; o+=(D->isMutable()?"1":"0"); o+="]"; }
        o+="],\"special\":{";
        o+="\"dtor\":"+std::to_string(R->hasUserDeclaredDestructor())+",\"cctor\":"+std::to_string(R->hasUserDeclaredCopyConstructor())+",\"casg\":"+std::to_string(R->hasUserDeclaredCopyAssignment())+",\"mctor\":"+std::to_string(R->hasUserDeclaredMoveConstructor())+",\"masg\":"+std::to_string(R->hasUserDeclaredMoveAssignment())+"},\"abs\":"+std::to_string(R->isAbstract());
        o+=",\"methods\":["; f=true; for (auto* M : R->methods()) { if (M->isImplicit()) continue; if (!f) o+=","; f=false; o+=std::to_string(fn(M)); } o+="]";
        o+="}\n"; os<<o; return true; }
    bool VisitEnumDecl(EnumDecl* D) {
        if (!D->isThisDeclarationADefinition() || D->isDependentContext() || !inRoots(D->getLocation())) return true;
        o.clear(); o+="{\"k\":\"enum\",\"q\":"; q(ty(C.getTypeDeclType(D))); o+=",\"vals\":["; bool f=true; for (auto* e : D->enumerators()) { if (!f) o+=","; f=false; o+="["; q(e->getNameAsString()); o+=","+llvm::toString(e->getInitVal(),10)+"]"; } o+="]}\n"; os<<o; return true; }
    bool VisitVarDecl(VarDecl* V) {
        if (!V->hasGlobalStorage() || !inRoots(V->getLocation()) || V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
        if (!V->isThisDeclarationADefinition()) return true;
        if (!re.match(fileOf(V->getLocation()))) return true;
        o.clear(); o+="{\"k\":\"gvar\",\"q\":"; q(qual(V)); o+=",\"t\":"; q(ty(V->getType())); o+=",\"const\":"; o+=(V->getType().isConstQualified()||V->isConstexpr())?"1":"0"; o+=",\"tls\":"; o+=(V->getTLSKind()!=VarDecl::TLS_None)?"1":"0"; o+=",\"slocal\":"; o+=V->isStaticLocal()?"1":"0"; o+=",\"f\":"; q(fileOf(V->getLocation())); o+=",\"l\":"+std::to_string(lineOf(V->getLocation()))+",\"init\":"; 
        if (V->getInit() && !V->getInit()->isValueDependent()) expr(V->getInit()); else o+="null"; o+="}\n"; os<<o; return true; }
    void finish() { o="{\"k\":\"fns\",\"fns\":["; for (size_t i=0;i<fnrec.size();++i) { if (i) o+=",\n"; o+=fnrec[i]; } o+="]}\n"; os<<o; }
};

class Consumer : public ASTConsumer { public:
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasUncompilableErrorOccurred() && !getenv("EXTRACT_LENIENT")) return;
        std::ofstream f(gOut); Emitter e(C,f); e.TraverseDecl(C.getTranslationUnitDecl()); e.finish(); f<<"{\"k\":\"end\"}\n"; } };
class Action : public ASTFrontendAction { public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); } };

// usage: extract OUT ROOTS(colon separated) REGEX file.cpp -- flags...
int main(int argc, const char** argv) {
    if (argc<6) { llvm::errs()<<"usage: extract OUT ROOTS REGEX FILE -- FLAGS\n"; return 2; }
    gOut=argv[1]; { std::stringstream ss(argv[2]); std::string r; while (std::getline(ss,r,':')) gRoots.push_back(r); }
    gRegex=argv[3]; std::string file=argv[4];
    if (getenv("EXTRACT_PATTERNS")) gPatterns=true;
    std::vector<std::string> flags; for (int i=6;i<argc;++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".",flags);
    tooling::ClangTool tool(db,{file});
    int r=tool.run(tooling::newFrontendActionFactory<Action>().get());
    return getenv("EXTRACT_LENIENT") ? 0 : r;
}
