// Fact extractor: dumps, for every function defined below a given source root,
// the clang CFG as a small three-address IR (JSON).
//
//   extract <root> <out.json> <file.cpp>... -- <compile flags>
//
// Every expression gets a number; blocks list the numbers in evaluation order;
// the table "X" maps a number to the operation it performs.  Parentheses,
// casts, temporaries and cleanups are looked through.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static llvm::StringSet<> SeenFn;
static llvm::StringSet<> SeenCls;
static json::Array OutFns;
static json::Array OutClasses;
static json::Array OutEnums;
static json::Array OutGlobals;
static unsigned NErrors = 0;

static std::string usr(const Decl* D) {
    llvm::SmallString<128> Buf;
    if (auto* F = dyn_cast<FunctionDecl>(D)) { D = F->getCanonicalDecl(); }
    if (index::generateUSRForDecl(D, Buf)) { return ""; }
    return Buf.str().str();
}

static const Expr* strip(const Expr* E) {
    while (E) {
        const Expr* P = E;
        E = E->IgnoreParenImpCasts();
        if (auto* X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); }
        else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); }
        else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); }
        else if (auto* X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); }
        else if (auto* X = dyn_cast<ExplicitCastExpr>(E)) { E = X->getSubExpr(); }
        else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); }
        else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); }
        else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); }
        else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); }
        else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            auto* C = X->getConstructor();
            if (C->isCopyOrMoveConstructor() && X->getNumArgs() >= 1 && !C->isUserProvided()) {
                E = X->getArg(0);
            } else if (X->isElidable() && X->getNumArgs() >= 1) {
                E = X->getArg(0);
            }
        }
        if (E == P) { break; }
    }
    return E;
}

class FnDumper {
public:
    FnDumper(ASTContext& C, const SourceManager& S) : Ctx(C), SM(S) {}

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L).str();
        llvm::SmallString<256> P(F);
        return canon(P.str().str());
    }
    static std::string canon(std::string F) {
        // collapse a/../
        std::vector<std::string> parts;
        std::string cur;
        auto flush = [&]() {
            if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
            else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
        };
        for (char c : F) { if (c == '/') flush(); else cur.push_back(c); }
        flush();
        std::string r;
        for (auto& p : parts) { r += "/"; r += p; }
        return r;
    }
    bool inRoot(SourceLocation L) {
        auto F = fileOf(L);
        return F.compare(0, Root.size(), Root) == 0;
    }
    std::string rel(SourceLocation L) {
        auto F = fileOf(L);
        if (F.compare(0, Root.size(), Root) == 0) { return F.substr(Root.size()); }
        return F;
    }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

    std::string tystr(QualType T) {
        PrintingPolicy PP(Ctx.getLangOpts());
        PP.SuppressTagKeyword = true;
        return T.getCanonicalType().getAsString(PP);
    }
    std::string qn(const NamedDecl* D) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        PrintingPolicy PP(Ctx.getLangOpts());
        D->printQualifiedName(OS, PP);
        return OS.str();
    }

    std::string fieldName(const FieldDecl* F) {
        const RecordDecl* R = F->getParent();
        while (R->isAnonymousStructOrUnion()) {
            auto* P = dyn_cast<RecordDecl>(R->getDeclContext());
            if (!P) { break; }
            R = P;
        }
        return qn(R) + "::" + F->getNameAsString();
    }

    bool isLogMacro(SourceLocation L) {
        while (L.isMacroID()) {
            auto N = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts());
            if (N.starts_with("LOG") || N.starts_with("VLOG") || N.starts_with("DVLOG") ||
                N.starts_with("DLOG") || N.starts_with("shirakami_log") ||
                N.starts_with("shirakami_ex_log") || N.starts_with("log_rc")) {
                return true;
            }
            L = SM.getImmediateMacroCallerLoc(L);
        }
        return false;
    }

    int idOf(const Stmt* S) {
        auto It = Ids.find(S);
        if (It != Ids.end()) { return It->second; }
        int N = static_cast<int>(Ids.size()) + 1;
        Ids[S] = N;
        return N;
    }
    int varId(const ValueDecl* D) {
        D = cast<ValueDecl>(D->getCanonicalDecl());
        auto It = Vars.find(D);
        if (It != Vars.end()) { return It->second; }
        int N = static_cast<int>(Vars.size()) + 1;
        Vars[D] = N;
        return N;
    }
    // variables are shared between a function and the lambdas inside it, so
    // name them by declaration position instead of by function
    std::string varKey(const ValueDecl* D) {
        D = cast<ValueDecl>(D->getCanonicalDecl());
        auto L = SM.getExpansionLoc(D->getLocation());
        unsigned Off = SM.getFileOffset(L);
        return D->getNameAsString() + "@" + std::to_string(Off) + (D->isImplicit() ? "i" : "") +
               (D->getLocation().isMacroID() ? "m" + std::to_string(SM.getFileOffset(SM.getSpellingLoc(D->getLocation()))) : "");
    }

    json::Value constVal(const llvm::APSInt& V) {
        if (V.isSigned()) {
            if (V.getSignificantBits() <= 64) { return json::Value(static_cast<int64_t>(V.getSExtValue())); }
        } else {
            if (V.getActiveBits() <= 63) { return json::Value(static_cast<int64_t>(V.getZExtValue())); }
        }
        llvm::SmallString<40> S;
        V.toString(S, 10);
        return json::Value("#" + S.str().str());
    }

    bool tryConst(const Expr* E, json::Object& O) {
        if (E->isValueDependent() || E->isTypeDependent()) { return false; }
        if (isa<CXXThisExpr>(E) || isa<CallExpr>(E) || isa<LambdaExpr>(E) || isa<InitListExpr>(E)) {
            // constexpr calls such as numeric_limits<>::max()
            if (auto* C = dyn_cast<CallExpr>(E)) {
                auto* F = C->getDirectCallee();
                if (!F || !F->isConstexpr()) { return false; }
            } else { return false; }
        }
        auto T = E->getType();
        if (T->isNullPtrType()) { O["k"] = "const"; O["v"] = "null"; return true; }
        if (!T->isIntegralOrEnumerationType()) { return false; }
        if (E->isLValue() && !isa<DeclRefExpr>(E) && !isa<MemberExpr>(E)) { return false; }
        if (E->isLValue()) {
            const ValueDecl* D = nullptr;
            if (auto* R = dyn_cast<DeclRefExpr>(E)) { D = R->getDecl(); }
            if (auto* R = dyn_cast<MemberExpr>(E)) { D = R->getMemberDecl(); }
            auto* V = dyn_cast_or_null<VarDecl>(D);
            if (!V || !(V->getType().isConstQualified() || V->isConstexpr())) { return false; }
            if (V->getType()->isReferenceType()) { return false; }
            if (!V->hasInit()) { return false; }
        }
        Expr::EvalResult R;
        if (E->HasSideEffects(Ctx)) { return false; }
        if (!E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects, true)) { return false; }
        O["k"] = "const";
        if (T->isBooleanType()) { O["v"] = R.Val.getInt().getBoolValue(); }
        else { O["v"] = constVal(R.Val.getInt()); }
        if (auto* ET = T->getAs<EnumType>()) {
            O["e"] = qn(ET->getDecl());
            for (auto* EC : ET->getDecl()->enumerators()) {
                if (llvm::APSInt::compareValues(EC->getInitVal(), R.Val.getInt()) == 0) { O["en"] = EC->getNameAsString(); break; }
            }
        }
        return true;
    }

    json::Array ids(llvm::ArrayRef<const Expr*> A) {
        json::Array R;
        for (auto* E : A) { R.push_back(ref(E)); }
        return R;
    }
    json::Value ref(const Expr* E) {
        if (!E) { return nullptr; }
        E = strip(E);
        int I = idOf(E);
        define(E);
        return I;
    }
    void calleeInfo(const FunctionDecl* F, json::Object& O) {
        O["f"] = usr(F);
        O["n"] = qn(F);
        json::Array PT;
        for (auto* P : F->parameters()) {
            auto T = P->getType();
            std::string M;
            if (T->isLValueReferenceType()) { M = T->getPointeeType().isConstQualified() ? "cr" : "r"; }
            else if (T->isRValueReferenceType()) { M = "rr"; }
            else if (T->isPointerType()) { M = T->getPointeeType().isConstQualified() ? "cp" : "p"; }
            else { M = "v"; }
            PT.push_back(M);
        }
        O["pm"] = std::move(PT);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isConst()) { O["cm"] = true; }
            if (M->isStatic()) { O["st"] = true; }
        }
        if (F->isNoReturn()) { O["nr"] = true; }
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            json::Array A;
            for (auto& T : TA->asArray()) {
                if (T.getKind() == TemplateArgument::Integral) { A.push_back(constVal(T.getAsIntegral())); }
            }
            if (!A.empty()) { O["ta"] = std::move(A); }
        }
    }

    void markLog(const Stmt* S) {
        if (!S) { return; }
        LogSub.insert(S);
        for (auto* C : S->children()) { markLog(C); }
    }

    static bool isOstream(QualType T) {
        T = T.getNonReferenceType();
        auto* RD = T->getAsCXXRecordDecl();
        return RD && (RD->getName() == "basic_ostream" || RD->getName() == "LogStream");
    }

    void define(const Expr* E) {
        int I = idOf(E);
        if (Defined.count(I)) { return; }
        Defined.insert(I);
        json::Object O;
        build(E, O);
        O["l"] = line(E->getBeginLoc());
        X[std::to_string(I)] = std::move(O);
    }

    void build(const Expr* E, json::Object& O) {
        bool Log = LogSub.count(E) || isLogMacro(E->getBeginLoc());
        if (auto* C = dyn_cast<CXXConstructExpr>(E)) {
            auto N = C->getConstructor()->getParent()->getName();
            if (N == "LogMessageFatal" || N == "NullStreamFatal") { O["k"] = "fatal"; return; }
        }
        if (Log) {
            O["k"] = "log";
            return;
        }
        if (tryConst(E, O)) { return; }
        if (auto* R = dyn_cast<DeclRefExpr>(E)) { buildRef(R->getDecl(), O, R); return; }
        if (auto* M = dyn_cast<MemberExpr>(E)) {
            if (auto* F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
                O["k"] = "mem";
                O["f"] = fieldName(F);
                if (F->isAnonymousStructOrUnion()) { O["anon"] = true; }
                O["b"] = ref(M->getBase());
                if (M->isArrow()) { O["arrow"] = true; }
            } else if (auto* V = dyn_cast<VarDecl>(M->getMemberDecl())) {
                buildRef(V, O, nullptr);
            } else {
                O["k"] = "memfn";
                O["b"] = ref(M->getBase());
                if (M->isArrow()) { O["arrow"] = true; }
            }
            return;
        }
        if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return; }
        if (auto* S = dyn_cast<StringLiteral>(E)) {
            O["k"] = "str";
            O["v"] = S->isOrdinary() ? json::fixUTF8(S->getString()) : std::string("?");
            return;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "const"; O["v"] = "null"; return; }
        if (auto* U = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "un";
            O["o"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isIncrementDecrementOp()) { O["post"] = U->isPostfix(); }
            O["a"] = ref(U->getSubExpr());
            return;
        }
        if (auto* B = dyn_cast<BinaryOperator>(E)) {
            O["k"] = B->isAssignmentOp() ? "asg" : "bin";
            O["o"] = B->getOpcodeStr().str();
            O["a"] = ref(B->getLHS());
            O["b"] = ref(B->getRHS());
            return;
        }
        if (auto* C = dyn_cast<ConditionalOperator>(E)) {
            O["k"] = "cond";
            O["c"] = ref(C->getCond());
            O["a"] = ref(C->getTrueExpr());
            O["b"] = ref(C->getFalseExpr());
            return;
        }
        if (auto* A = dyn_cast<AtomicExpr>(E)) {
            O["k"] = "atomic";
            O["o"] = std::string(A->getOpAsString());
            json::Array R;
            R.push_back(ref(A->getPtr()));
            auto Op = A->getOp();
            if (Op == AtomicExpr::AO__atomic_compare_exchange_n || Op == AtomicExpr::AO__atomic_compare_exchange) {
                R.push_back(ref(A->getVal1()));
                R.push_back(ref(A->getVal2()));
            } else if (A->getNumSubExprs() > 2) {
                R.push_back(ref(A->getVal1()));
            }
            O["args"] = std::move(R);
            O["ord"] = ref(A->getOrder());
            return;
        }
        if (auto* C = dyn_cast<CXXOperatorCallExpr>(E)) {
            if (isOstream(C->getType()) && C->getOperator() == OO_LessLess) {
                markLog(C);
                O["k"] = "log";
                return;
            }
            auto* F = dyn_cast_or_null<FunctionDecl>(C->getCalleeDecl());
            O["k"] = "call";
            O["op"] = getOperatorSpelling(C->getOperator());
            if (F) { calleeInfo(F, O); }
            llvm::SmallVector<const Expr*, 4> A(C->arg_begin(), C->arg_end());
            if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && !A.empty()) {
                O["recv"] = ref(A[0]);
                A.erase(A.begin());
            }
            O["args"] = ids(A);
            O["t"] = tystr(E->getType());
            return;
        }
        if (auto* C = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "call";
            if (auto* F = C->getMethodDecl()) { calleeInfo(F, O); }
            O["recv"] = ref(C->getImplicitObjectArgument());
            if (auto* M = dyn_cast<MemberExpr>(strip(C->getCallee()))) {
                if (M->isArrow()) { O["arrow"] = true; }
            }
            llvm::SmallVector<const Expr*, 4> A(C->arg_begin(), C->arg_end());
            O["args"] = ids(A);
            O["t"] = tystr(E->getType());
            return;
        }
        if (auto* C = dyn_cast<CallExpr>(E)) {
            O["k"] = "call";
            if (auto* F = C->getDirectCallee()) { calleeInfo(F, O); }
            else { O["fe"] = ref(C->getCallee()); }
            llvm::SmallVector<const Expr*, 4> A(C->arg_begin(), C->arg_end());
            O["args"] = ids(A);
            O["t"] = tystr(E->getType());
            return;
        }
        if (auto* C = dyn_cast<CXXConstructExpr>(E)) {
            auto* D = C->getConstructor();
            O["k"] = "ctor";
            O["c"] = qn(D->getParent());
            calleeInfo(D, O);
            if (D->isCopyOrMoveConstructor()) { O["copy"] = true; }
            llvm::SmallVector<const Expr*, 4> A(C->arg_begin(), C->arg_end());
            O["args"] = ids(A);
            O["t"] = tystr(E->getType());
            return;
        }
        if (auto* L = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "lam";
            auto* M = L->getCallOperator();
            O["f"] = usr(M);
            json::Array G;
            if (auto* T = M->getDescribedFunctionTemplate()) {
                for (auto* S : T->specializations()) { G.push_back(usr(S)); }
            }
            if (!G.empty()) { O["gen"] = std::move(G); }
            json::Array Caps;
            auto IE = L->capture_init_begin();
            for (auto& C : L->captures()) {
                json::Object CO;
                if (C.capturesThis()) { CO["this"] = true; }
                else if (C.capturesVariable()) {
                    CO["v"] = varKey(C.getCapturedVar());
                    CO["ref"] = C.getCaptureKind() == LCK_ByRef;
                    if (auto* VD = dyn_cast<VarDecl>(C.getCapturedVar()); VD && VD->isInitCapture()) {
                        CO["ini"] = ref(VD->getInit());
                    }
                }
                ++IE;
                Caps.push_back(std::move(CO));
            }
            O["caps"] = std::move(Caps);
            return;
        }
        if (auto* N = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "new";
            O["t"] = tystr(N->getAllocatedType());
            O["i"] = ref(N->getInitializer());
            return;
        }
        if (auto* D = dyn_cast<CXXDeleteExpr>(E)) {
            O["k"] = "del";
            O["a"] = ref(D->getArgument());
            return;
        }
        if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "idx";
            O["a"] = ref(A->getBase());
            O["b"] = ref(A->getIdx());
            return;
        }
        if (auto* IL = dyn_cast<InitListExpr>(E)) {
            if (IL->getNumInits() == 0 && IL->getType()->isScalarType()) {
                O["k"] = "const";
                if (IL->getType()->isBooleanType()) { O["v"] = false; }
                else if (IL->getType()->isPointerType()) { O["v"] = "null"; }
                else {
                    O["v"] = 0;
                    if (auto* ET = IL->getType()->getAs<EnumType>()) {
                        O["e"] = qn(ET->getDecl());
                        for (auto* EC : ET->getDecl()->enumerators()) {
                            if (EC->getInitVal() == 0) { O["en"] = EC->getNameAsString(); }
                        }
                    }
                }
                return;
            }
            if (IL->getNumInits() == 1 && (IL->getType()->isScalarType() || IL->isTransparent())) {
                O["k"] = "pass";
                O["a"] = ref(IL->getInit(0));
                return;
            }
            O["k"] = "ilist";
            llvm::SmallVector<const Expr*, 4> A;
            for (auto* S : IL->inits()) { A.push_back(S); }
            O["args"] = ids(A);
            O["t"] = tystr(E->getType());
            if (auto* RD = E->getType()->getAsCXXRecordDecl()) {
                json::Array Fs;
                for (auto* F : RD->fields()) { Fs.push_back(fieldName(F)); }
                O["flds"] = std::move(Fs);
            }
            return;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            O["k"] = "const";
            if (E->getType()->isBooleanType()) { O["v"] = false; }
            else if (E->getType()->isPointerType()) { O["v"] = "null"; }
            else { O["v"] = 0; }
            return;
        }
        O["k"] = "other";
        O["c"] = E->getStmtClassName();
        json::Array R;
        for (auto* C : E->children()) {
            if (auto* CE = dyn_cast_or_null<Expr>(C)) { R.push_back(ref(CE)); }
        }
        O["args"] = std::move(R);
    }

    void buildRef(const ValueDecl* D, json::Object& O, const Expr*) {
        if (auto* F = dyn_cast<FunctionDecl>(D)) {
            O["k"] = "fnref";
            O["f"] = usr(F);
            O["n"] = qn(F);
            return;
        }
        if (auto* B = dyn_cast<BindingDecl>(D)) {
            O["k"] = "bind";
            O["v"] = varKey(cast<ValueDecl>(B->getDecomposedDecl()));
            int Idx = 0, N = 0;
            for (auto* BB : cast<DecompositionDecl>(B->getDecomposedDecl())->bindings()) {
                if (BB == B) { Idx = N; }
                ++N;
            }
            O["i"] = Idx;
            O["n"] = B->getNameAsString();
            return;
        }
        if (auto* V = dyn_cast<VarDecl>(D)) {
            if (V->hasGlobalStorage() && !V->isStaticLocal()) {
                O["k"] = "glob";
                O["n"] = qn(V);
                return;
            }
            if (V->isStaticLocal()) {
                O["k"] = "glob";
                O["n"] = qn(V) + "@static";
                return;
            }
            O["k"] = "var";
            O["v"] = varKey(V);
            O["n"] = V->getNameAsString();
            if (V->getType()->isReferenceType()) { O["rf"] = true; }
            return;
        }
        O["k"] = "other";
        O["c"] = "declref";
        O["args"] = json::Array();
    }

    void scanLogs(const Stmt* S) {
        if (!S) { return; }
        if (auto* C = dyn_cast<CXXOperatorCallExpr>(S)) {
            if (C->getOperator() == OO_LessLess && isOstream(C->getType())) { markLog(S); return; }
        }
        if (auto* L = dyn_cast<LambdaExpr>(S)) { (void)L; return; }
        for (auto* C : S->children()) { scanLogs(C); }
    }

    bool dump(const FunctionDecl* F, const std::string& Name, const std::string& Kind,
              const LambdaExpr* Lam, json::Object& FO) {
        const Stmt* Body = F->getBody();
        if (!Body) { return false; }
        bool OstreamFn = isOstream(F->getReturnType());
        if (OstreamFn) { return false; }
        scanLogs(Body);
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddImplicitDtors = true;
        BO.AddInitializers = true;
        BO.AddCXXDefaultInitExprInCtors = true;
        BO.PruneTriviallyFalseEdges = true;
        auto Cfg = CFG::buildCFG(F, const_cast<Stmt*>(Body), &Ctx, BO);
        if (!Cfg) { FO["nocfg"] = true; return false; }
        FO["id"] = usr(F);
        FO["n"] = Name;
        FO["kind"] = Kind;
        FO["file"] = rel(F->getLocation());
        FO["decl"] = rel(F->getCanonicalDecl()->getLocation());
        FO["l"] = line(F->getLocation());
        FO["el"] = line(Body->getEndLoc());
        FO["ret"] = tystr(F->getReturnType());
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            FO["cls"] = qn(M->getParent());
            if (M->isStatic()) { FO["static"] = true; }
            if (M->isConst()) { FO["constm"] = true; }
        }
        json::Array Ps;
        for (auto* P : F->parameters()) {
            json::Object PO;
            PO["v"] = varKey(P);
            PO["n"] = P->getNameAsString();
            PO["t"] = tystr(P->getType());
            PO["ref"] = P->getType()->isReferenceType();
            Ps.push_back(std::move(PO));
        }
        FO["params"] = std::move(Ps);
        json::Array Bs;
        for (auto* B : *Cfg) {
            json::Object BOb;
            BOb["i"] = static_cast<int64_t>(B->getBlockID());
            json::Array Es;
            for (auto& El : *B) {
                switch (El.getKind()) {
                    case CFGElement::Statement:
                    case CFGElement::Constructor:
                    case CFGElement::CXXRecordTypedCall: {
                        const Stmt* S = El.castAs<CFGStmt>().getStmt();
                        emitStmt(S, Es);
                        break;
                    }
                    case CFGElement::Initializer: {
                        auto* I = El.castAs<CFGInitializer>().getInitializer();
                        json::Object O;
                        O["k"] = "finit";
                        if (I->isAnyMemberInitializer()) {
                            O["f"] = fieldName(I->getAnyMember());
                            O["ft"] = tystr(I->getAnyMember()->getType());
                        }
                        else if (I->isBaseInitializer()) { O["base"] = tystr(QualType(I->getBaseClass(), 0)); }
                        O["a"] = ref(I->getInit());
                        O["l"] = line(I->getSourceLocation().isValid() ? I->getSourceLocation() : F->getLocation());
                        Es.push_back(std::move(O));
                        break;
                    }
                    case CFGElement::AutomaticObjectDtor: {
                        auto D = El.castAs<CFGAutomaticObjDtor>();
                        json::Object O;
                        O["k"] = "dtor";
                        O["v"] = varKey(D.getVarDecl());
                        O["t"] = tystr(D.getVarDecl()->getType());
                        O["l"] = D.getTriggerStmt() ? line(D.getTriggerStmt()->getEndLoc()) : 0;
                        Es.push_back(std::move(O));
                        break;
                    }
                    default: break;
                }
            }
            BOb["e"] = std::move(Es);
            if (auto* T = B->getTerminatorStmt()) {
                BOb["tk"] = T->getStmtClassName();
                if (isLogMacro(T->getBeginLoc())) { BOb["tlog"] = true; }
                if (auto* LO = dyn_cast<BinaryOperator>(T)) { BOb["to"] = LO->getOpcodeStr().str(); }
                if (auto* C = B->getTerminatorCondition(false)) {
                    if (auto* CE = dyn_cast<Expr>(C)) { BOb["c"] = ref(CE); }
                }
                BOb["tl"] = line(T->getBeginLoc());
            }
            if (auto* L = B->getLabel()) {
                if (auto* CS = dyn_cast<CaseStmt>(L)) {
                    json::Array Vs;
                    Expr::EvalResult R;
                    if (CS->getLHS()->EvaluateAsInt(R, Ctx)) { Vs.push_back(constVal(R.Val.getInt())); }
                    BOb["case"] = std::move(Vs);
                } else if (isa<DefaultStmt>(L)) { BOb["default"] = true; }
            }
            if (auto* LT = B->getLoopTarget()) { (void)LT; BOb["loop"] = true; }
            json::Array Ss;
            for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
                if (auto* R = It->getReachableBlock()) { Ss.push_back(static_cast<int64_t>(R->getBlockID())); }
                else { Ss.push_back(nullptr); }
            }
            BOb["s"] = std::move(Ss);
            if (B->hasNoReturnElement()) { BOb["nr"] = true; }
            Bs.push_back(std::move(BOb));
        }
        FO["entry"] = static_cast<int64_t>(Cfg->getEntry().getBlockID());
        FO["exit"] = static_cast<int64_t>(Cfg->getExit().getBlockID());
        FO["B"] = std::move(Bs);
        FO["X"] = std::move(X);
        (void)Lam;
        return true;
    }

    void emitStmt(const Stmt* S, json::Array& Es) {
        if (auto* E = dyn_cast<Expr>(S)) {
            auto* T = strip(E);
            if (T != E) { return; } // looked through; the inner one is emitted itself
            define(E);
            Es.push_back(idOf(E));
            return;
        }
        if (auto* D = dyn_cast<DeclStmt>(S)) {
            for (auto* DD : D->decls()) {
                auto* V = dyn_cast<VarDecl>(DD);
                if (!V) { continue; }
                json::Object O;
                O["k"] = "decl";
                O["v"] = varKey(V);
                O["n"] = V->getNameAsString();
                O["t"] = tystr(V->getType());
                O["ref"] = V->getType()->isReferenceType();
                if (V->isStaticLocal()) { O["static"] = true; }
                O["i"] = V->getInit() ? ref(V->getInit()) : json::Value(nullptr);
                O["l"] = line(V->getLocation());
                Es.push_back(std::move(O));
            }
            return;
        }
        if (auto* R = dyn_cast<ReturnStmt>(S)) {
            json::Object O;
            O["k"] = "ret";
            O["a"] = R->getRetValue() ? ref(R->getRetValue()) : json::Value(nullptr);
            O["l"] = line(R->getBeginLoc());
            Es.push_back(std::move(O));
            return;
        }
    }

private:
    ASTContext& Ctx;
    const SourceManager& SM;
    std::unordered_map<const Stmt*, int> Ids;
    std::unordered_map<const ValueDecl*, int> Vars;
    std::set<int> Defined;
    std::set<const Stmt*> LogSub;
    json::Object X;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    explicit Visitor(ASTContext& C) : Ctx(C), SM(C.getSourceManager()) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    void emit(const FunctionDecl* F, const std::string& Kind, const LambdaExpr* L) {
        if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) { return; }
        if (F->isDefaulted() || F->isDeleted()) { return; }
        FnDumper D(Ctx, SM);
        if (!D.inRoot(F->getLocation())) { return; }
        auto U = usr(F);
        if (U.empty() || !SeenFn.insert(U).second) { return; }
        std::string N = D.qn(F);
        if (L) {
            // name of the innermost enclosing function
            const DeclContext* DC = F->getDeclContext()->getParent();
            while (DC && !isa<FunctionDecl>(DC)) { DC = DC->getParent(); }
            if (DC) { N = D.qn(cast<FunctionDecl>(DC)) + "::<lambda>"; }
        }
        json::Object FO;
        if (D.dump(F, N, Kind, L, FO)) {
            if (L) {
                const DeclContext* DC = F->getDeclContext()->getParent();
                while (DC && !isa<FunctionDecl>(DC)) { DC = DC->getParent(); }
                if (DC) { FO["parent"] = usr(cast<FunctionDecl>(DC)); }
            }
            OutFns.push_back(std::move(FO));
        }
    }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()) { return true; }
        }
        emit(F, isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXMethodDecl>(F) ? "method" : "fn", nullptr);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* L) {
        auto* M = L->getCallOperator();
        if (auto* T = M->getDescribedFunctionTemplate()) {
            for (auto* S : T->specializations()) { emit(S, "lambda", L); }
        } else { emit(M, "lambda", L); }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) { return true; }
        FnDumper D(Ctx, SM);
        if (!D.inRoot(R->getLocation())) { return true; }
        auto N = D.qn(R);
        if (!SeenCls.insert("c:" + N).second) { return true; }
        json::Object O;
        O["n"] = N;
        O["file"] = D.rel(R->getLocation());
        O["l"] = D.line(R->getLocation());
        json::Array Fs;
        for (auto* F : R->fields()) {
            json::Object FO;
            FO["n"] = D.fieldName(F);
            FO["t"] = D.tystr(F->getType());
            FO["l"] = D.line(F->getLocation());
            if (F->isBitField()) { FO["bits"] = F->getBitWidthValue(Ctx); }
            Fs.push_back(std::move(FO));
        }
        O["fields"] = std::move(Fs);
        OutClasses.push_back(std::move(O));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        if (!E->isThisDeclarationADefinition()) { return true; }
        FnDumper D(Ctx, SM);
        if (!D.inRoot(E->getLocation())) { return true; }
        auto N = D.qn(E);
        if (!SeenCls.insert("e:" + N).second) { return true; }
        json::Object O;
        O["n"] = N;
        json::Array Vs;
        for (auto* C : E->enumerators()) {
            json::Array A;
            A.push_back(C->getNameAsString());
            A.push_back(D.constVal(C->getInitVal()));
            Vs.push_back(std::move(A));
        }
        O["vals"] = std::move(Vs);
        O["file"] = D.rel(E->getLocation());
        OutEnums.push_back(std::move(O));
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (!V->hasGlobalStorage() || V->isStaticLocal()) { return true; }
        FnDumper D(Ctx, SM);
        if (!D.inRoot(V->getLocation()) || V->getDeclContext()->isDependentContext()) { return true; }
        auto N = D.qn(V);
        if (!SeenCls.insert("g:" + N).second) { return true; }
        json::Object O;
        O["n"] = N;
        O["t"] = D.tystr(V->getType());
        O["file"] = D.rel(V->getLocation());
        O["l"] = D.line(V->getLocation());
        OutGlobals.push_back(std::move(O));
        return true;
    }

private:
    ASTContext& Ctx;
    const SourceManager& SM;
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { ++NErrors; return; }
        Visitor V(C);
        V.TraverseDecl(C.getTranslationUnitDecl());
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char** argv) {
    if (argc < 4) { return 2; }
    Root = argv[1];
    if (Root.back() != '/') { Root += '/'; }
    std::string Out = argv[2];
    std::vector<std::string> Files, Flags;
    bool F = false;
    for (int i = 3; i < argc; ++i) {
        std::string A = argv[i];
        if (A == "--" && !F) { F = true; continue; }
        (F ? Flags : Files).push_back(A);
    }
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool Tool(DB, Files);
    int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    if (rc != 0 || NErrors) { llvm::errs() << "extract: parse errors\n"; return 2; }
    json::Object O;
    O["fns"] = std::move(OutFns);
    O["classes"] = std::move(OutClasses);
    O["enums"] = std::move(OutEnums);
    O["globals"] = std::move(OutGlobals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    if (EC) { return 2; }
    OS << json::Value(std::move(O));
    return 0;
}
