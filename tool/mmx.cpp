#include <cmath>
// mmx: extracts a compact, fully resolved representation (JSON lines) of every
// non-dependent function / record that is defined below a source root.
// One JSON object per line:
//   {"R":...}  record   {"F":...} function   {"S":[...]} strings table (at end)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/SHA1.h"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <fstream>
#include <iostream>

using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo/src/";
static std::vector<std::string> ExtraRoots;
static std::ofstream Out;
static bool HadError = false;

namespace {

class Extractor : public RecursiveASTVisitor<Extractor> {
public:
    explicit Extractor(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations = false; PP.TerseOutput = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    bool inRoot(SourceLocation L) {
        if (L.isInvalid()) return false;
        L = SM.getExpansionLoc(L);
        auto F = SM.getFileID(L);
        auto It = RootCache.find(F);
        if (It != RootCache.end()) return It->second;
        llvm::StringRef N = SM.getFilename(L);
        bool R = N.starts_with(Root) || N.contains("/repo/_build/src/");
        for (auto &E : ExtraRoots) R = R || N.starts_with(E);
        RootCache[F] = R;
        return R;
    }

    static std::string norm(llvm::StringRef F) {
        llvm::SmallString<256> P(F);
        llvm::sys::path::remove_dots(P, true);
        return P.str().str();
    }
    std::string loc(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        std::string N = norm(SM.getFilename(L));
        if (llvm::StringRef(N).starts_with(Root)) N = N.substr(Root.size());
        return N + ":" + std::to_string(SM.getExpansionLineNumber(L));
    }
    int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }

    int str(const std::string &S) {
        auto It = StrIdx.find(S);
        if (It != StrIdx.end()) return It->second;
        int I = Strs.size();
        Strs.push_back(S);
        StrIdx[S] = I;
        return I;
    }

    std::string shortHash(llvm::StringRef S) {
        auto H = llvm::SHA1::hash(llvm::ArrayRef<uint8_t>((const uint8_t *)S.data(), S.size()));
        return llvm::toHex(llvm::ArrayRef<uint8_t>(H.data(), 8), true);
    }

    // types ------------------------------------------------------------
    std::unordered_map<void *, int> TypeIdx;
    json::Array Types;
    std::string recName(QualType T) {
        if (auto *RD = T->getAsCXXRecordDecl()) return qname(RD);
        return "";
    }
    std::string qname(const NamedDecl *D) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        D->printQualifiedName(OS, PP);
        return S;
    }
    int type(QualType T) {
        if (T.isNull()) return -1;
        void *K = T.getAsOpaquePtr();
        auto It = TypeIdx.find(K);
        if (It != TypeIdx.end()) return It->second;
        QualType C = T.getCanonicalType();
        std::string Flags;
        QualType B = C;
        if (B->isLValueReferenceType()) Flags += "&";
        if (B->isRValueReferenceType()) Flags += "&&";
        B = B.getNonReferenceType();
        if (B.isConstQualified()) Flags += "c";
        bool Ptr = false;
        if (B->isPointerType()) { Flags += "*"; Ptr = true; B = B->getPointeeType(); if (B.isConstQualified()) Flags += "k"; }
        std::string Kind = "o";
        if (Ptr) Kind = "p";
        else if (B->isBooleanType()) Kind = "b";
        else if (B->isEnumeralType()) Kind = "e";
        else if (B->isUnsignedIntegerType()) Kind = "u";
        else if (B->isSignedIntegerType()) Kind = "i";
        else if (B->isFloatingType()) Kind = "f";
        else if (B->isVoidType()) Kind = "v";
        json::Object O;
        std::string N = recName(B);
        if (N.empty()) N = B.getUnqualifiedType().getAsString(PP);
        O["n"] = N;
        if (!Flags.empty()) O["f"] = Flags;
        O["k"] = Kind;
        if (auto *RD = B->getAsCXXRecordDecl()) O["r"] = recId(RD);
        std::string Full = T.getAsString(PP);
        if (Full.size() > 240) Full = Full.substr(0, 240) + "...";
        O["s"] = Full;
        int I = Types.size();
        Types.push_back(std::move(O));
        TypeIdx[K] = I;
        return I;
    }

    std::unordered_map<const Decl *, std::string> RecIds;
    std::string recId(const CXXRecordDecl *RD) {
        RD = RD->getCanonicalDecl();
        auto It = RecIds.find(RD);
        if (It != RecIds.end()) return It->second;
        std::string S;
        if (RD->isLambda()) S = "lambda@" + loc(RD->getBeginLoc()) + ":" + std::to_string(SM.getExpansionColumnNumber(RD->getBeginLoc()));
        QualType T(RD->getTypeForDecl(), 0);
        S += T.getCanonicalType().getAsString(PP);
        std::string H = shortHash(S);
        RecIds[RD] = H;
        return H;
    }

    std::unordered_map<const Decl *, std::string> FnIds;
    std::string fnId(const FunctionDecl *FD) {
        FD = FD->getCanonicalDecl();
        auto It = FnIds.find(FD);
        if (It != FnIds.end()) return It->second;
        llvm::SmallString<256> Buf;
        std::string S;
        if (!index::generateUSRForDecl(FD, Buf)) S = Buf.str().str();
        // USRs of lambdas / local entities are not unique enough
        S += "|" + FD->getType().getCanonicalType().getAsString(PP);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) S += "|" + recId(MD->getParent());
        if (auto *TA = FD->getTemplateSpecializationArgs())
            for (auto &A : TA->asArray()) {
                llvm::raw_string_ostream OS(S);
                OS << "|";
                A.print(PP, OS, true);
            }
        std::string H = shortHash(S);
        FnIds[FD] = H;
        return H;
    }

    const FunctionDecl *pattern(const FunctionDecl *FD) {
        if (auto *P = FD->getTemplateInstantiationPattern()) return P;
        return FD;
    }

    // decl refs ----------------------------------------------------------
    std::unordered_map<const Decl *, int> LocalIdx;
    int localId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto It = LocalIdx.find(D);
        if (It != LocalIdx.end()) return It->second;
        int I = LocalIdx.size() + 1;
        LocalIdx[D] = I;
        return I;
    }

    // callee descriptor: index into a per-TU table
    std::unordered_map<const Decl *, int> CalleeIdx;
    json::Array Callees;
    int callee(const FunctionDecl *FD) {
        FD = FD->getCanonicalDecl();
        auto It = CalleeIdx.find(FD);
        if (It != CalleeIdx.end()) return It->second;
        json::Object O;
        O["q"] = qname(FD);
        O["n"] = FD->getNameAsString();
        const FunctionDecl *P = pattern(FD);
        bool In = inRoot(P->getLocation());
        if (In) { O["id"] = fnId(FD); O["l"] = loc(P->getLocation()); }
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
            O["rec"] = qname(MD->getParent());
            O["r"] = recId(MD->getParent());
            if (MD->isConst()) O["const"] = 1;
            if (MD->isStatic()) O["static"] = 1;
            if (isa<CXXConstructorDecl>(MD)) {
                auto *CD = cast<CXXConstructorDecl>(MD);
                O["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
            } else if (MD->isCopyAssignmentOperator()) O["asg"] = "copy";
            else if (MD->isMoveAssignmentOperator()) O["asg"] = "move";
            if (MD->isVirtual()) O["virt"] = 1;
            if (isa<CXXDestructorDecl>(MD)) O["dtor"] = 1;
        }
        if (FD->isNoReturn()) O["noreturn"] = 1;
        if (auto *TA = FD->getTemplateSpecializationArgs()) {
            std::string A;
            llvm::raw_string_ostream OS(A);
            bool First = true;
            for (auto &X : TA->asArray()) { if (!First) OS << ", "; First = false; X.print(PP, OS, false); }
            OS.flush();
            if (A.size() > 300) A.resize(300);
            O["ta"] = json::fixUTF8(A);
            if (O["q"].getAsString() && O["q"].getAsString()->starts_with("boost::interprocess")) {
                json::Array TR;
                for (auto &X : TA->asArray())
                    if (X.getKind() == TemplateArgument::Type) TR.push_back(type(X.getAsType().getCanonicalType()));
                O["tr"] = std::move(TR);
            }
        }
        if (FD->isDefaulted()) O["def"] = 1;
        json::Array PT;
        for (auto *PV : FD->parameters()) PT.push_back(type(PV->getType()));
        O["pt"] = std::move(PT);
        O["rt"] = type(FD->getReturnType());
        int I = Callees.size();
        Callees.push_back(std::move(O));
        CalleeIdx[FD] = I;
        return I;
    }

    // expressions ----------------------------------------------------------
    json::Value list(std::initializer_list<json::Value> L) { json::Array A; for (auto &V : L) A.push_back(V); return A; }

    json::Object mk(const char *K, const Stmt *S) {
        json::Object O;
        O["k"] = K;
        O["l"] = line(S->getBeginLoc());
        return O;
    }
    json::Array exprs(llvm::ArrayRef<const Expr *> A) { json::Array R; for (auto *E : A) R.push_back(E ? expr(E) : json::Value(nullptr)); return R; }

    json::Value fieldRef(const ValueDecl *D) { return D->getNameAsString(); }

    json::Value expr(const Expr *E) {
        if (!E) return nullptr;
        // strip
        while (true) {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<FullExpr>(E)) { if (isa<ConstantExpr>(P) || isa<ExprWithCleanups>(P)) { E = P->getSubExpr(); continue; } }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *C = dyn_cast<ImplicitCastExpr>(E)) {
                auto K = C->getCastKind();
                if (K == CK_IntegralCast || K == CK_IntegralToFloating || K == CK_FloatingToIntegral || K == CK_FloatingCast) {
                    // keep numeric conversions that change kind
                    json::Object O = mk("icast", C);
                    O["t"] = type(C->getType());
                    O["e"] = expr(C->getSubExpr());
                    return O;
                }
                E = C->getSubExpr();
                continue;
            }
            break;
        }
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            auto *D = X->getDecl();
            json::Object O = mk("ref", E);
            O["t"] = type(D->getType().isNull() ? X->getType() : D->getType());
            if (auto *FD = dyn_cast<FunctionDecl>(D)) { O["k"] = "fref"; O["c"] = callee(FD); return O; }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["k"] = "enum"; O["n"] = EC->getNameAsString(); llvm::SmallString<16> V; EC->getInitVal().toString(V); O["v"] = V.str().str(); return O; }
            O["n"] = D->getNameAsString();
            O["d"] = localId(D);
            if (isa<ParmVarDecl>(D)) O["s"] = "param";
            else if (auto *VD = dyn_cast<VarDecl>(D)) {
                if (VD->isLocalVarDecl()) O["s"] = VD->isStaticLocal() ? "slocal" : "local";
                else { O["s"] = VD->isStaticDataMember() ? "smember" : "global"; O["q"] = qname(VD); }
                if (VD->getType().isConstQualified() || VD->isConstexpr()) {
                    O["cq"] = 1;
                    if (const Expr *I = VD->getAnyInitializer()) {
                        if (!I->isValueDependent() && VD->getType()->isArithmeticType()) {
                            Expr::EvalResult R;
                            if (I->EvaluateAsRValue(R, Ctx)) putConst(O, R.Val);
                        }
                        if (auto *SL = dyn_cast<clang::StringLiteral>(I->IgnoreImplicit())) if (SL->isOrdinary()) O["sv"] = json::fixUTF8(SL->getString());
                    }
                }
            } else if (isa<BindingDecl>(D)) {
                O["s"] = "binding";
            } else O["s"] = "other";
            return O;
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            auto *D = X->getMemberDecl();
            if (auto *FD = dyn_cast<CXXMethodDecl>(D)) {
                json::Object O = mk("mref", E);
                O["c"] = callee(FD);
                O["b"] = expr(X->getBase());
                return O;
            }
            json::Object O = mk("mem", E);
            O["n"] = D->getNameAsString();
            O["b"] = expr(X->getBase());
            O["t"] = type(D->getType());
            if (auto *F = dyn_cast<FieldDecl>(D)) { O["rec"] = str(qname(F->getParent())); if (F->isMutable()) O["mut"] = 1; }
            else O["static"] = 1;
            if (X->isArrow()) O["arrow"] = 1;
            return O;
        }
        if (isa<CXXThisExpr>(E)) { json::Object O = mk("this", E); return O; }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            json::Object O = mk("mcall", E);
            if (auto *FD = X->getMethodDecl()) O["c"] = callee(FD);
            auto *O_ = X->getImplicitObjectArgument();
            O["o"] = O_ ? expr(O_) : json::Value(nullptr);
            if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) { if (ME->isArrow()) O["arrow"] = 1; if (ME->hasQualifier()) O["qual"] = 1; }
            json::Array A;
            for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
            O["a"] = std::move(A);
            O["t"] = type(X->getType());
            return O;
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            json::Object O = mk("opcall", E);
            O["op"] = getOperatorSpelling(X->getOperator());
            if (auto *FD = X->getDirectCallee()) O["c"] = callee(FD);
            json::Array A;
            for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
            O["a"] = std::move(A);
            O["t"] = type(X->getType());
            return O;
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            json::Object O = mk("call", E);
            if (auto *FD = X->getDirectCallee()) O["c"] = callee(FD);
            else O["f"] = expr(X->getCallee());
            json::Array A;
            for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
            O["a"] = std::move(A);
            O["t"] = type(X->getType());
            Expr::EvalResult R;
            if (X->getType()->isArithmeticType() && !X->isValueDependent() && X->isCXX11ConstantExpr(Ctx) && X->EvaluateAsRValue(R, Ctx)) putConst(O, R.Val);
            return O;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            // elidable copies of prvalues: look through
            if (X->isElidable() && X->getNumArgs() >= 1) return expr(X->getArg(0));
            json::Object O = mk("ctor", E);
            O["c"] = callee(X->getConstructor());
            json::Array A;
            for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
            O["a"] = std::move(A);
            O["t"] = type(X->getType());
            return O;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            json::Object O = mk("lambda", E);
            json::Array Caps;
            auto InitIt = X->capture_init_begin();
            for (auto &C : X->captures()) {
                json::Object CO;
                if (C.capturesThis()) CO["this"] = 1;
                else if (C.capturesVariable()) {
                    auto *V = C.getCapturedVar();
                    CO["n"] = V->getNameAsString();
                    CO["d"] = localId(V);
                    CO["ref"] = C.getCaptureKind() == LCK_ByRef;
                    if (auto *VD = dyn_cast<VarDecl>(V); VD && VD->isInitCapture()) CO["init"] = expr(VD->getInit());
                }
                Caps.push_back(std::move(CO));
                ++InitIt;
            }
            O["caps"] = std::move(Caps);
            O["mut"] = X->isMutable();
            O["def"] = X->getCaptureDefault() == LCD_ByRef ? "&" : X->getCaptureDefault() == LCD_ByCopy ? "=" : "";
            const CXXMethodDecl *Op = X->getCallOperator();
            json::Array Bodies;
            if (X->isGenericLambda()) {
                if (auto *TD = X->getLambdaClass()->getDependentLambdaCallOperator())
                    for (auto *Sp : TD->specializations()) if (Sp->hasBody()) Bodies.push_back(lambdaBody(Sp));
                if (Bodies.empty()) O["generic"] = 1;
            } else Bodies.push_back(lambdaBody(Op));
            O["bodies"] = std::move(Bodies);
            return O;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            json::Object O = mk("un", E);
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "p" : "");
            O["e"] = expr(X->getSubExpr());
            O["t"] = type(X->getType());
            return O;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            json::Object O = mk(X->isAssignmentOp() ? "asg" : "bin", E);
            O["op"] = X->getOpcodeStr().str();
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
            O["t"] = type(X->getType());
            return O;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            json::Object O = mk("cond", E);
            O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
            O["t"] = type(X->getType());
            return O;
        }
        if (auto *X = dyn_cast<IntegerLiteral>(E)) { json::Object O = mk("int", E); llvm::SmallString<32> S; X->getValue().toStringUnsigned(S); O["v"] = S.str().str(); O["t"] = type(X->getType()); return O; }
        if (auto *X = dyn_cast<FloatingLiteral>(E)) { json::Object O = mk("float", E); O["v"] = X->getValueAsApproximateDouble(); O["t"] = type(X->getType()); return O; }
        if (auto *X = dyn_cast<clang::StringLiteral>(E)) { json::Object O = mk("str", E); O["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string("?"); return O; }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) { json::Object O = mk("char", E); O["v"] = (int64_t)X->getValue(); return O; }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { json::Object O = mk("bool", E); O["v"] = X->getValue(); return O; }
        if (isa<CXXNullPtrLiteralExpr>(E)) return mk("null", E);
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { json::Object O = mk("sub", E); O["b"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); O["t"] = type(X->getType()); return O; }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            json::Object O = mk("init", E); O["t"] = type(X->getType());
            json::Array A; for (auto *I : X->inits()) A.push_back(expr(I)); O["a"] = std::move(A);
            if (auto *RD = X->getType()->getAsCXXRecordDecl(); RD && RD->isAggregate()) {
                json::Array F; for (auto *FD : RD->fields()) F.push_back(FD->getNameAsString()); O["fields"] = std::move(F);
            }
            return O; }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) { json::Object O = mk("new", E); O["t"] = type(X->getAllocatedType()); O["e"] = X->getInitializer() ? expr(X->getInitializer()) : json::Value(nullptr); return O; }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { json::Object O = mk("delete", E); O["e"] = expr(X->getArgument()); return O; }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) { json::Object O = mk("throw", E); O["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : json::Value(nullptr); return O; }
        if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
            json::Object O = mk("cast", E); O["t"] = type(X->getTypeAsWritten()); O["e"] = expr(X->getSubExpr());
            if (isa<CXXConstCastExpr>(X)) O["const_cast"] = 1;
            if (isa<CXXReinterpretCastExpr>(X)) O["reinterpret"] = 1;
            Expr::EvalResult R;
            if (X->getType()->isArithmeticType() && !X->isValueDependent() && X->isCXX11ConstantExpr(Ctx) && X->EvaluateAsRValue(R, Ctx)) putConst(O, R.Val);
            return O; }
        if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { json::Object O = mk("zero", E); O["t"] = type(X->getType()); return O; }
        if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { json::Object O = mk("zero", E); O["t"] = type(X->getType()); return O; }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { json::Object O = mk("sizeof", E); O["t"] = type(X->getTypeOfArgument()); return O; }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { json::Object O = mk("ctor", E); O["c"] = callee(X->getConstructor()); O["a"] = json::Array{}; O["t"] = type(X->getType()); O["inh"] = 1; return O; }
        if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { return X->getSourceExpr() ? expr(X->getSourceExpr()) : json::Value(nullptr); }
        // fallback
        json::Object O = mk("x", E);
        O["cls"] = E->getStmtClassName();
        O["t"] = type(E->getType());
        Expr::EvalResult R;
        if (!E->isValueDependent() && !E->isTypeDependent() && !E->getType().isNull() && E->getType()->isArithmeticType() && E->EvaluateAsRValue(R, Ctx)) putConst(O, R.Val);
        json::Array A;
        for (auto *C : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(C)) A.push_back(expr(CE));
        O["a"] = std::move(A);
        return O;
    }
    void putConst(json::Object &O, const APValue &V) {
        if (V.isInt()) { llvm::SmallString<32> S; V.getInt().toString(S); O["cv"] = S.str().str(); }
        else if (V.isFloat()) { double D = V.getFloat().convertToDouble(); if (std::isfinite(D)) O["cv"] = D; else O["cv"] = std::isnan(D) ? "nan" : D > 0 ? "inf" : "-inf"; }
    }
    json::Value lambdaBody(const FunctionDecl *Op) {
        json::Object O;
        json::Array Ps;
        for (auto *P : Op->parameters()) Ps.push_back(var(P, false));
        O["ps"] = std::move(Ps);
        O["rt"] = type(Op->getReturnType());
        O["body"] = stmt(Op->getBody());
        O["id"] = fnId(Op);
        return O;
    }
    json::Value var(const VarDecl *V, bool Init = true) {
        json::Object O;
        O["n"] = V->getNameAsString();
        O["d"] = localId(V);
        O["t"] = type(V->getType());
        O["l"] = line(V->getLocation());
        if (V->isStaticLocal()) O["static"] = 1;
        if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = 1;
        if (Init && V->getInit()) O["e"] = expr(V->getInit());
        if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array B;
            for (auto *BD : DD->bindings()) {
                json::Object BO; BO["n"] = BD->getNameAsString(); BO["d"] = localId(BD);
                if (auto *HV = BD->getHoldingVar()) { BO["hv"] = localId(HV); }
                else if (BD->getBinding()) BO["e"] = expr(BD->getBinding());
                B.push_back(std::move(BO));
            }
            O["bind"] = std::move(B);
        }
        return O;
    }
    json::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) { json::Object O = mk("expr", S); O["e"] = expr(E); return O; }
        if (auto *X = dyn_cast<CompoundStmt>(S)) { json::Object O = mk("block", S); json::Array A; for (auto *C : X->body()) A.push_back(stmt(C)); O["s"] = std::move(A); O["el"] = line(X->getRBracLoc()); return O; }
        if (auto *X = dyn_cast<DeclStmt>(S)) { json::Object O = mk("decl", S); json::Array A; for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V)); O["v"] = std::move(A); return O; }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            if (X->isConstexpr()) {
                auto N = X->getNondiscardedCase(Ctx);
                if (N) { json::Object O = mk("block", S); json::Array A; if (X->getInit()) A.push_back(stmt(X->getInit())); if (*N) A.push_back(stmt(*N)); O["s"] = std::move(A); O["cx"] = 1; return O; }
            }
            json::Object O = mk("if", S);
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["a"] = stmt(X->getThen());
            if (X->getElse()) O["b"] = stmt(X->getElse());
            return O;
        }
        if (auto *X = dyn_cast<ForStmt>(S)) { json::Object O = mk("for", S); O["init"] = stmt(X->getInit()); O["c"] = X->getCond() ? expr(X->getCond()) : json::Value(nullptr); O["inc"] = X->getInc() ? expr(X->getInc()) : json::Value(nullptr); O["b"] = stmt(X->getBody()); return O; }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { json::Object O = mk("rfor", S); O["v"] = var(X->getLoopVariable(), true); O["r"] = expr(X->getRangeInit()); if (X->getInit()) O["init"] = stmt(X->getInit()); O["b"] = stmt(X->getBody()); return O; }
        if (auto *X = dyn_cast<WhileStmt>(S)) { json::Object O = mk("while", S); if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
        if (auto *X = dyn_cast<DoStmt>(S)) { json::Object O = mk("do", S); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
        if (auto *X = dyn_cast<ReturnStmt>(S)) { json::Object O = mk("ret", S); O["e"] = X->getRetValue() ? expr(X->getRetValue()) : json::Value(nullptr); return O; }
        if (isa<BreakStmt>(S)) return mk("break", S);
        if (isa<ContinueStmt>(S)) return mk("continue", S);
        if (isa<NullStmt>(S)) return mk("nop", S);
        if (auto *X = dyn_cast<SwitchStmt>(S)) { json::Object O = mk("switch", S); if (X->getInit()) O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
        if (auto *X = dyn_cast<CaseStmt>(S)) { json::Object O = mk("case", S); O["v"] = expr(X->getLHS()); O["s"] = stmt(X->getSubStmt()); return O; }
        if (auto *X = dyn_cast<DefaultStmt>(S)) { json::Object O = mk("default", S); O["s"] = stmt(X->getSubStmt()); return O; }
        if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (auto *X = dyn_cast<CXXTryStmt>(S)) { json::Object O = mk("try", S); O["b"] = stmt(X->getTryBlock()); json::Array A; for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto *H = X->getHandler(i); json::Object HO; HO["t"] = H->getCaughtType().isNull() ? -1 : type(H->getCaughtType()); if (H->getExceptionDecl()) HO["v"] = var(H->getExceptionDecl(), false); HO["b"] = stmt(H->getHandlerBlock()); A.push_back(std::move(HO)); } O["h"] = std::move(A); return O; }
        json::Object O = mk("xs", S); O["cls"] = S->getStmtClassName(); json::Array A; for (auto *C : S->children()) A.push_back(stmt(C)); O["s"] = std::move(A); return O;
    }

    // visitors ---------------------------------------------------------
    std::set<std::string> DoneFn, DoneRec;

    bool VisitFunctionDecl(FunctionDecl *FD) {
        if (FD->isDependentContext() || FD->getType()->isDependentType()) return true;
        if (!FD->isThisDeclarationADefinition() && !(FD->isDefaulted() && FD->isThisDeclarationADefinition())) return true;
        const FunctionDecl *P = pattern(FD);
        if (!inRoot(P->getLocation())) return true;
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) if (MD->getParent()->isLambda()) return true;
        bool Body = FD->doesThisDeclarationHaveABody() && FD->getBody();
        std::string Id = fnId(FD);
        if (!DoneFn.insert(Id + (Body ? "b" : "")).second) return true;
        json::Object O;
        O["id"] = Id;
        O["q"] = qname(FD);
        O["n"] = FD->getNameAsString();
        O["loc"] = loc(P->getLocation());
        O["end"] = line(P->getEndLoc());
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
            O["rec"] = qname(MD->getParent());
            O["r"] = recId(MD->getParent());
            if (MD->isConst()) O["const"] = 1;
            if (MD->isStatic()) O["static"] = 1;
            if (MD->isVirtual()) O["virt"] = 1;
            O["acc"] = MD->getAccess() == AS_public ? "public" : MD->getAccess() == AS_protected ? "protected" : "private";
            if (isa<CXXDestructorDecl>(MD)) O["dtor"] = 1;
            if (MD->isCopyAssignmentOperator()) O["asg"] = "copy";
            if (MD->isMoveAssignmentOperator()) O["asg"] = "move";
        }
        if (FD->isDefaulted()) O["def"] = 1;
        if (FD->isImplicit()) O["impl"] = 1;
        if (FD->isDeleted()) O["deleted"] = 1;
        if (isNoexceptExceptionSpec(FD->getExceptionSpecType())) O["noexcept"] = 1;
        if (FD->getTemplateSpecializationArgs()) {
            std::string S; llvm::raw_string_ostream OS(S);
            for (auto &A : FD->getTemplateSpecializationArgs()->asArray()) { A.print(PP, OS, true); OS << ";"; }
            if (S.size() > 400) S.resize(400);
            O["ta"] = S;
        }
        O["rt"] = type(FD->getReturnType());
        json::Array Ps;
        for (auto *PV : FD->parameters()) Ps.push_back(var(PV, false));
        O["ps"] = std::move(Ps);
        if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
            O["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
            json::Array I;
            for (auto *CI : CD->inits()) {
                json::Object IO;
                if (CI->isMemberInitializer()) IO["m"] = CI->getMember()->getNameAsString();
                else if (CI->isBaseInitializer()) { IO["b"] = recName(QualType(CI->getBaseClass(), 0)); if (auto *BR = QualType(CI->getBaseClass(), 0)->getAsCXXRecordDecl()) IO["br"] = recId(BR); }
                else if (CI->isDelegatingInitializer()) IO["del"] = 1;
                if (CI->isWritten()) IO["w"] = 1;
                IO["e"] = expr(CI->getInit());
                I.push_back(std::move(IO));
            }
            O["inits"] = std::move(I);
        }
        if (Body) O["body"] = stmt(FD->getBody());
        emit("F", std::move(O));
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
        if (RD->isDependentContext() || !RD->isThisDeclarationADefinition() || RD->isLambda()) return true;
        if (!RD->isCompleteDefinition() || RD->isInvalidDecl()) return true;
        if (!inRoot(RD->getLocation())) return true;
        std::string Id = recId(RD);
        if (!DoneRec.insert(Id).second) return true;
        json::Object O;
        O["id"] = Id;
        O["q"] = qname(RD);
        QualType T(RD->getTypeForDecl(), 0);
        std::string S = T.getCanonicalType().getAsString(PP);
        if (S.size() > 600) S.resize(600);
        O["s"] = S;
        O["loc"] = loc(RD->getLocation());
        json::Array F;
        for (auto *FD : RD->fields()) {
            json::Object FO;
            FO["n"] = FD->getNameAsString();
            FO["t"] = type(FD->getType());
            FO["l"] = line(FD->getLocation());
            if (FD->isMutable()) FO["mut"] = 1;
            if (FD->hasInClassInitializer() && FD->getInClassInitializer()) FO["e"] = expr(FD->getInClassInitializer());
            F.push_back(std::move(FO));
        }
        O["f"] = std::move(F);
        json::Array B;
        for (auto &BS : RD->bases()) {
            json::Object BO;
            BO["n"] = recName(BS.getType());
            if (auto *BR = BS.getType()->getAsCXXRecordDecl()) BO["r"] = recId(BR);
            if (BS.isVirtual()) BO["virt"] = 1;
            B.push_back(std::move(BO));
        }
        O["b"] = std::move(B);
        json::Array M;
        for (auto *MD : RD->methods()) {
            json::Object MO;
            MO["n"] = MD->getNameAsString();
            MO["id"] = fnId(MD);
            MO["l"] = line(pattern(MD)->getLocation());
            if (MD->isConst()) MO["const"] = 1;
            if (MD->isStatic()) MO["static"] = 1;
            if (MD->isDefaulted()) MO["def"] = 1;
            if (MD->isDeleted()) MO["deleted"] = 1;
            if (MD->isImplicit()) MO["impl"] = 1;
            if (MD->isVirtual()) MO["virt"] = 1;
            if (MD->isCopyAssignmentOperator()) MO["sp"] = "copyasg";
            if (MD->isMoveAssignmentOperator()) MO["sp"] = "moveasg";
            if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) MO["sp"] = CD->isCopyConstructor() ? "copyctor" : CD->isMoveConstructor() ? "movector" : "ctor";
            if (isa<CXXDestructorDecl>(MD)) MO["sp"] = "dtor";
            MO["acc"] = MD->getAccess() == AS_public ? "public" : MD->getAccess() == AS_protected ? "protected" : "private";
            MO["rt"] = type(MD->getReturnType());
            M.push_back(std::move(MO));
        }
        O["m"] = std::move(M);
        emit("R", std::move(O));
        return true;
    }

    bool VisitVarDecl(VarDecl *V) {
        if (isa<ParmVarDecl>(V)) return true;
        if (!(V->hasGlobalStorage())) return true;
        if (V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) return true;
        if (!inRoot(V->getLocation())) return true;
        json::Object O;
        O["q"] = qname(V);
        O["n"] = V->getNameAsString();
        O["t"] = type(V->getType());
        O["loc"] = loc(V->getLocation());
        if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = 1;
        if (V->isConstexpr() || V->getType().isConstQualified()) O["const"] = 1;
        if (V->isStaticLocal()) O["slocal"] = 1;
        if (V->getInit() && !V->getInit()->isValueDependent()) O["e"] = expr(V->getInit());
        emit("V", std::move(O));
        return true;
    }

    static std::string gs(json::Object &O, const char *K) {
        if (auto V = O.getString(K)) return V->str();
        return "";
    }
    // line format: kind TAB id TAB qualified name TAB pattern location TAB record TAB record id TAB json
    void emit(const char *K, json::Object O) {
        std::string H = std::string(K) + "\t" + gs(O, "id") + "\t" + gs(O, "q") + "\t" + gs(O, "loc") + "\t" + gs(O, "rec") + "\t" +
            gs(O, "r") + "\t" + (O.get("body") ? "b" : "") + "\t";
        std::string S;
        llvm::raw_string_ostream OS(S);
        OS << json::Value(std::move(O));
        Out << H << OS.str() << "\n";
    }
    void finish() {
        json::Object W;
        json::Array A;
        for (auto &S : Strs) A.push_back(S);
        W["S"] = std::move(A);
        W["T"] = std::move(Types);
        W["C"] = std::move(Callees);
        json::Array Fs;
        for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) { std::string N = norm(It->first.getName()); if (llvm::StringRef(N).starts_with(Root)) Fs.push_back(N.substr(Root.size())); }
        W["files"] = std::move(Fs);
        std::string S;
        llvm::raw_string_ostream OS(S);
        OS << json::Value(std::move(W));
        Out << "Z\t\t\t\t\t\t\t" << OS.str() << "\n";
    }

private:
    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<FileID, bool> RootCache;
    std::vector<std::string> Strs;
    std::unordered_map<std::string, int> StrIdx;
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { HadError = true; return; }
        Extractor X(C);
        X.TraverseDecl(C.getTranslationUnitDecl());
        X.finish();
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
}

int main(int argc, char **argv) {
    // mmx OUT FILE ROOT[,ROOT..] -- flags...
    if (argc < 5) { std::cerr << "usage: mmx OUT FILE ROOTS -- flags\n"; return 2; }
    Out.open(argv[1]);
    std::string File = argv[2];
    {
        std::string R = argv[3];
        size_t p = R.find(',');
        Root = R.substr(0, p);
        while (p != std::string::npos) { size_t q = R.find(',', p + 1); ExtraRoots.push_back(R.substr(p + 1, q == std::string::npos ? q : q - p - 1)); p = q; }
    }
    std::vector<std::string> Flags;
    for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool Tool(DB, {File});
    int R = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    Out.close();
    return (R || HadError) ? 2 : 0;
}
