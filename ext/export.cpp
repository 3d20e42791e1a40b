// export: parse one translation unit with clang and write, as JSON, the
// resolved program: records, and for each function defined under the given
// roots its CFG with resolved expression trees (template instantiations and
// lambda bodies included). No code of the unit is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/CompilerInvocation.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string              OutPath;

namespace {

std::string stripArgs(const std::string& s)
{
    // remove balanced <...> template argument lists (not operator<)
    std::string out;
    int         depth = 0;
    for (size_t i = 0; i < s.size(); i++) {
        if (s.compare(i, 8, "operator") == 0 && depth == 0) {
            out += "operator";
            i += 8;
            while (i < s.size() && !isalnum(s[i]) && s[i] != ' ' && s[i] != '('
                   && s[i] != ':') {
                out += s[i++];
            }
            if (i < s.size() && s[i] == '(') {
                out += s[i];
            } else
                i--;
            continue;
        }
        if (s[i] == '<')
            depth++;
        else if (s[i] == '>' && depth > 0)
            depth--;
        else if (depth == 0)
            out += s[i];
    }
    return out;
}

class Exporter : public RecursiveASTVisitor<Exporter>
{
public:
    ASTContext&                Ctx;
    SourceManager&             SM;
    PrintingPolicy             PP;
    json::Array                Functions, Records, Globals;
    std::set<std::string>      SeenF;
    std::set<const void*>      SeenR;
    std::map<const void*, int> DeclIds;
    std::map<const void*, int> StmtIds;
    int                        nextStmt = 1, nextDecl = 1;
    std::map<const FunctionDecl*, std::string> LambdaParent;
    std::string                                CurKey;
    std::vector<const FunctionDecl*>           PendingLambdas;

    explicit Exporter(ASTContext& C)
        : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword     = true;
        PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations  = false;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation L)
    {
        if (L.isInvalid())
            return "";
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        return F.str();
    }
    int lineOf(SourceLocation L)
    {
        if (L.isInvalid())
            return 0;
        return SM.getExpansionLineNumber(L);
    }
    bool inRoots(SourceLocation L)
    {
        std::string f = fileOf(L);
        for (auto& r : Roots)
            if (f.compare(0, r.size(), r) == 0)
                return true;
        return false;
    }
    int declId(const Decl* D)
    {
        auto& r = DeclIds[D->getCanonicalDecl()];
        if (!r)
            r = nextDecl++;
        return r;
    }
    int stmtId(const Stmt* S)
    {
        auto& r = StmtIds[S];
        if (!r)
            r = nextStmt++;
        return r;
    }
    std::string typeStr(QualType T)
    {
        if (T.isNull())
            return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string qn(const NamedDecl* D)
    {
        std::string              s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    // lambda call operator key
    std::string lambdaKey(const CXXRecordDecl* R)
    {
        const DeclContext* DC = R->getDeclContext();
        std::string        parent;
        while (DC && !isa<FunctionDecl>(DC)) {
            DC = DC->getParent();
        }
        if (DC)
            parent = fkey(cast<FunctionDecl>(DC));
        SourceLocation L = SM.getExpansionLoc(R->getLocation());
        return parent + "::lambda@" + std::to_string(SM.getSpellingLineNumber(L))
               + ":" + std::to_string(SM.getSpellingColumnNumber(L));
    }
    std::string fkey(const FunctionDecl* F)
    {
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()
                && M->getOverloadedOperator() == OO_Call)
                return lambdaKey(M->getParent());
        }
        std::string              s;
        llvm::raw_string_ostream os(s);
        F->getNameForDiagnostic(os, PP, true);
        os << "(";
        bool first = true;
        for (auto* P : F->parameters()) {
            if (!first)
                os << ",";
            first = false;
            os << typeStr(P->getType());
        }
        os << ")";
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst())
                os << "const";
        os.flush();
        // instantiations on local types of the same name print alike
        const Decl* D = F->getCanonicalDecl();
        auto&       v = alike[s];
        auto        i = std::find(v.begin(), v.end(), D) - v.begin();
        if (i == (long)v.size())
            v.push_back(D);
        if (i > 0)
            s += "#" + std::to_string(i);
        return s;
    }
    std::map<std::string, std::vector<const Decl*>> alike;
    std::string fname(const FunctionDecl* F)
    {
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()
                && M->getOverloadedOperator() == OO_Call)
                return lambdaKey(M->getParent());
            if (isa<CXXConstructorDecl>(F)) {
                std::string r = stripArgs(qn(M->getParent()));
                return r + "::(ctor)";
            }
            if (isa<CXXDestructorDecl>(F)) {
                return stripArgs(qn(M->getParent())) + "::(dtor)";
            }
            if (auto* CD = dyn_cast<CXXConversionDecl>(F)) {
                return stripArgs(qn(M->getParent())) + "::(conv:"
                       + typeStr(CD->getConversionType()) + ")";
            }
        }
        return stripArgs(qn(F));
    }

    json::Value E(const Expr* X, int depth = 0)
    {
        if (!X)
            return nullptr;
        // skip noise
        const Expr* S = X;
        while (true) {
            if (auto* P = dyn_cast<ParenExpr>(S)) {
                S = P->getSubExpr();
                continue;
            }
            if (auto* P = dyn_cast<ExprWithCleanups>(S)) {
                S = P->getSubExpr();
                continue;
            }
            if (auto* P = dyn_cast<MaterializeTemporaryExpr>(S)) {
                S = P->getSubExpr();
                continue;
            }
            if (auto* P = dyn_cast<CXXBindTemporaryExpr>(S)) {
                S = P->getSubExpr();
                continue;
            }
            if (auto* P = dyn_cast<ConstantExpr>(S)) {
                S = P->getSubExpr();
                continue;
            }
            if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) {
                S = P->getReplacement();
                continue;
            }
            if (auto* P = dyn_cast<CXXStdInitializerListExpr>(S)) {
                S = P->getSubExpr();
                continue;
            }
            if (auto* P = dyn_cast<CXXDefaultArgExpr>(S)) {
                S = P->getExpr();
                continue;
            }
            if (auto* P = dyn_cast<CXXDefaultInitExpr>(S)) {
                S = P->getExpr();
                continue;
            }
            if (auto* P = dyn_cast<ImplicitCastExpr>(S)) {
                auto CK = P->getCastKind();
                if (CK == CK_IntegralCast) {
                    // keep narrowing conversions visible
                    QualType from = P->getSubExpr()->getType(), to = P->getType();
                    if (!from->isDependentType() && !to->isDependentType()
                        && from->isIntegerType() && to->isIntegerType()
                        && Ctx.getTypeSize(to) < Ctx.getTypeSize(from)) {
                        break;
                    }
                }
                S = P->getSubExpr();
                continue;
            }
            break;
        }
        json::Object o;
        o["id"] = stmtId(S);
        o["l"]  = lineOf(S->getExprLoc());
        o["t"]  = typeStr(S->getType());
        if (S->isGLValue())
            o["lv"] = 1;
        // constant value
        if (!S->isValueDependent() && !S->isTypeDependent()
            && S->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult R;
            if (!S->HasSideEffects(Ctx)
                && S->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
                llvm::SmallString<32> str;
                R.Val.getInt().toString(str, 10);
                o["cv"] = std::string(str);
            }
        }
        auto set = [&](const char* k) { o["k"] = k; };
        if (auto* L = dyn_cast<IntegerLiteral>(S)) {
            (void)L;
            set("int");
        } else if (isa<CharacterLiteral>(S)) {
            set("int");
        } else if (auto* B = dyn_cast<CXXBoolLiteralExpr>(S)) {
            set("bool");
            o["v"] = B->getValue();
        } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
            set("null");
        } else if (auto* SL = dyn_cast<StringLiteral>(S)) {
            set("str");
            std::string b;
            if (SL->getCharByteWidth() == 1)
                b = SL->getString().str();
            if (!llvm::json::isUTF8(b))
                b = llvm::json::fixUTF8(b);
            o["v"] = b;
        } else if (auto* FL = dyn_cast<FloatingLiteral>(S)) {
            set("float");
            llvm::SmallString<32> str;
            FL->getValue().toString(str);
            o["v"] = std::string(str);
        } else if (auto* D = dyn_cast<DeclRefExpr>(S)) {
            set("ref");
            refInfo(o, D->getDecl());
            if (D->refersToEnclosingVariableOrCapture())
                o["cap"] = 1;
        } else if (auto* M = dyn_cast<MemberExpr>(S)) {
            if (auto* FD = dyn_cast<FieldDecl>(M->getMemberDecl())) {
                set("mem");
                o["f"]  = FD->getNameAsString();
                o["cl"] = stripArgs(qn(cast<NamedDecl>(FD->getParent())));
                o["b"]  = E(M->getBase(), depth + 1);
                if (M->isArrow())
                    o["arrow"] = 1;
                if (FD->getType()->isReferenceType())
                    o["refT"] = 1;
            } else if (auto* VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
                set("ref");
                refInfo(o, VD);
            } else {
                set("methodref");
                o["b"] = E(M->getBase(), depth + 1);
                if (auto* FD2 = dyn_cast<FunctionDecl>(M->getMemberDecl()))
                    o["n"] = fname(FD2);
                if (M->isArrow())
                    o["arrow"] = 1;
            }
        } else if (isa<CXXThisExpr>(S)) {
            set("this");
        } else if (auto* C = dyn_cast<CXXConstructExpr>(S)) {
            set("ctor");
            auto* CD = C->getConstructor();
            callee(o, CD);
            o["cls"] = typeStr(C->getType());
            if (CD->isCopyConstructor())
                o["copy"] = 1;
            if (CD->isMoveConstructor())
                o["move"] = 1;
            if (CD->isDefaultConstructor() && C->getNumArgs() == 0)
                o["dflt"] = 1;
            o["a"] = args(C->arguments(), depth);
        } else if (auto* C = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
            set("ctor");
            callee(o, C->getConstructor());
            o["a"] = json::Array();
        } else if (auto* C = dyn_cast<CallExpr>(S)) {
            set("call");
            const FunctionDecl* FD = C->getDirectCallee();
            if (auto* OC = dyn_cast<CXXOperatorCallExpr>(C)) {
                o["op"] = std::string(getOperatorSpelling(OC->getOperator()));
                if (FD && isa<CXXMethodDecl>(FD)
                    && !cast<CXXMethodDecl>(FD)->isStatic()) {
                    o["obj"] = E(OC->getArg(0), depth + 1);
                    json::Array A;
                    for (unsigned i = 1; i < OC->getNumArgs(); i++)
                        A.push_back(E(OC->getArg(i), depth + 1));
                    o["a"] = std::move(A);
                } else
                    o["a"] = args(OC->arguments(), depth);
            } else if (auto* MC = dyn_cast<CXXMemberCallExpr>(C)) {
                o["a"]         = args(MC->arguments(), depth);
                const Expr* cal = MC->getCallee()->IgnoreParens();
                if (auto* ME = dyn_cast<MemberExpr>(cal)) {
                    o["obj"] = E(ME->getBase(), depth + 1);
                    if (ME->isArrow())
                        o["arrow"] = 1;
                    if (ME->hasQualifier())
                        o["qual"] = 1;
                } else {
                    o["obj"] = E(MC->getImplicitObjectArgument(), depth + 1);
                }
            } else {
                o["a"] = args(C->arguments(), depth);
            }
            if (FD)
                callee(o, FD);
            else
                o["cal"] = E(C->getCallee(), depth + 1);
        } else if (auto* U = dyn_cast<UnaryOperator>(S)) {
            set("un");
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix())
                o["post"] = 1;
            o["e"] = E(U->getSubExpr(), depth + 1);
        } else if (auto* B = dyn_cast<BinaryOperator>(S)) {
            if (B->isAssignmentOp())
                set("asg");
            else
                set("bin");
            o["op"] = B->getOpcodeStr().str();
            o["x"]  = E(B->getLHS(), depth + 1);
            o["y"]  = E(B->getRHS(), depth + 1);
        } else if (auto* C = dyn_cast<ConditionalOperator>(S)) {
            set("cond");
            o["c"] = E(C->getCond(), depth + 1);
            o["x"] = E(C->getTrueExpr(), depth + 1);
            o["y"] = E(C->getFalseExpr(), depth + 1);
        } else if (auto* A = dyn_cast<ArraySubscriptExpr>(S)) {
            set("idx");
            o["b"] = E(A->getBase(), depth + 1);
            o["i"] = E(A->getIdx(), depth + 1);
        } else if (auto* C = dyn_cast<CastExpr>(S)) {
            set("cast");
            o["ck"] = C->getCastKindName();
            if (isa<ImplicitCastExpr>(S))
                o["imp"] = 1;
            o["e"] = E(C->getSubExpr(), depth + 1);
        } else if (auto* N = dyn_cast<CXXNewExpr>(S)) {
            set("new");
            o["nt"] = typeStr(N->getAllocatedType());
            if (N->isArray()) {
                o["arr"] = 1;
                if (N->getArraySize() && *N->getArraySize())
                    o["n"] = E(*N->getArraySize(), depth + 1);
            }
            if (N->getInitializer())
                o["init"] = E(N->getInitializer(), depth + 1);
        } else if (auto* D = dyn_cast<CXXDeleteExpr>(S)) {
            set("del");
            if (D->isArrayForm())
                o["arr"] = 1;
            o["e"] = E(D->getArgument(), depth + 1);
        } else if (auto* T = dyn_cast<CXXThrowExpr>(S)) {
            set("throw");
            if (T->getSubExpr()) {
                o["e"]  = E(T->getSubExpr(), depth + 1);
                o["tt"] = typeStr(T->getSubExpr()->getType());
            }
        } else if (auto* L = dyn_cast<LambdaExpr>(S)) {
            set("lam");
            o["fn"] = lambdaKey(L->getLambdaClass());
            json::Array caps;
            auto        ci = L->capture_init_begin();
            for (auto& c : L->captures()) {
                json::Object co;
                if (c.capturesThis())
                    co["this"] = 1;
                else if (c.capturesVariable()) {
                    co["d"]   = declId(c.getCapturedVar());
                    co["n"]   = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    if (*ci)
                        co["init"] = E(*ci, depth + 1);
                }
                ++ci;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            noteLambda(L);
        } else if (auto* I = dyn_cast<InitListExpr>(S)) {
            set("ilist");
            const InitListExpr* IL
                = I->isSemanticForm() ? I
                                      : (I->getSemanticForm() ? I->getSemanticForm() : I);
            json::Array A;
            for (unsigned i = 0; i < IL->getNumInits() && i < 64; i++)
                A.push_back(E(IL->getInit(i), depth + 1));
            o["a"] = std::move(A);
            if (auto* RT = IL->getType()->getAs<RecordType>()) {
                json::Array fs;
                for (auto* f : RT->getDecl()->fields())
                    fs.push_back(f->getNameAsString());
                o["fs"] = std::move(fs);
            }
        } else if (auto* U = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            set("sizeof");
            o["of"] = typeStr(U->getTypeOfArgument());
        } else if (isa<CXXScalarValueInitExpr>(S)
                   || isa<ImplicitValueInitExpr>(S)) {
            set("zero");
        } else if (auto* V = dyn_cast<OpaqueValueExpr>(S)) {
            if (V->getSourceExpr())
                return E(V->getSourceExpr(), depth + 1);
            set("opaque");
        } else if (auto* SE = dyn_cast<StmtExpr>(S)) {
            (void)SE;
            set("stmtexpr");
        } else if (auto* A = dyn_cast<AtomicExpr>(S)) {
            (void)A;
            set("atomic");
        } else if (auto* AL = dyn_cast<ArrayInitLoopExpr>(S)) {
            set("arrcopy");
            o["e"] = E(AL->getCommonExpr()->getSourceExpr(), depth + 1);
        } else {
            set("other");
            o["cls"] = S->getStmtClassName();
            json::Array A;
            for (auto* c : S->children())
                if (auto* ce = dyn_cast_or_null<Expr>(c))
                    A.push_back(E(ce, depth + 1));
            o["a"] = std::move(A);
        }
        return json::Value(std::move(o));
    }
    void refInfo(json::Object& o, const ValueDecl* VD)
    {
        o["n"] = VD->getNameAsString();
        o["d"] = declId(VD);
        if (isa<ParmVarDecl>(VD))
            o["dk"] = "param";
        else if (auto* V = dyn_cast<VarDecl>(VD)) {
            if (V->isLocalVarDecl()) {
                o["dk"] = V->isStaticLocal() ? "static" : "var";
            } else {
                o["dk"] = "global";
                o["qn"] = stripArgs(qn(V));
            }
        } else if (auto* F = dyn_cast<FunctionDecl>(VD)) {
            o["dk"] = "func";
            o["qn"] = fname(F);
            o["fk"] = fkey(F);
        } else if (isa<EnumConstantDecl>(VD)) {
            o["dk"] = "enum";
            o["qn"] = qn(VD);
        } else if (auto* BD = dyn_cast<BindingDecl>(VD)) {
            o["dk"] = "binding";
            if (BD->getHoldingVar())
                o["hv"] = declId(BD->getHoldingVar());
        } else
            o["dk"] = "other";
        if (VD->getType()->isReferenceType())
            o["refT"] = 1;
    }
    template<class R>
    json::Array args(R range, int depth)
    {
        json::Array A;
        for (const Expr* a : range)
            A.push_back(E(a, depth + 1));
        return A;
    }
    void callee(json::Object& o, const FunctionDecl* FD)
    {
        o["fn"] = fname(FD);
        o["fk"] = fkey(FD);
        json::Array pt;
        for (auto* P : FD->parameters()) {
            QualType    T = P->getType();
            std::string m = "v";
            if (T->isReferenceType()) {
                QualType pt2 = T->getPointeeType();
                m = pt2.isConstQualified() ? "cr"
                    : T->isRValueReferenceType() ? "rr"
                                                 : "r";
            } else if (T->isPointerType()) {
                m = T->getPointeeType().isConstQualified() ? "cp" : "p";
            }
            pt.push_back(m);
        }
        o["pm"] = std::move(pt);
        if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            if (M->isConst())
                o["cm"] = 1;
            if (M->isVirtual())
                o["virt"] = 1;
            if (M->isStatic())
                o["static"] = 1;
        }
        if (FD->isNoReturn())
            o["noret"] = 1;
        if (FD->isVariadic())
            o["variadic"] = 1;
        if (inRoots(FD->getLocation()))
            o["repo"] = 1;
        if (auto* TA = FD->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& A : TA->asArray()) {
                std::string              s;
                llvm::raw_string_ostream os(s);
                A.print(PP, os, true);
                ta.push_back(os.str());
            }
            o["ta"] = std::move(ta);
        }
    }
    void noteLambda(const LambdaExpr* L)
    {
        if (auto* M = L->getCallOperator()) {
            if (L->getLambdaClass()->isGenericLambda()) {
                if (auto* FT = L->getLambdaClass()->getDependentLambdaCallOperator())
                    for (auto* sp : FT->specializations())
                        PendingLambdas.push_back(sp);
            } else
                PendingLambdas.push_back(M);
        }
    }

    json::Value stmtElem(const Stmt* S)
    {
        json::Object o;
        if (auto* X = dyn_cast<Expr>(S)) {
            return E(X);
        }
        o["id"] = stmtId(S);
        o["l"]  = lineOf(S->getBeginLoc());
        if (auto* D = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl";
            json::Array vars;
            for (auto* d : D->decls()) {
                if (auto* V = dyn_cast<VarDecl>(d)) {
                    json::Object v;
                    v["d"] = declId(V);
                    v["n"] = V->getNameAsString();
                    v["t"] = typeStr(V->getType());
                    if (V->getType()->isReferenceType())
                        v["ref"] = 1;
                    if (V->isStaticLocal())
                        v["static"] = 1;
                    if (V->getInit())
                        v["init"] = E(V->getInit());
                    if (isa<DecompositionDecl>(V)) {
                        json::Array bs;
                        for (auto* b : cast<DecompositionDecl>(V)->bindings()) {
                            json::Object bo;
                            bo["d"] = declId(b);
                            bo["n"] = b->getNameAsString();
                            if (b->getBinding())
                                bo["e"] = E(b->getBinding());
                            if (auto* hv = b->getHoldingVar()) {
                                bo["hv"] = declId(hv);
                                if (hv->getInit())
                                    bo["hvinit"] = E(hv->getInit());
                            }
                            bs.push_back(std::move(bo));
                        }
                        v["bind"] = std::move(bs);
                    }
                    vars.push_back(std::move(v));
                }
            }
            o["vars"] = std::move(vars);
        } else if (auto* R = dyn_cast<ReturnStmt>(S)) {
            o["k"] = "ret";
            if (R->getRetValue())
                o["e"] = E(R->getRetValue());
        } else {
            o["k"]   = "stmt";
            o["cls"] = S->getStmtClassName();
        }
        return json::Value(std::move(o));
    }

    void exportFunction(const FunctionDecl* F)
    {
        if (!F->doesThisDeclarationHaveABody())
            return;
        if (F->isDependentContext() || F->isTemplated())
            return;
        if (!inRoots(F->getLocation()))
            return;
        std::string key = fkey(F);
        if (!SeenF.insert(key).second)
            return;
        if (F->isDefaulted() && !F->isUserProvided() && !isa<CXXConstructorDecl>(F))
            return;
        json::Object o;
        o["key"]  = key;
        o["name"] = fname(F);
        o["file"] = fileOf(F->getLocation());
        o["line"] = lineOf(F->getLocation());
        o["ret"]  = typeStr(F->getReturnType());
        if (F->getReturnType()->isReferenceType())
            o["retref"] = 1;
        json::Array ps;
        for (auto* P : F->parameters()) {
            json::Object p;
            p["d"] = declId(P);
            p["n"] = P->getNameAsString();
            p["t"] = typeStr(P->getType());
            if (P->getType()->isReferenceType())
                p["ref"] = 1;
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = stripArgs(qn(M->getParent()));
            if (M->getParent()->isLambda())
                o["lambda"] = 1;
            if (M->isStatic())
                o["static"] = 1;
            if (M->isVirtual())
                o["virt"] = 1;
            if (M->isConst())
                o["const"] = 1;
            if (M->getParent()->isLambda()) {
                // capture map: closure decls
            }
            json::Array ov;
            for (auto* om : M->overridden_methods())
                ov.push_back(fname(om));
            o["over"] = std::move(ov);
            o["access"] = M->getAccess() == AS_public      ? "public"
                          : M->getAccess() == AS_protected ? "protected"
                                                           : "private";
            if (auto* C = dyn_cast<CXXConstructorDecl>(F)) {
                o["ctor"] = 1;
                if (C->isMoveConstructor())
                    o["movector"] = 1;
                if (C->isCopyConstructor())
                    o["copyctor"] = 1;
                if (C->isImplicit() || C->isDefaulted())
                    o["implicit"] = 1;
            }
            if (isa<CXXDestructorDecl>(F))
                o["dtor"] = 1;
        }
        if (auto* FPT = F->getType()->getAs<FunctionProtoType>())
            if (FPT->isNothrow())
                o["noexcept"] = 1;
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& A : TA->asArray()) {
                std::string              s;
                llvm::raw_string_ostream os(s);
                A.print(PP, os, true);
                ta.push_back(os.str());
            }
            o["ta"] = std::move(ta);
        }
        // locals types
        CFG::BuildOptions BO;
        BO.AddImplicitDtors = true;
        BO.AddInitializers  = true;
        BO.AddEHEdges       = true;
        BO.PruneTriviallyFalseEdges          = true;
        BO.AddCXXDefaultInitExprInCtors      = true;
        BO.setAlwaysAdd(Stmt::CallExprClass);
        BO.setAlwaysAdd(Stmt::CXXMemberCallExprClass);
        BO.setAlwaysAdd(Stmt::CXXOperatorCallExprClass);
        BO.setAlwaysAdd(Stmt::UserDefinedLiteralClass);
        BO.setAlwaysAdd(Stmt::CXXConstructExprClass);
        BO.setAlwaysAdd(Stmt::CXXTemporaryObjectExprClass);
        BO.setAlwaysAdd(Stmt::CXXNewExprClass);
        BO.setAlwaysAdd(Stmt::CXXDeleteExprClass);
        BO.setAlwaysAdd(Stmt::CXXThrowExprClass);
        BO.setAlwaysAdd(Stmt::BinaryOperatorClass);
        BO.setAlwaysAdd(Stmt::CompoundAssignOperatorClass);
        BO.setAlwaysAdd(Stmt::UnaryOperatorClass);
        BO.setAlwaysAdd(Stmt::ConditionalOperatorClass);
        BO.setAlwaysAdd(Stmt::LambdaExprClass);
        auto cfg = CFG::buildCFG(F, F->getBody(), &Ctx, BO);
        if (!cfg) {
            o["nocfg"] = 1;
            Functions.push_back(std::move(o));
            return;
        }
        json::Object cj;
        cj["entry"] = (int)cfg->getEntry().getBlockID();
        cj["exit"]  = (int)cfg->getExit().getBlockID();
        json::Array blocks;
        for (auto* B : *cfg) {
            json::Object b;
            b["id"] = (int)B->getBlockID();
            json::Array els;
            for (auto& el : *B) {
                switch (el.getKind()) {
                case CFGElement::Statement:
                case CFGElement::Constructor:
                case CFGElement::CXXRecordTypedCall: {
                    const Stmt* S = el.castAs<CFGStmt>().getStmt();
                    els.push_back(stmtElem(S));
                    break;
                }
                case CFGElement::Initializer: {
                    auto*        I = el.castAs<CFGInitializer>().getInitializer();
                    json::Object io;
                    io["k"] = "init";
                    io["l"] = lineOf(I->getSourceLocation());
                    if (I->isMemberInitializer()) {
                        io["f"]  = I->getMember()->getNameAsString();
                        io["cl"] = stripArgs(
                            qn(cast<NamedDecl>(I->getMember()->getParent())));
                        if (I->getMember()->getType()->isReferenceType())
                            io["ref"] = 1;
                        io["t"] = typeStr(I->getMember()->getType());
                        if (I->isInClassMemberInitializer())
                            io["inclass"] = 1;
                    } else if (I->isBaseInitializer()) {
                        io["base"] = typeStr(QualType(I->getBaseClass(), 0));
                    } else if (I->isDelegatingInitializer())
                        io["deleg"] = 1;
                    io["e"] = E(I->getInit());
                    els.push_back(std::move(io));
                    break;
                }
                case CFGElement::AutomaticObjectDtor: {
                    auto         D = el.castAs<CFGAutomaticObjDtor>();
                    json::Object d;
                    d["k"]  = "dtor";
                    d["dk"] = "auto";
                    d["d"]  = declId(D.getVarDecl());
                    d["n"]  = D.getVarDecl()->getNameAsString();
                    d["t"]  = typeStr(D.getVarDecl()->getType());
                    d["l"]  = lineOf(D.getTriggerStmt()
                                         ? D.getTriggerStmt()->getEndLoc()
                                         : SourceLocation());
                    auto T = D.getVarDecl()->getType();
                    if (auto* RD = T.getNonReferenceType()->getAsCXXRecordDecl())
                        if (auto* DD = RD->getDestructor()) {
                            d["fk"] = fkey(DD);
                            d["fn"] = fname(DD);
                        }
                    els.push_back(std::move(d));
                    break;
                }
                case CFGElement::MemberDtor:
                case CFGElement::BaseDtor:
                case CFGElement::DeleteDtor:
                case CFGElement::TemporaryDtor: {
                    json::Object d;
                    d["k"]  = "dtor";
                    d["dk"] = "other";
                    if (el.getKind() == CFGElement::MemberDtor) {
                        auto* FD = el.castAs<CFGMemberDtor>().getFieldDecl();
                        d["dk"]  = "member";
                        d["n"]   = FD->getNameAsString();
                        d["t"]   = typeStr(FD->getType());
                    }
                    els.push_back(std::move(d));
                    break;
                }
                default:
                    break;
                }
            }
            b["e"] = std::move(els);
            if (const Stmt* L = B->getLabel()) {
                if (auto* C = dyn_cast<CaseStmt>(L)) {
                    json::Array cs;
                    // fallthrough labels: nested case statements each get
                    // their own block except directly nested ones
                    b["case"] = E(C->getLHS());
                    if (C->getRHS())
                        b["caseHi"] = E(C->getRHS());
                } else if (isa<DefaultStmt>(L))
                    b["default"] = 1;
                else if (auto* CS = dyn_cast<CXXCatchStmt>(L)) {
                    json::Object c;
                    if (CS->getExceptionDecl()) {
                        c["d"] = declId(CS->getExceptionDecl());
                        c["t"] = typeStr(CS->getCaughtType());
                    } else
                        c["t"] = "...";
                    b["catch"] = std::move(c);
                }
            }
            if (const Stmt* T = B->getTerminatorStmt()) {
                json::Object t;
                t["k"]  = T->getStmtClassName();
                t["id"] = stmtId(T);
                t["l"]  = lineOf(T->getBeginLoc());
                if (auto* TS = dyn_cast<CXXTryStmt>(T))
                    t["l2"] = lineOf(TS->getTryBlock()->getEndLoc());
                if (auto* c = B->getTerminatorCondition(true))
                    if (auto* ce = dyn_cast<Expr>(c))
                        t["c"] = E(ce);
                if (auto* BO2 = dyn_cast<BinaryOperator>(T))
                    t["op"] = BO2->getOpcodeStr().str();
                if (B->getTerminator().isTemporaryDtorsBranch())
                    t["tmpd"] = 1;
                b["t"] = std::move(t);
            }
            if (B->getLoopTarget())
                b["loop"] = 1;
            if (B->hasNoReturnElement())
                b["noret"] = 1;
            json::Array ss;
            for (auto& s : B->succs()) {
                if (auto* r = s.getReachableBlock())
                    ss.push_back((int)r->getBlockID());
                else
                    ss.push_back(nullptr);
            }
            b["s"] = std::move(ss);
            blocks.push_back(std::move(b));
        }
        cj["blocks"] = std::move(blocks);
        o["cfg"]     = std::move(cj);
        Functions.push_back(std::move(o));
        // lambdas met in the body
        std::vector<const FunctionDecl*> pl;
        pl.swap(PendingLambdas);
        for (auto* l : pl)
            exportFunction(l);
    }

    bool VisitFunctionDecl(FunctionDecl* F)
    {
        exportFunction(F);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* L)
    {
        if (!L->getBeginLoc().isValid())
            return true;
        if (auto* M = L->getCallOperator())
            if (!M->isDependentContext())
                exportFunction(M);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext()
            || R->isLambda())
            return true;
        if (!inRoots(R->getLocation()))
            return true;
        if (!SeenR.insert(R).second)
            return true;
        json::Object o;
        o["name"] = stripArgs(qn(R));
        o["type"] = typeStr(QualType(R->getTypeForDecl(), 0));
        o["file"] = fileOf(R->getLocation());
        o["line"] = lineOf(R->getLocation());
        json::Array fs;
        for (auto* f : R->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = typeStr(f->getType());
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = E(f->getInClassInitializer());
            if (f->getType().isConstQualified())
                fo["const"] = 1;
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (auto& b : R->bases())
            bs.push_back(stripArgs(typeStr(b.getType())));
        o["bases"] = std::move(bs);
        json::Array ms;
        for (auto* m : R->methods()) {
            json::Object mo;
            mo["n"]  = fname(m);
            mo["fk"] = fkey(m);
            if (m->isVirtual())
                mo["virt"] = 1;
            if (m->isPureVirtual())
                mo["pure"] = 1;
            if (m->isDeleted())
                mo["del"] = 1;
            if (m->isImplicit())
                mo["impl"] = 1;
            mo["access"] = m->getAccess() == AS_public ? "public" : "private";
            if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator())
                mo["asgop"] = 1;
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                if (c->isCopyConstructor())
                    mo["copy"] = 1;
                if (c->isMoveConstructor())
                    mo["move"] = 1;
            }
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        Records.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (V->isLocalVarDeclOrParm() || V->getDeclContext()->isDependentContext())
            return true;
        if (!V->hasGlobalStorage() || !inRoots(V->getLocation()))
            return true;
        if (V->isTemplated())
            return true;
        json::Object o;
        o["n"]    = stripArgs(qn(V));
        o["t"]    = typeStr(V->getType());
        o["file"] = fileOf(V->getLocation());
        o["line"] = lineOf(V->getLocation());
        if (V->getInit() && !V->getInit()->isValueDependent())
            o["init"] = E(V->getInit());
        Globals.push_back(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer
{
    CompilerInstance& CI;

public:
    explicit Consumer(CompilerInstance& C) : CI(C) {}
    void HandleTranslationUnit(ASTContext& Ctx) override
    {
        Exporter X(Ctx);
        X.TraverseDecl(Ctx.getTranslationUnitDecl());
        std::error_code      EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        json::Object         o;
        o["functions"] = std::move(X.Functions);
        o["records"]   = std::move(X.Records);
        o["globals"]   = std::move(X.Globals);
        o["errors"]    = (int)CI.getDiagnostics().getClient()->getNumErrors();
        os << json::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI,
                                                   StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};
} // namespace

int main(int argc, char** argv)
{
    // export OUT ROOTS(':'-separated) SOURCE -- flags...
    if (argc < 5)
        return 3;
    OutPath = argv[1];
    std::string r = argv[2];
    size_t      p = 0;
    while (p != std::string::npos) {
        size_t q = r.find(':', p);
        Roots.push_back(r.substr(p, q == std::string::npos ? q : q - p));
        p = q == std::string::npos ? q : q + 1;
    }
    std::string              src = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; i++)
        args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", args);
    tooling::ClangTool                Tool(DB, {src});
    class F : public tooling::FrontendActionFactory
    {
    public:
        std::unique_ptr<FrontendAction> create() override
        {
            return std::make_unique<Action>();
        }
    } fac;
    int rc = Tool.run(&fac);
    // parse errors are reported in the output; a fact file may still exist
    return rc == 0 ? 0 : 2;
}
