// qbfacts: dump a resolved model of the quickbook sources (functions with
// expression trees and control flow graphs, classes, enums, globals) as JSON.
// One translation unit per invocation.  Nothing is executed or interpreted
// here; the rules in /verif/lib decide on the facts.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root; // only declarations below this directory are dumped

static int64_t i64(const llvm::APSInt& v)
{
    return v.isRepresentableByInt64() ? v.getExtValue() : -1;
}

static std::string usrOf(const Decl* D)
{
    llvm::SmallString<256> buf;
    if (!D || index::generateUSRForDecl(D, buf)) return std::string();
    return std::string(buf.str());
}

struct Dumper
{
    ASTContext& Ctx;
    SourceManager& SM;
    PrintingPolicy PP;
    json::OStream J;
    std::map<const Decl*, unsigned> DeclIds;
    std::set<const FunctionDecl*> Done;

    Dumper(ASTContext& C, llvm::raw_ostream& OS)
        : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()), J(OS, 0)
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressUnwrittenScope = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
    }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        const FileEntry* FE = SM.getFileEntryForID(SM.getFileID(L));
        if (!FE) return std::string();
        llvm::StringRef n = FE->tryGetRealPathName();
        if (n.empty()) n = FE->getName();
        return n.str();
    }
    bool inRoot(SourceLocation L)
    {
        if (L.isInvalid()) return false;
        std::string f = fileOf(L);
        return f.compare(0, Root.size(), Root) == 0;
    }
    std::string relFile(SourceLocation L)
    {
        std::string f = fileOf(L);
        if (f.compare(0, Root.size(), Root) == 0) return f.substr(Root.size());
        return f;
    }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    unsigned col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

    std::string macroOf(SourceLocation L)
    {
        if (!L.isMacroID()) return std::string();
        // Outermost macro whose expansion contains this location.
        SourceLocation cur = L;
        std::string name;
        while (cur.isMacroID()) {
            if (SM.isMacroArgExpansion(cur)) {
                // Written by the user as an argument: skip outwards, but keep
                // looking in case the invocation itself is in a macro body.
                cur = SM.getImmediateExpansionRange(cur).getBegin();
                if (cur.isMacroID()) continue;
                // argument written directly in the file
                name = "(arg)" + name;
                break;
            }
            name = Lexer::getImmediateMacroName(cur, SM, Ctx.getLangOpts()).str();
            cur = SM.getImmediateExpansionRange(cur).getBegin();
        }
        return name;
    }

    unsigned declId(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = DeclIds.find(D);
        if (it != DeclIds.end()) return it->second;
        unsigned n = DeclIds.size() + 1;
        DeclIds[D] = n;
        return n;
    }

    std::string qname(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        os.flush();
        return s;
    }

    std::string typeStr(QualType T)
    {
        if (T.isNull()) return "";
        T = T.getCanonicalType();
        std::string suffix;
        std::string prefix;
        QualType B = T;
        while (true) {
            if (B->isReferenceType()) {
                suffix = (B->isLValueReferenceType() ? "&" : "&&") + suffix;
                B = B->getPointeeType();
            }
            else if (B->isPointerType() && !B->getPointeeType()->isFunctionType()) {
                suffix = std::string("*") + (B.isConstQualified() ? "const" : "") + suffix;
                B = B->getPointeeType();
            }
            else
                break;
        }
        if (B.isConstQualified()) prefix = "const ";
        B = B.getUnqualifiedType();
        std::string s;
        if (const CXXRecordDecl* R = B->getAsCXXRecordDecl()) {
            s = B.getAsString(PP);
            if (s.size() > 140 || s.find("boost::spirit") != std::string::npos ||
                s.find("phoenix::") != std::string::npos) {
                s = qname(R);
                if (isa<ClassTemplateSpecializationDecl>(R)) s += "<...>";
            }
        }
        else {
            s = B.getAsString(PP);
            if (s.size() > 200) s = s.substr(0, 200) + "...";
        }
        return prefix + s + suffix;
    }

    // ---- expression trees -------------------------------------------------
    std::map<const Stmt*, unsigned> Ids;
    std::vector<const Stmt*> Order;

    unsigned idOf(const Stmt* S)
    {
        auto it = Ids.find(S);
        if (it != Ids.end()) return it->second;
        unsigned n = Order.size() + 1;
        Ids[S] = n;
        Order.push_back(S);
        return n;
    }

    void collect(const Stmt* S)
    {
        if (!S) return;
        if (Ids.count(S)) return;
        idOf(S);
        if (const LambdaExpr* L = dyn_cast<LambdaExpr>(S)) {
            for (auto I = L->capture_init_begin(), E = L->capture_init_end(); I != E; ++I)
                if (*I) collect(*I);
            return;
        }
        if (const DeclStmt* DS = dyn_cast<DeclStmt>(S)) {
            for (const Decl* D : DS->decls())
                if (const VarDecl* V = dyn_cast<VarDecl>(D))
                    if (V->getInit()) collect(V->getInit());
            return;
        }
        if (const CXXDefaultArgExpr* DA = dyn_cast<CXXDefaultArgExpr>(S)) {
            collect(DA->getExpr());
            return;
        }
        if (const CXXDefaultInitExpr* DI = dyn_cast<CXXDefaultInitExpr>(S)) {
            collect(DI->getExpr());
            return;
        }
        if (const CXXCatchStmt* C = dyn_cast<CXXCatchStmt>(S)) {
            collect(C->getHandlerBlock());
            return;
        }
        for (const Stmt* C : S->children())
            collect(C);
    }

    void attrIf(const char* k, const std::string& v)
    {
        if (!v.empty()) J.attribute(k, v);
    }

    void varInfo(const VarDecl* V)
    {
        J.object([&] {
            J.attribute("did", declId(V));
            J.attribute("name", V->getNameAsString());
            J.attribute("t", typeStr(V->getType()));
            J.attribute("line", line(V->getLocation()));
            if (V->isStaticLocal()) J.attribute("static", true);
            if (V->hasGlobalStorage() && !V->isStaticLocal()) J.attribute("global", true);
            if (V->getInit()) {
                J.attribute("init", idOf(V->getInit()));
                if (V->getInitStyle() == VarDecl::CallInit) J.attribute("callinit", true);
            }
            if (V->getType()->isScalarType()) J.attribute("scalar", true);
        });
    }

    void declRef(const ValueDecl* D)
    {
        J.attribute("did", declId(D));
        J.attribute("name", D->getNameAsString());
        const char* dk = "other";
        if (isa<ParmVarDecl>(D)) dk = "parm";
        else if (const VarDecl* V = dyn_cast<VarDecl>(D)) {
            dk = V->isStaticLocal() ? "slocal" : V->hasGlobalStorage() ? "global" : "local";
        }
        else if (isa<FunctionDecl>(D)) dk = "func";
        else if (isa<EnumConstantDecl>(D)) dk = "enum";
        else if (isa<FieldDecl>(D)) dk = "field";
        J.attribute("dk", dk);
        J.attribute("q", qname(D));
        if (const FunctionDecl* F = dyn_cast<FunctionDecl>(D)) J.attribute("usr", usrOf(F));
        if (const EnumConstantDecl* E = dyn_cast<EnumConstantDecl>(D))
            J.attribute("val", i64(E->getInitVal()));
    }

    void calleeInfo(const FunctionDecl* F)
    {
        if (!F) return;
        J.attribute("callee", qname(F));
        J.attribute("usr", usrOf(F));
        J.attributeArray("pt", [&] {
            for (const ParmVarDecl* P : F->parameters())
                J.value(typeStr(P->getType()));
        });
        J.attribute("rt", typeStr(F->getReturnType()));
        if (const CXXMethodDecl* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isConst()) J.attribute("cm", true);
            if (M->isVirtual()) J.attribute("virt", true);
            if (M->isStatic()) J.attribute("sm", true);
        }
        if (F->isNoReturn()) J.attribute("noreturn", true);
        SourceLocation L = F->getLocation();
        if (inRoot(L)) J.attribute("inrepo", true);
    }

    void node(const Stmt* S)
    {
        J.object([&] {
            J.attribute("id", idOf(S));
            J.attribute("k", S->getStmtClassName());
            SourceLocation B = S->getBeginLoc();
            if (B.isValid()) {
                J.attribute("l", line(B));
                J.attribute("c", col(B));
                if (B.isMacroID()) attrIf("mac", macroOf(B));
            }
            if (const Expr* E = dyn_cast<Expr>(S)) {
                J.attribute("t", typeStr(E->getType()));
                if (E->isLValue()) J.attribute("lv", true);
                if (!E->isValueDependent() && !E->isTypeDependent() &&
                    E->getType()->isIntegralOrEnumerationType() &&
                    !isa<IntegerLiteral>(E) && E->isPRValue()) {
                    Expr::EvalResult R;
                    if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects) && R.Val.isInt())
                        J.attribute("cv", i64(R.Val.getInt()));
                }
            }
            // children
            std::vector<unsigned> ch;
            if (const DeclStmt* DS = dyn_cast<DeclStmt>(S)) {
                J.attributeArray("vars", [&] {
                    for (const Decl* D : DS->decls())
                        if (const VarDecl* V = dyn_cast<VarDecl>(D)) varInfo(V);
                });
            }
            else if (const CXXDefaultArgExpr* DA = dyn_cast<CXXDefaultArgExpr>(S)) {
                ch.push_back(idOf(DA->getExpr()));
            }
            else if (const CXXDefaultInitExpr* DI = dyn_cast<CXXDefaultInitExpr>(S)) {
                ch.push_back(idOf(DI->getExpr()));
            }
            else if (const CXXCatchStmt* C = dyn_cast<CXXCatchStmt>(S)) {
                ch.push_back(idOf(C->getHandlerBlock()));
                if (C->getExceptionDecl()) {
                    J.attribute("ext", typeStr(C->getCaughtType()));
                    J.attribute("exd", declId(C->getExceptionDecl()));
                }
                else
                    J.attribute("ext", "...");
            }
            else if (isa<LambdaExpr>(S)) {
                const LambdaExpr* L = cast<LambdaExpr>(S);
                for (auto I = L->capture_init_begin(), E = L->capture_init_end(); I != E; ++I)
                    if (*I) ch.push_back(idOf(*I));
                J.attribute("lambda", usrOf(L->getCallOperator()));
                J.attribute("lamline", line(L->getBeginLoc()));
                J.attributeArray("caps", [&] {
                    for (auto const& c : L->captures())
                        if (c.capturesVariable()) {
                            J.object([&] {
                                J.attribute("did", declId(c.getCapturedVar()));
                                J.attribute("ref", c.getCaptureKind() == LCK_ByRef);
                            });
                        }
                });
            }
            else {
                for (const Stmt* C : S->children())
                    ch.push_back(C ? idOf(C) : 0);
            }
            if (!ch.empty()) J.attributeArray("ch", [&] {
                    for (unsigned c : ch) J.value(c);
                });

            if (const DeclRefExpr* D = dyn_cast<DeclRefExpr>(S)) declRef(D->getDecl());
            else if (const MemberExpr* M = dyn_cast<MemberExpr>(S)) {
                declRef(M->getMemberDecl());
                if (M->isArrow()) J.attribute("arrow", true);
            }
            else if (const CXXConstructExpr* C = dyn_cast<CXXConstructExpr>(S)) {
                calleeInfo(C->getConstructor());
                J.attribute("cls", qname(C->getConstructor()->getParent()));
                if (C->isElidable()) J.attribute("elidable", true);
                if (C->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", true);
                if (C->requiresZeroInitialization()) J.attribute("zeroinit", true);
            }
            else if (const CallExpr* C = dyn_cast<CallExpr>(S)) {
                if (const CXXOperatorCallExpr* O = dyn_cast<CXXOperatorCallExpr>(S))
                    J.attribute("op", getOperatorSpelling(O->getOperator()));
                if (const FunctionDecl* F = C->getDirectCallee()) calleeInfo(F);
            }
            else if (const UnaryOperator* U = dyn_cast<UnaryOperator>(S)) {
                J.attribute("op", (U->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(U->getOpcode()).str());
            }
            else if (const BinaryOperator* B2 = dyn_cast<BinaryOperator>(S)) {
                J.attribute("op", B2->getOpcodeStr().str());
            }
            else if (const CastExpr* C2 = dyn_cast<CastExpr>(S)) {
                J.attribute("ck", C2->getCastKindName());
                if (isa<ExplicitCastExpr>(S)) J.attribute("explicit", true);
                if (const NamedDecl* cf = C2->getConversionFunction())
                    J.attribute("conv", qname(cf));
            }
            else if (const StringLiteral* SL = dyn_cast<StringLiteral>(S)) {
                if (SL->getCharByteWidth() == 1) {
                    std::string v = SL->getString().str();
                    J.attribute("str", json::fixUTF8(v));
                }
            }
            else if (const IntegerLiteral* IL = dyn_cast<IntegerLiteral>(S)) {
                J.attribute("val", (int64_t)IL->getValue().getLimitedValue());
            }
            else if (const CharacterLiteral* CL = dyn_cast<CharacterLiteral>(S)) {
                J.attribute("val", (int64_t)CL->getValue());
            }
            else if (const CXXBoolLiteralExpr* BL = dyn_cast<CXXBoolLiteralExpr>(S)) {
                J.attribute("val", (int64_t)BL->getValue());
            }
            else if (const CaseStmt* CS = dyn_cast<CaseStmt>(S)) {
                Expr::EvalResult R;
                if (CS->getLHS() && CS->getLHS()->EvaluateAsInt(R, Ctx))
                    J.attribute("val", i64(R.Val.getInt()));
            }
            else if (const CXXNewExpr* N = dyn_cast<CXXNewExpr>(S)) {
                J.attribute("newt", typeStr(N->getAllocatedType()));
                if (N->isArray()) J.attribute("array", true);
            }
            else if (const CXXForRangeStmt* FR = dyn_cast<CXXForRangeStmt>(S)) {
                J.attribute("range", idOf(FR->getRangeInit()));
                J.attribute("loopvar", declId(FR->getLoopVariable()));
                J.attribute("body", idOf(FR->getBody()));
            }
            else if (const IfStmt* I = dyn_cast<IfStmt>(S)) {
                J.attribute("cond", idOf(I->getCond()));
                J.attribute("then", idOf(I->getThen()));
                if (I->getElse()) J.attribute("else", idOf(I->getElse()));
            }
            else if (const ForStmt* F = dyn_cast<ForStmt>(S)) {
                if (F->getInit()) J.attribute("init", idOf(F->getInit()));
                if (F->getCond()) J.attribute("cond", idOf(F->getCond()));
                if (F->getInc()) J.attribute("inc", idOf(F->getInc()));
                J.attribute("body", idOf(F->getBody()));
            }
            else if (const WhileStmt* W = dyn_cast<WhileStmt>(S)) {
                J.attribute("cond", idOf(W->getCond()));
                J.attribute("body", idOf(W->getBody()));
            }
            else if (const DoStmt* D2 = dyn_cast<DoStmt>(S)) {
                J.attribute("cond", idOf(D2->getCond()));
                J.attribute("body", idOf(D2->getBody()));
            }
            else if (const SwitchStmt* SW = dyn_cast<SwitchStmt>(S)) {
                J.attribute("cond", idOf(SW->getCond()));
                J.attribute("body", idOf(SW->getBody()));
            }
            else if (const CXXThrowExpr* T = dyn_cast<CXXThrowExpr>(S)) {
                if (T->getSubExpr()) J.attribute("tht", typeStr(T->getSubExpr()->getType()));
            }
            else if (const ArrayInitLoopExpr* A = dyn_cast<ArrayInitLoopExpr>(S)) {
                (void)A;
            }
        });
    }

    void dumpCFG(const Decl* D, Stmt* Body)
    {
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddImplicitDtors = true;
        BO.AddInitializers = true;
        BO.AddTemporaryDtors = false;
        BO.AddEHEdges = false;
        std::unique_ptr<CFG> G = CFG::buildCFG(D, Body, &Ctx, BO);
        if (!G) return;
        // make sure everything mentioned in the CFG has an id
        for (const CFGBlock* B : *G) {
            for (auto const& E : *B)
                if (auto CS = E.getAs<CFGStmt>()) collect(CS->getStmt());
            if (const Stmt* T = B->getTerminatorStmt()) collect(T);
            if (const Stmt* T = B->getTerminatorCondition()) collect(T);
        }
        J.attributeObject("cfg", [&] {
            J.attribute("entry", G->getEntry().getBlockID());
            J.attribute("exit", G->getExit().getBlockID());
            J.attributeArray("blocks", [&] {
                for (const CFGBlock* B : *G) {
                    J.object([&] {
                        J.attribute("b", B->getBlockID());
                        J.attributeArray("e", [&] {
                            for (auto const& E : *B) {
                                if (auto CS = E.getAs<CFGStmt>()) {
                                    J.value(idOf(CS->getStmt()));
                                }
                                else if (auto AD = E.getAs<CFGAutomaticObjDtor>()) {
                                    J.object([&] {
                                        J.attribute("dtor", declId(AD->getVarDecl()));
                                        J.attribute("t", typeStr(AD->getVarDecl()->getType()));
                                    });
                                }
                                else if (auto I = E.getAs<CFGInitializer>()) {
                                    const CXXCtorInitializer* CI = I->getInitializer();
                                    J.object([&] {
                                        J.attribute("ctorinit", CI->getAnyMember() ? CI->getAnyMember()->getNameAsString() : std::string("<base>"));
                                        if (CI->getInit()) J.attribute("init", idOf(CI->getInit()));
                                    });
                                }
                            }
                        });
                        if (const Stmt* T = B->getTerminatorStmt()) {
                            J.attribute("term", idOf(T));
                            J.attribute("tk", T->getStmtClassName());
                        }
                        if (const Stmt* T = B->getTerminatorCondition()) J.attribute("cond", idOf(T));
                        if (const Stmt* L = B->getLabel()) {
                            J.attribute("label", idOf(L));
                        }
                        if (B->hasNoReturnElement()) J.attribute("noreturn", true);
                        if (B->getLoopTarget()) J.attribute("loopback", true);
                        J.attributeArray("s", [&] {
                            for (auto const& Su : B->succs()) {
                                const CFGBlock* R = Su.getReachableBlock();
                                if (R) J.value(R->getBlockID());
                                else J.value(nullptr);
                            }
                        });
                    });
                }
            });
        });
    }

    void dumpFunction(const FunctionDecl* F)
    {
        if (!F->doesThisDeclarationHaveABody()) return;
        if (F->isDependentContext()) return;
        if (F->isImplicit() && !isa<CXXConstructorDecl>(F)) return;
        if (!Done.insert(F).second) return;
        Stmt* Body = F->getBody();
        if (!Body) return;
        Ids.clear();
        Order.clear();
        J.object([&] {
            J.attribute("kind", "function");
            J.attribute("usr", usrOf(F));
            J.attribute("q", qname(F));
            J.attribute("name", F->getNameAsString());
            J.attribute("file", relFile(F->getLocation()));
            J.attribute("line", line(F->getLocation()));
            J.attribute("end", line(F->getEndLoc()));
            if (F->isImplicit()) J.attribute("implicit", true);
            if (F->isDefaulted()) J.attribute("defaulted", true);
            if (F->getTemplateInstantiationPattern()) J.attribute("inst", true);
            if (F->getStorageClass() == SC_Static) J.attribute("static", true);
            J.attribute("rt", typeStr(F->getReturnType()));
            attrIf("mac", macroOf(F->getBeginLoc()));
            J.attributeArray("params", [&] {
                for (const ParmVarDecl* P : F->parameters())
                    J.object([&] {
                        J.attribute("did", declId(P));
                        J.attribute("name", P->getNameAsString());
                        J.attribute("t", typeStr(P->getType()));
                    });
            });
            if (const CXXMethodDecl* M = dyn_cast<CXXMethodDecl>(F)) {
                J.attribute("cls", qname(M->getParent()));
                J.attribute("clsusr", usrOf(M->getParent()));
                if (M->isConst()) J.attribute("const", true);
                if (M->isStatic()) J.attribute("smethod", true);
                if (M->isVirtual()) J.attribute("virt", true);
                J.attributeArray("overrides", [&] {
                    for (const CXXMethodDecl* O : M->overridden_methods())
                        J.value(usrOf(O));
                });
                if (M->getParent()->isLambda()) J.attribute("lambda", true);
                if (M->getOverloadedOperator() != OO_None)
                    J.attribute("op", getOperatorSpelling(M->getOverloadedOperator()));
            }
            if (isa<CXXDestructorDecl>(F)) J.attribute("dtor", true);
            if (const CXXConstructorDecl* C = dyn_cast<CXXConstructorDecl>(F)) {
                J.attribute("ctor", true);
                if (C->isCopyOrMoveConstructor()) J.attribute("copyctor", true);
                if (C->isDelegatingConstructor()) J.attribute("delegating", true);
                for (const CXXCtorInitializer* I : C->inits())
                    if (I->getInit()) collect(I->getInit());
                J.attributeArray("inits", [&] {
                    for (const CXXCtorInitializer* I : C->inits())
                        J.object([&] {
                            if (I->isAnyMemberInitializer())
                                J.attribute("member", I->getAnyMember()->getNameAsString());
                            else if (I->isBaseInitializer())
                                J.attribute("base", typeStr(QualType(I->getBaseClass(), 0)));
                            if (I->isWritten()) J.attribute("written", true);
                            if (I->getInit()) J.attribute("init", idOf(I->getInit()));
                        });
                });
            }
            collect(Body);
            J.attribute("body", idOf(Body));
            dumpCFG(F, Body);
            J.attributeArray("nodes", [&] {
                for (size_t i = 0; i < Order.size(); ++i)
                    node(Order[i]);
            });
        });
    }

    void dumpGlobal(const VarDecl* V)
    {
        Ids.clear();
        Order.clear();
        J.object([&] {
            J.attribute("kind", "global");
            J.attribute("usr", usrOf(V));
            J.attribute("q", qname(V));
            J.attribute("name", V->getNameAsString());
            J.attribute("file", relFile(V->getLocation()));
            J.attribute("line", line(V->getLocation()));
            J.attribute("t", typeStr(V->getType()));
            J.attribute("did", declId(V));
            if (V->getInit()) {
                collect(V->getInit());
                J.attribute("init", idOf(V->getInit()));
                J.attributeArray("nodes", [&] {
                    for (size_t i = 0; i < Order.size(); ++i)
                        node(Order[i]);
                });
            }
        });
    }

    void dumpRecord(const CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
        J.object([&] {
            J.attribute("kind", "class");
            J.attribute("usr", usrOf(R));
            J.attribute("q", qname(R));
            J.attribute("name", R->getNameAsString());
            J.attribute("ts", typeStr(QualType(R->getTypeForDecl(), 0)));
            J.attribute("file", relFile(R->getLocation()));
            J.attribute("line", line(R->getLocation()));
            if (R->isLambda()) J.attribute("lambda", true);
            if (R->isAggregate()) J.attribute("aggregate", true);
            J.attributeArray("bases", [&] {
                for (auto const& B : R->bases()) J.value(typeStr(B.getType()));
            });
            J.attributeArray("fields", [&] {
                for (const FieldDecl* F : R->fields())
                    J.object([&] {
                        J.attribute("name", F->getNameAsString());
                        J.attribute("t", typeStr(F->getType()));
                        J.attribute("did", declId(F));
                        if (F->getType()->isScalarType()) J.attribute("scalar", true);
                        if (F->getType()->isReferenceType()) J.attribute("ref", true);
                        if (F->hasInClassInitializer()) J.attribute("ici", true);
                        J.attribute("line", line(F->getLocation()));
                    });
            });
            J.attributeArray("methods", [&] {
                for (const CXXMethodDecl* M : R->methods())
                    if (!M->isImplicit())
                        J.object([&] {
                            J.attribute("name", M->getNameAsString());
                            J.attribute("usr", usrOf(M));
                            if (M->isVirtual()) J.attribute("virt", true);
                            if (M->isDeleted()) J.attribute("deleted", true);
                        });
            });
            J.attribute("userctor", R->hasUserDeclaredConstructor());
        });
    }

    void dumpEnum(const EnumDecl* E)
    {
        if (!E->isThisDeclarationADefinition()) return;
        J.object([&] {
            J.attribute("kind", "enum");
            J.attribute("q", qname(E));
            J.attribute("file", relFile(E->getLocation()));
            J.attribute("line", line(E->getLocation()));
            J.attributeArray("consts", [&] {
                for (const EnumConstantDecl* C : E->enumerators())
                    J.object([&] {
                        J.attribute("name", C->getNameAsString());
                        J.attribute("q", qname(C));
                        J.attribute("val", i64(C->getInitVal()));
                    });
            });
        });
    }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Dumper& D;
    explicit Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (D.inRoot(F->getLocation())) D.dumpFunction(F);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* L)
    {
        if (CXXMethodDecl* M = L->getCallOperator())
            if (D.inRoot(M->getLocation())) D.dumpFunction(M);
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (V->isFileVarDecl() && !V->getDeclContext()->isDependentContext() &&
            D.inRoot(V->getLocation()))
            D.dumpGlobal(V);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (D.inRoot(R->getLocation())) D.dumpRecord(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E)
    {
        if (!E->isDependentContext() && D.inRoot(E->getLocation())) D.dumpEnum(E);
        return true;
    }
};

struct Consumer : ASTConsumer
{
    llvm::raw_ostream& OS;
    explicit Consumer(llvm::raw_ostream& o) : OS(o) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C, OS);
        Visitor V(D);
        D.J.array([&] { V.TraverseDecl(C.getTranslationUnitDecl()); });
        OS << "\n";
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<llvm::raw_fd_ostream> Out;
    static std::string OutPath;
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
    {
        std::error_code EC;
        Out.reset(new llvm::raw_fd_ostream(OutPath, EC));
        return std::make_unique<Consumer>(*Out);
    }
};
std::string Action::OutPath;

// qbfacts ROOT OUT FILE -- flags...
int main(int argc, const char** argv)
{
    if (argc < 5) {
        llvm::errs() << "usage: qbfacts ROOT OUT FILE -- flags\n";
        return 2;
    }
    Root = argv[1];
    Action::OutPath = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {file});
    T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster(
        {"-resource-dir", "/usr/lib/llvm-18/lib/clang/18"}, tooling::ArgumentInsertPosition::BEGIN));
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
