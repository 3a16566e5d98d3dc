// cxy source extractor: dumps resolved ASTs of every function/global in a TU as JSON.
// usage: cxy-extract OUT.json SRC.c -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::OStream;

static std::string gOut;
static std::string gRoot = "/repo/";

static std::string fixUtf8(llvm::StringRef s)
{
    if (llvm::json::isUTF8(s))
        return s.str();
    std::string r;
    for (unsigned char c : s) {
        if (c < 0x80)
            r.push_back(c);
        else {
            r.push_back(0xC0 | (c >> 6));
            r.push_back(0x80 | (c & 0x3f));
        }
    }
    return r;
}

class Dumper {
public:
    Dumper(ASTContext &C, OStream &J) : C(C), SM(C.getSourceManager()), J(J) {}
    ASTContext &C;
    SourceManager &SM;
    OStream &J;
    std::map<std::string, int> typeIds;
    std::vector<QualType> types;
    std::map<const Decl *, int> declIds;
    std::map<std::string, int> fileIds;
    std::vector<std::string> files;

    int fileId(const std::string &f)
    {
        auto it = fileIds.find(f);
        if (it != fileIds.end())
            return it->second;
        int i = files.size();
        files.push_back(f);
        fileIds[f] = i;
        return i;
    }
    std::string fileOf(SourceLocation L)
    {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
        return P.isValid() ? P.getFilename() : "";
    }
    int lineOf(SourceLocation L)
    {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
        return P.isValid() ? P.getLine() : 0;
    }
    int typeId(QualType T)
    {
        std::string key = T.isNull() ? "?" : T.getAsString();
        // separate distinct canonical
        auto it = typeIds.find(key);
        if (it != typeIds.end())
            return it->second;
        int i = types.size();
        typeIds[key] = i;
        types.push_back(T);
        if (!T.isNull()) {
            QualType K = T.getCanonicalType();
            if (K->isPointerType())
                typeId(K->getPointeeType());
            if (auto *A = C.getAsArrayType(K))
                typeId(A->getElementType());
        }
        return i;
    }
    int declId(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end())
            return it->second;
        int i = declIds.size() + 1;
        declIds[D] = i;
        return i;
    }

    // ---- expressions
    void expr(const Expr *E)
    {
        if (!E) {
            J.value(nullptr);
            return;
        }
        for (;;) {
            if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) {
                if (!P->getSourceExpr()) break;
                E = P->getSourceExpr();
            }
            else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
            else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
            else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
            else if (auto *P = dyn_cast<GenericSelectionExpr>(E)) {
                if (P->isResultDependent()) break;
                E = P->getResultExpr();
            }
            else if (auto *P = dyn_cast<ChooseExpr>(E)) E = P->getChosenSubExpr();
            else if (auto *U = dyn_cast<UnaryOperator>(E); U && U->getOpcode() == UO_Extension) E = U->getSubExpr();
            else break;
        }
        // skip implicit member chain over anonymous records
        int line = lineOf(E->getExprLoc());
        auto head = [&](const char *k) {
            J.value(k);
            J.value(line);
            J.value(typeId(E->getType()));
        };
        J.arrayBegin();
        if (auto *L = dyn_cast<IntegerLiteral>(E)) {
            head("int");
            llvm::SmallString<32> s;
            L->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
            J.value(fixUtf8(s));
        }
        else if (auto *L = dyn_cast<CharacterLiteral>(E)) {
            head("int");
            J.value(std::to_string((int)L->getValue()));
            J.value("c");
        }
        else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
            head("int");
            J.value(L->getValue() ? "1" : "0");
        }
        else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            head("int");
            J.value("0");
        }
        else if (auto *L = dyn_cast<FloatingLiteral>(E)) {
            head("flt");
            llvm::SmallString<32> s;
            L->getValue().toString(s);
            J.value(fixUtf8(s));
        }
        else if (auto *L = dyn_cast<StringLiteral>(E)) {
            head("str");
            if (L->getCharByteWidth() == 1)
                J.value(fixUtf8(L->getString()));
            else
                J.value("<wide>");
            J.value((int64_t)L->getByteLength());
        }
        else if (auto *L = dyn_cast<PredefinedExpr>(E)) {
            head("str");
            J.value("<func>");
            J.value(0);
        }
        else if (auto *R = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = R->getDecl();
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                head("enum");
                J.value(fixUtf8(EC->getName()));
                llvm::SmallString<32> s;
                EC->getInitVal().toString(s, 10);
                J.value(fixUtf8(s));
            }
            else {
                head("ref");
                J.value(fixUtf8(D->getNameAsString()));
                const char *k = "v";
                if (isa<ParmVarDecl>(D)) k = "p";
                else if (isa<FunctionDecl>(D)) k = "f";
                else if (auto *V = dyn_cast<VarDecl>(D))
                    k = V->hasGlobalStorage() ? (V->isLocalVarDecl() ? "s" : "g") : "v";
                J.value(k);
                J.value(declId(D));
            }
        }
        else if (auto *M = dyn_cast<MemberExpr>(E)) {
            // collapse anonymous
            const Expr *B = M->getBase();
            bool arrow = M->isArrow();
            for (;;) {
                const Expr *B2 = B->IgnoreParenImpCasts();
                auto *BM = dyn_cast<MemberExpr>(B2);
                if (BM && isa<FieldDecl>(BM->getMemberDecl()) &&
                    cast<FieldDecl>(BM->getMemberDecl())->isAnonymousStructOrUnion()) {
                    arrow = BM->isArrow();
                    B = BM->getBase();
                }
                else
                    break;
            }
            head("mem");
            expr(B);
            J.value(fixUtf8(M->getMemberDecl()->getNameAsString()));
            J.value(arrow ? 1 : 0);
            std::string rec;
            if (auto *RD = dyn_cast<RecordDecl>(M->getMemberDecl()->getDeclContext()))
                rec = RD->getNameAsString();
            J.value(fixUtf8(rec));
        }
        else if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            head("idx");
            expr(A->getBase());
            expr(A->getIdx());
        }
        else if (auto *K = dyn_cast<CallExpr>(E)) {
            head("call");
            expr(K->getCallee());
            J.arrayBegin();
            for (auto *a : K->arguments())
                expr(a);
            J.arrayEnd();
            const FunctionDecl *FD = K->getDirectCallee();
            bool nr = FD && (FD->isNoReturn() || FD->hasAttr<NoReturnAttr>() || FD->hasAttr<AnalyzerNoReturnAttr>());
            J.value(nr ? 1 : 0);
        }
        else if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
            head("ctor");
            J.value(fixUtf8(K->getConstructor()->getNameAsString()));
            J.arrayBegin();
            for (auto *a : K->arguments())
                expr(a);
            J.arrayEnd();
        }
        else if (auto *U = dyn_cast<UnaryOperator>(E)) {
            head("un");
            std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op = "p" + op;
            J.value(op);
            expr(U->getSubExpr());
        }
        else if (auto *B = dyn_cast<BinaryOperator>(E)) {
            if (B->isAssignmentOp())
                head("asg");
            else
                head("bin");
            J.value(fixUtf8(B->getOpcodeStr()));
            expr(B->getLHS());
            expr(B->getRHS());
        }
        else if (auto *Q = dyn_cast<ConditionalOperator>(E)) {
            head("cond");
            expr(Q->getCond());
            expr(Q->getTrueExpr());
            expr(Q->getFalseExpr());
        }
        else if (auto *Q = dyn_cast<BinaryConditionalOperator>(E)) {
            head("bcond");
            expr(Q->getCommon());
            expr(Q->getFalseExpr());
        }
        else if (auto *K = dyn_cast<ExplicitCastExpr>(E)) {
            head("cast");
            expr(K->getSubExpr());
        }
        else if (auto *K = dyn_cast<CompoundLiteralExpr>(E)) {
            head("cl");
            expr(K->getInitializer());
        }
        else if (auto *I = dyn_cast<InitListExpr>(E)) {
            if (!I->isSemanticForm() && I->getSemanticForm())
                I = I->getSemanticForm();
            head("init");
            J.arrayBegin();
            QualType T = I->getType();
            if (auto *RT = T->getAsStructureType()) {
                unsigned i = 0;
                for (auto *F : RT->getDecl()->fields()) {
                    if (F->isUnnamedBitfield()) continue;
                    if (i >= I->getNumInits()) break;
                    const Expr *X = I->getInit(i++);
                    initEntry(F, X);
                }
            }
            else if (T->isUnionType()) {
                if (auto *F = I->getInitializedFieldInUnion())
                    if (I->getNumInits())
                        initEntry(F, I->getInit(0));
            }
            else {
                for (unsigned i = 0; i < I->getNumInits(); i++) {
                    const Expr *X = I->getInit(i);
                    if (!X || isa<ImplicitValueInitExpr>(X) || isa<NoInitExpr>(X))
                        continue;
                    J.arrayBegin();
                    J.value((int64_t)i);
                    expr(X);
                    J.arrayEnd();
                }
            }
            J.arrayEnd();
        }
        else if (auto *S = dyn_cast<StmtExpr>(E)) {
            head("sx");
            stmt(S->getSubStmt());
        }
        else if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            head("sizeof");
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
                llvm::SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                J.value(fixUtf8(s));
            }
            else
                J.value(nullptr);
            if (S->isArgumentType()) {
                J.value(fixUtf8(S->getArgumentType().getAsString()));
                J.value(nullptr);
            }
            else {
                J.value(fixUtf8(S->getArgumentExpr()->getType().getAsString()));
                expr(S->getArgumentExpr());
            }
        }
        else if (auto *S = dyn_cast<OffsetOfExpr>(E)) {
            (void)S;
            head("sizeof");
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C)) {
                llvm::SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                J.value(fixUtf8(s));
            }
            else
                J.value(nullptr);
            J.value("offsetof");
            J.value(nullptr);
        }
        else if (auto *L = dyn_cast<LambdaExpr>(E)) {
            head("lambda");
            stmt(L->getBody());
        }
        else if (isa<CXXThisExpr>(E)) {
            head("this");
        }
        else {
            head("other");
            J.value(E->getStmtClassName());
            J.arrayBegin();
            for (auto *c : E->children())
                if (c && isa<Expr>(c))
                    expr(cast<Expr>(c));
            J.arrayEnd();
        }
        J.arrayEnd();
    }
    void initEntry(const FieldDecl *F, const Expr *X)
    {
        if (!X || isa<ImplicitValueInitExpr>(X) || isa<NoInitExpr>(X))
            return;
        J.arrayBegin();
        J.value(fixUtf8(F->getNameAsString()));
        expr(X);
        J.arrayEnd();
    }

    // ---- statements
    void stmt(const Stmt *S)
    {
        if (!S) {
            J.value(nullptr);
            return;
        }
        if (auto *A = dyn_cast<AttributedStmt>(S)) {
            stmt(A->getSubStmt());
            return;
        }
        int line = lineOf(S->getBeginLoc());
        J.arrayBegin();
        auto head = [&](const char *k) {
            J.value(k);
            J.value(line);
        };
        if (auto *K = dyn_cast<CompoundStmt>(S)) {
            head("comp");
            J.arrayBegin();
            for (auto *c : K->body())
                stmt(c);
            J.arrayEnd();
            J.value(lineOf(K->getRBracLoc()));
        }
        else if (auto *I = dyn_cast<IfStmt>(S)) {
            head("if");
            if (I->getInit() || I->getConditionVariable()) {
                // wrap as compound is awkward: emit extra decl list
            }
            expr(I->getCond());
            stmt(I->getThen());
            stmt(I->getElse());
            if (I->getConditionVariableDeclStmt())
                stmt(I->getConditionVariableDeclStmt());
            else
                stmt(I->getInit());
        }
        else if (auto *W = dyn_cast<WhileStmt>(S)) {
            head("while");
            expr(W->getCond());
            stmt(W->getBody());
        }
        else if (auto *W = dyn_cast<DoStmt>(S)) {
            head("do");
            stmt(W->getBody());
            expr(W->getCond());
        }
        else if (auto *F = dyn_cast<ForStmt>(S)) {
            head("for");
            stmt(F->getInit());
            expr(F->getCond());
            expr(F->getInc());
            stmt(F->getBody());
        }
        else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
            head("rfor");
            stmt(F->getLoopVarStmt());
            expr(F->getRangeInit());
            stmt(F->getBody());
        }
        else if (auto *W = dyn_cast<SwitchStmt>(S)) {
            head("switch");
            expr(W->getCond());
            stmt(W->getBody());
        }
        else if (auto *K = dyn_cast<CaseStmt>(S)) {
            head("case");
            expr(K->getLHS());
            expr(K->getRHS());
            stmt(K->getSubStmt());
        }
        else if (auto *K = dyn_cast<DefaultStmt>(S)) {
            head("default");
            stmt(K->getSubStmt());
        }
        else if (isa<BreakStmt>(S)) {
            head("break");
        }
        else if (isa<ContinueStmt>(S)) {
            head("continue");
        }
        else if (auto *R = dyn_cast<ReturnStmt>(S)) {
            head("ret");
            expr(R->getRetValue());
        }
        else if (auto *G = dyn_cast<GotoStmt>(S)) {
            head("goto");
            J.value(fixUtf8(G->getLabel()->getName()));
        }
        else if (auto *L = dyn_cast<LabelStmt>(S)) {
            head("label");
            J.value(fixUtf8(L->getDecl()->getName()));
            stmt(L->getSubStmt());
        }
        else if (auto *D = dyn_cast<DeclStmt>(S)) {
            head("decl");
            J.arrayBegin();
            for (auto *d : D->decls())
                if (auto *V = dyn_cast<VarDecl>(d)) {
                    J.arrayBegin();
                    J.value(fixUtf8(V->getNameAsString()));
                    J.value(declId(V));
                    J.value(typeId(V->getType()));
                    expr(V->getInit());
                    J.value(V->isStaticLocal() ? 1 : 0);
                    J.value(lineOf(V->getLocation()));
                    J.arrayEnd();
                }
            J.arrayEnd();
        }
        else if (isa<NullStmt>(S)) {
            head("null");
        }
        else if (auto *E = dyn_cast<Expr>(S)) {
            head("expr");
            expr(E);
        }
        else {
            head("other");
            J.value(S->getStmtClassName());
            J.arrayBegin();
            for (auto *c : S->children())
                if (c) {
                    if (isa<Expr>(c)) { J.arrayBegin(); J.value("expr"); J.value(line); expr(cast<Expr>(c)); J.arrayEnd(); }
                    else stmt(c);
                }
            J.arrayEnd();
        }
        J.arrayEnd();
    }

    void dumpType(QualType T)
    {
        J.objectBegin();
        if (T.isNull()) {
            J.attribute("s", "?");
            J.objectEnd();
            return;
        }
        J.attribute("s", fixUtf8(T.getAsString()));
        QualType K = T.getCanonicalType();
        J.attribute("c", fixUtf8(K.getAsString()));
        const char *k = "other";
        if (K->isDependentType()) k = "dep";
        else if (K->isPointerType()) k = "ptr";
        else if (K->isConstantArrayType()) k = "arr";
        else if (K->isEnumeralType()) k = "enum";
        else if (K->isBooleanType()) k = "bool";
        else if (K->isIntegerType()) k = K->isSignedIntegerType() ? "int" : "uint";
        else if (K->isFloatingType()) k = "float";
        else if (K->isRecordType()) k = "rec";
        else if (K->isFunctionType()) k = "func";
        else if (K->isVoidType()) k = "void";
        J.attribute("k", k);
        if (auto *A = C.getAsConstantArrayType(K)) {
            J.attribute("n", (int64_t)A->getSize().getZExtValue());
            J.attribute("e", typeId(A->getElementType()));
        }
        if (K->isPointerType())
            J.attribute("e", typeId(K->getPointeeType()));
        if (auto *ET = K->getAs<EnumType>())
            J.attribute("enum", fixUtf8(ET->getDecl()->getNameAsString().empty() && ET->getDecl()->getTypedefNameForAnonDecl()
                                            ? ET->getDecl()->getTypedefNameForAnonDecl()->getNameAsString()
                                            : ET->getDecl()->getNameAsString()));
        if (auto *RT = K->getAs<RecordType>()) {
            auto *RD = RT->getDecl();
            std::string n = RD->getNameAsString();
            if (n.empty() && RD->getTypedefNameForAnonDecl())
                n = RD->getTypedefNameForAnonDecl()->getNameAsString();
            J.attribute("rec", fixUtf8(n));
        }
        if (!K->isDependentType() && !K->isPlaceholderType() && !K->isUndeducedType() && !K->isInstantiationDependentType() && !K->isReferenceType() && !K->isIncompleteType() && !K->isFunctionType() && !K->isVoidType())
            J.attribute("z", (int64_t)C.getTypeSizeInChars(K).getQuantity());
        J.attribute("const", T.isConstQualified());
        J.objectEnd();
    }
};

class Collector : public RecursiveASTVisitor<Collector> {
public:
    std::vector<const FunctionDecl *> funcs;
    std::vector<const VarDecl *> vars;
    std::vector<const EnumDecl *> enums;
    std::vector<const RecordDecl *> recs;
    SourceManager *SM;
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool inRoot(SourceLocation L)
    {
        if (L.isInvalid()) return false;
        PresumedLoc P = SM->getPresumedLoc(SM->getExpansionLoc(L), false);
        if (P.isInvalid()) return false;
        return llvm::StringRef(P.getFilename()).starts_with(gRoot);
    }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->isThisDeclarationADefinition() && F->hasBody() && inRoot(F->getLocation()))
            funcs.push_back(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *V)
    {
        if (V->hasGlobalStorage() && V->hasInit() && inRoot(V->getLocation()) && !isa<ParmVarDecl>(V))
            vars.push_back(V);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E)
    {
        if (E->isCompleteDefinition() && inRoot(E->getLocation()))
            enums.push_back(E);
        return true;
    }
    bool VisitRecordDecl(RecordDecl *R)
    {
        if (R->isCompleteDefinition() && inRoot(R->getLocation()))
            recs.push_back(R);
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    CompilerInstance &CI;
    Consumer(CompilerInstance &CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext &C) override
    {
        std::error_code EC;
        llvm::raw_fd_ostream OS(gOut, EC);
        if (EC) {
            llvm::errs() << "cannot write " << gOut << "\n";
            exit(3);
        }
        OStream J(OS);
        Dumper D(C, J);
        Collector K;
        K.SM = &C.getSourceManager();
        K.TraverseDecl(C.getTranslationUnitDecl());
        J.objectBegin();
        J.attribute("errors", (int64_t)CI.getDiagnostics().getNumErrors());
        J.attributeArray("functions", [&] {
            for (auto *F : K.funcs) {
                if (F->isDependentContext()) continue;
                J.objectBegin();
                J.attribute("name", fixUtf8(F->getNameAsString()));
                J.attribute("qname", fixUtf8(F->getQualifiedNameAsString()));
                J.attribute("id", D.declId(F));
                J.attribute("file", D.fileOf(F->getLocation()));
                J.attribute("line", D.lineOf(F->getLocation()));
                J.attribute("static", F->getStorageClass() == SC_Static || (F->isInAnonymousNamespace()));
                J.attribute("ret", D.typeId(F->getReturnType()));
                J.attribute("noreturn", F->isNoReturn());
                J.attribute("variadic", F->isVariadic());
                J.attributeArray("params", [&] {
                    for (auto *P : F->parameters()) {
                        J.arrayBegin();
                        J.value(fixUtf8(P->getNameAsString()));
                        J.value(D.declId(P));
                        J.value(D.typeId(P->getType()));
                        J.arrayEnd();
                    }
                });
                J.attributeBegin("body");
                D.stmt(F->getBody());
                J.attributeEnd();
                J.objectEnd();
            }
        });
        J.attributeArray("globals", [&] {
            for (auto *V : K.vars) {
                if (V->getType()->isDependentType()) continue;
                J.objectBegin();
                J.attribute("name", fixUtf8(V->getNameAsString()));
                J.attribute("id", D.declId(V));
                J.attribute("file", D.fileOf(V->getLocation()));
                J.attribute("line", D.lineOf(V->getLocation()));
                J.attribute("type", D.typeId(V->getType()));
                J.attribute("const", V->getType().isConstQualified() ||
                                         (C.getAsArrayType(V->getType()) && C.getAsArrayType(V->getType())->getElementType().isConstQualified()));
                if (auto *FD = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod()))
                    J.attribute("func", fixUtf8(FD->getNameAsString()));
                J.attributeBegin("init");
                D.expr(V->getInit());
                J.attributeEnd();
                J.objectEnd();
            }
        });
        J.attributeArray("enums", [&] {
            for (auto *E : K.enums) {
                J.objectBegin();
                std::string n = E->getNameAsString();
                if (n.empty() && E->getTypedefNameForAnonDecl())
                    n = E->getTypedefNameForAnonDecl()->getNameAsString();
                J.attribute("name", fixUtf8(n));
                J.attribute("file", D.fileOf(E->getLocation()));
                J.attributeArray("consts", [&] {
                    for (auto *c : E->enumerators()) {
                        J.arrayBegin();
                        J.value(fixUtf8(c->getName()));
                        llvm::SmallString<32> s;
                        c->getInitVal().toString(s, 10);
                        J.value(fixUtf8(s));
                        J.arrayEnd();
                    }
                });
                J.objectEnd();
            }
        });
        J.attributeArray("records", [&] {
            for (auto *R : K.recs) {
                J.objectBegin();
                std::string n = R->getNameAsString();
                if (n.empty() && R->getTypedefNameForAnonDecl())
                    n = R->getTypedefNameForAnonDecl()->getNameAsString();
                J.attribute("name", fixUtf8(n));
                J.attribute("union", R->isUnion());
                J.attribute("file", D.fileOf(R->getLocation()));
                J.attribute("line", D.lineOf(R->getLocation()));
                std::function<void(const RecordDecl *)> fields = [&](const RecordDecl *RD) {
                    for (auto *F : RD->fields()) {
                        J.arrayBegin();
                        J.value(fixUtf8(F->getNameAsString()));
                        J.value(D.typeId(F->getType()));
                        // nested anonymous record: list inline
                        const RecordType *RT = F->getType()->getAs<RecordType>();
                        if (RT && RT->getDecl()->getName().empty() && !RT->getDecl()->getTypedefNameForAnonDecl()) {
                            J.value(RT->getDecl()->isUnion() ? "union" : "struct");
                            J.arrayBegin();
                            fields(RT->getDecl());
                            J.arrayEnd();
                        }
                        J.arrayEnd();
                    }
                };
                J.attributeArray("fields", [&] { if (!R->isDependentContext()) fields(R); });
                J.objectEnd();
            }
        });
        J.attributeArray("types", [&] {
            for (size_t i = 0; i < D.types.size(); i++) // grows while dumping
                D.dumpType(D.types[i]);
        });
        J.objectEnd();
        OS << "\n";
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};

int main(int argc, const char **argv)
{
    if (argc < 4) {
        llvm::errs() << "usage: cxy-extract OUT.json SRC ROOT -- args\n";
        return 2;
    }
    gOut = argv[1];
    std::string src = argv[2];
    gRoot = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; i++)
        args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", args);
    tooling::ClangTool Tool(DB, {src});
    Tool.clearArgumentsAdjusters();
    Tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
