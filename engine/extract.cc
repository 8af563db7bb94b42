// Static extractor: dumps the resolved, typed program of one translation unit as JSON.
//
// Every function whose body lives below the root directory given by --root is
// dumped (template patterns are skipped, their instantiations are dumped
// instead), along with the records, enumerations and global variables
// referenced.  Calls are resolved by the compiler front end.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::string TuName;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
  public:
    explicit Dumper(ASTContext &C) : C(C), PP(C.getLangOpts()), SM(C.getSourceManager()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = false;
        PP.SuppressInlineNamespace = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    ASTContext &C;
    PrintingPolicy PP;
    SourceManager &SM;
    std::map<const void *, std::string> Ids;
    json::Object Functions, Records, Enums, Vars;
    std::set<std::string> SeenRec, SeenEnum, SeenVar;

    // --- helpers
    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L).str();
        return F;
    }
    bool inRoot(SourceLocation L) {
        if (L.isInvalid())
            return false;
        auto F = fileOf(L);
        return F.compare(0, Root.size(), Root) == 0 && F.find("/_build/") == std::string::npos;
    }
    std::string relFile(SourceLocation L) {
        auto F = fileOf(L);
        if (F.compare(0, Root.size(), Root) == 0) {
            F = F.substr(Root.size());
            while (!F.empty() && F[0] == '/')
                F = F.substr(1);
        }
        return F;
    }
    int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    std::string ty(QualType T) {
        if (T.isNull())
            return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string varId(const ValueDecl *D) {
        const void *P = D->getCanonicalDecl();
        auto It = Ids.find(P);
        if (It != Ids.end())
            return It->second;
        auto Id = D->getNameAsString() + "#" + std::to_string(Ids.size());
        Ids[P] = Id;
        return Id;
    }
    std::string qname(const NamedDecl *D) {
        // qualified name without template arguments of the declaration itself
        std::string S;
        llvm::raw_string_ostream OS(S);
        D->printQualifiedName(OS, PP);
        return OS.str();
    }
    bool anon(const Decl *D) { return D->isInAnonymousNamespace(); }
    std::string ctxName(const DeclContext *DC) {
        if (!DC || DC->isTranslationUnit())
            return "";
        if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
            auto P = ctxName(NS->getParent());
            if (NS->isAnonymousNamespace())
                return P + "(anon:" + TuName + ")::";
            if (NS->isInline())
                return P;
            return P + NS->getNameAsString() + "::";
        }
        if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) {
            if (RD->isLambda())
                return lambdaId(RD) + "::";
            return ty(C.getRecordType(RD)) + "::";
        }
        if (auto *FD = dyn_cast<FunctionDecl>(DC))
            return fid(FD) + "::";
        return ctxName(DC->getParent());
    }
    std::string lambdaId(const CXXRecordDecl *RD) {
        auto L = SM.getExpansionLoc(RD->getLocation());
        return "lambda@" + relFile(L) + ":" + std::to_string(line(L)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(L));
    }
    std::string fid(const FunctionDecl *F) {
        std::string S = ctxName(F->getDeclContext()) + F->getNameAsString();
        if (auto *Args = F->getTemplateSpecializationArgs()) {
            S += "<";
            bool First = true;
            for (auto &A : Args->asArray()) {
                if (!First)
                    S += ",";
                First = false;
                std::string T;
                llvm::raw_string_ostream OS(T);
                A.print(PP, OS, true);
                S += OS.str();
            }
            S += ">";
        }
        S += "(";
        bool First = true;
        for (auto *P : F->parameters()) {
            if (!First)
                S += ",";
            First = false;
            S += ty(P->getType());
        }
        S += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isConst())
                S += "const";
            if (M->getRefQualifier() == RQ_LValue)
                S += "&";
            if (M->getRefQualifier() == RQ_RValue)
                S += "&&";
        }
        return S;
    }
    // Name used for models: qualified name with class template arguments dropped.
    std::string shortName(const FunctionDecl *F) {
        std::string S;
        const DeclContext *DC = F->getDeclContext();
        std::string Pre;
        while (DC && !DC->isTranslationUnit()) {
            if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
                if (!NS->isInline() && !NS->isAnonymousNamespace())
                    Pre = NS->getNameAsString() + "::" + Pre;
            } else if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) {
                Pre = (RD->isLambda() ? std::string("(lambda)") : RD->getNameAsString()) + "::" + Pre;
            } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
                Pre = FD->getNameAsString() + "()::" + Pre;
            }
            DC = DC->getParent();
        }
        return Pre + F->getNameAsString();
    }

    void noteRecord(QualType T) {
        T = T.getCanonicalType().getNonReferenceType();
        while (T->isPointerType())
            T = T->getPointeeType();
        if (auto *RD = T->getAsCXXRecordDecl())
            record(RD);
        if (auto *ET = T->getAs<EnumType>())
            enumm(ET->getDecl());
    }
    void record(const CXXRecordDecl *RD) {
        RD = RD->getDefinition();
        if (!RD || RD->isLambda() || RD->isDependentType())
            return;
        if (!inRoot(RD->getLocation()))
            return;
        auto Name = ty(C.getRecordType(RD));
        if (!SeenRec.insert(Name).second)
            return;
        json::Object O;
        O["file"] = relFile(RD->getLocation());
        O["line"] = line(RD->getLocation());
        O["union"] = RD->isUnion();
        O["anon"] = RD->isAnonymousStructOrUnion();
        json::Array Bases;
        for (auto &B : RD->bases()) {
            Bases.push_back(ty(B.getType()));
            noteRecord(B.getType());
        }
        O["bases"] = std::move(Bases);
        json::Array Fs;
        for (auto *F : RD->fields()) {
            json::Object FO;
            FO["name"] = F->getNameAsString();
            FO["t"] = ty(F->getType());
            FO["mutable"] = F->isMutable();
            FO["line"] = line(F->getLocation());
            FO["access"] = (int)F->getAccess();
            if (F->isAnonymousStructOrUnion())
                FO["anon"] = true;
            if (F->hasInClassInitializer() && F->getInClassInitializer())
                FO["init"] = expr(F->getInClassInitializer());
            noteRecord(F->getType());
            Fs.push_back(std::move(FO));
        }
        O["fields"] = std::move(Fs);
        json::Array Ms;
        for (auto *M : RD->methods()) {
            json::Object MO;
            MO["id"] = fid(M);
            MO["name"] = M->getNameAsString();
            MO["virtual"] = M->isVirtual();
            MO["access"] = (int)M->getAccess();
            MO["const"] = M->isConst();
            MO["static"] = M->isStatic();
            MO["implicit"] = M->isImplicit();
            MO["deleted"] = M->isDeleted();
            MO["defaulted"] = M->isDefaulted();
            json::Array Ov;
            for (auto *B : M->overridden_methods())
                Ov.push_back(fid(B));
            MO["overrides"] = std::move(Ov);
            Ms.push_back(std::move(MO));
        }
        O["methods"] = std::move(Ms);
        O["vdtor"] = RD->getDestructor() ? RD->getDestructor()->isVirtual() : false;
        Records[Name] = std::move(O);
    }
    void enumm(const EnumDecl *ED) {
        ED = ED->getDefinition();
        if (!ED || !inRoot(ED->getLocation()))
            return;
        auto Name = ty(C.getEnumType(ED));
        if (!SeenEnum.insert(Name).second)
            return;
        json::Object O;
        for (auto *E : ED->enumerators())
            O[E->getNameAsString()] = (int64_t)E->getInitVal().getExtValue();
        Enums[Name] = std::move(O);
    }
    void globalVar(const VarDecl *V) {
        if (!V->hasGlobalStorage())
            return;
        auto Id = varId(V);
        if (!SeenVar.insert(Id).second)
            return;
        json::Object O;
        O["name"] = V->getNameAsString();
        O["qname"] = qname(V);
        O["t"] = ty(V->getType());
        O["const"] = V->getType().isConstQualified() || V->isConstexpr();
        O["static_local"] = V->isStaticLocal();
        O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        O["inroot"] = inRoot(V->getLocation());
        O["file"] = relFile(V->getLocation());
        O["line"] = line(V->getLocation());
        const VarDecl *Def = nullptr;
        if (inRoot(V->getLocation()) && V->getAnyInitializer(Def) && !V->getAnyInitializer()->isValueDependent())
            O["init"] = expr(V->getAnyInitializer(Def));
        Vars[Id] = std::move(O);
    }

    // --- expressions
    json::Value expr(const Expr *E) {
        if (!E)
            return nullptr;
        if (auto *X = dyn_cast<ExprWithCleanups>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ParenExpr>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
            return expr(X->getReplacement());
        if (auto *X = dyn_cast<ConstantExpr>(E))
            return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
            auto V = expr(X->getExpr());
            return json::Object{{"k", "defarg"}, {"e", std::move(V)}};
        }
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
            return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
            return expr(X->getSemanticForm());

        json::Object O;
        O["l"] = line(E->getExprLoc());
        O["t"] = ty(E->getType());
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
            O["k"] = "stdinit";
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            O["k"] = "mat";
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<IntegerLiteral>(E)) {
            O["k"] = "int";
            llvm::SmallString<32> S;
            X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
            O["v"] = S.str().str();
            return O;
        }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) {
            O["k"] = "int";
            O["v"] = std::to_string(X->getValue());
            return O;
        }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
            return O;
        }
        if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
            O["k"] = "str";
            if (X->getCharByteWidth() == 1 && json::isUTF8(X->getString()))
                O["v"] = X->getString().str();
            else
                O["v"] = "<wide>";
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            O["k"] = "null";
            return O;
        }
        if (isa<FloatingLiteral>(E)) {
            O["k"] = "float";
            return O;
        }
        if (isa<CXXThisExpr>(E)) {
            O["k"] = "this";
            return O;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            O["k"] = "zeroinit";
            return O;
        }
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            auto *D = X->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                O["k"] = "fref";
                O["f"] = fid(F);
                O["n"] = shortName(F);
                return O;
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                O["k"] = "enum";
                O["n"] = EC->getNameAsString();
                O["v"] = (int64_t)EC->getInitVal().getExtValue();
                if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext()))
                    enumm(ED);
                return O;
            }
            if (auto *V = dyn_cast<VarDecl>(D)) {
                O["k"] = "var";
                O["n"] = V->getNameAsString();
                O["id"] = varId(V);
                if (V->hasGlobalStorage()) {
                    O["g"] = true;
                    globalVar(V);
                }
                return O;
            }
            if (auto *B = dyn_cast<BindingDecl>(D)) {
                O["k"] = "var";
                O["n"] = B->getNameAsString();
                O["id"] = varId(B);
                return O;
            }
            O["k"] = "declref";
            O["n"] = D->getNameAsString();
            return O;
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            auto *D = X->getMemberDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                O["k"] = "fref";
                O["f"] = fid(F);
                O["n"] = shortName(F);
                O["o"] = expr(X->getBase());
                return O;
            }
            if (auto *V = dyn_cast<VarDecl>(D)) {
                O["k"] = "var";
                O["n"] = V->getNameAsString();
                O["id"] = varId(V);
                O["g"] = true;
                globalVar(V);
                return O;
            }
            O["k"] = "mem";
            O["n"] = D->getNameAsString();
            O["arrow"] = X->isArrow();
            if (auto *FD = dyn_cast<FieldDecl>(D)) {
                O["cls"] = ty(C.getRecordType(FD->getParent()));
                if (FD->isAnonymousStructOrUnion())
                    O["anon"] = true;
            }
            O["o"] = expr(X->getBase());
            return O;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "lambda";
            auto *RD = X->getLambdaClass();
            O["id"] = lambdaId(RD);
            json::Array Caps;
            auto FI = RD->field_begin();
            auto II = X->capture_init_begin();
            for (auto &Cap : X->captures()) {
                json::Object CO;
                if (Cap.capturesThis()) {
                    CO["this"] = true;
                    CO["copy"] = Cap.getCaptureKind() == LCK_StarThis;
                } else if (Cap.capturesVariable()) {
                    CO["id"] = varId(Cap.getCapturedVar());
                    CO["n"] = Cap.getCapturedVar()->getNameAsString();
                    CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
                    CO["e"] = expr(*II);
                }
                Caps.push_back(std::move(CO));
                ++FI;
                ++II;
            }
            O["caps"] = std::move(Caps);
            O["mutable"] = X->isMutable();
            json::Array Ops;
            if (auto *T = X->getDependentCallOperator() ? RD->getDependentLambdaCallOperator() : nullptr) {
                for (auto *S : T->specializations()) {
                    if (S->hasBody())
                        Ops.push_back(function(S));
                }
            } else if (auto *Op = X->getCallOperator()) {
                Ops.push_back(function(Op));
            }
            O["ops"] = std::move(Ops);
            return O;
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            O["k"] = "ocall";
            O["op"] = getOperatorSpelling(X->getOperator());
            callee(O, X->getDirectCallee(), X->getCallee());
            O["args"] = args(X);
            return O;
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "mcall";
            callee(O, X->getMethodDecl(), X->getCallee());
            O["o"] = expr(X->getImplicitObjectArgument());
            if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) {
                O["arrow"] = ME->isArrow();
                O["qualified"] = ME->hasQualifier();
            }
            O["args"] = args(X);
            return O;
        }
        if (auto *X = dyn_cast<UserDefinedLiteral>(E)) {
            O["k"] = "call";
            callee(O, X->getDirectCallee(), X->getCallee());
            O["args"] = args(X);
            return O;
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            O["k"] = "call";
            callee(O, X->getDirectCallee(), X->getCallee());
            O["args"] = args(X);
            return O;
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            O["k"] = "inhctor";
            return O;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            O["k"] = "ctor";
            auto *CD = X->getConstructor();
            O["f"] = fid(CD);
            O["n"] = shortName(CD);
            O["inroot"] = inRoot(CD->getLocation());
            O["ck"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
            O["elidable"] = X->isElidable();
            O["list"] = X->isListInitialization();
            O["stdlist"] = X->isStdInitListInitialization();
            O["defaulted"] = CD->isDefaulted() || CD->isImplicit();
            O["zero"] = X->requiresZeroInitialization();
            noteRecord(E->getType());
            O["args"] = args(X);
            return O;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "un";
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            O["post"] = X->isPostfix();
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
            O["k"] = "cassign";
            O["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
            return O;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            O["k"] = X->isAssignmentOp() ? "assign" : "bin";
            O["op"] = X->getOpcodeStr().str();
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
            return O;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            O["k"] = "cond";
            O["c"] = expr(X->getCond());
            O["a"] = expr(X->getTrueExpr());
            O["b"] = expr(X->getFalseExpr());
            return O;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "sub";
            O["a"] = expr(X->getBase());
            O["b"] = expr(X->getIdx());
            return O;
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            O["k"] = "initlist";
            auto *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
            json::Array A;
            for (auto *I : S->inits())
                A.push_back(expr(I));
            O["args"] = std::move(A);
            if (S->hasArrayFiller())
                O["filler"] = true;
            noteRecord(E->getType());
            return O;
        }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "new";
            O["at"] = ty(X->getAllocatedType());
            noteRecord(X->getAllocatedType());
            O["init"] = X->getInitializer() ? expr(X->getInitializer()) : json::Value(nullptr);
            return O;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            O["k"] = "delete";
            O["e"] = expr(X->getArgument());
            return O;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            O["k"] = "throw";
            if (X->getSubExpr()) {
                O["e"] = expr(X->getSubExpr());
                O["tt"] = ty(X->getSubExpr()->getType());
            }
            return O;
        }
        if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
            return O;
        }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            O["k"] = "sizeof";
            O["tt"] = ty(X->getTypeOfArgument());
            return O;
        }
        if (auto *X = dyn_cast<TypeTraitExpr>(E)) {
            O["k"] = "bool";
            O["v"] = X->getValue();
            return O;
        }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            auto K = X->getCastKind();
            if (K == CK_LValueToRValue) {
                O["k"] = "load";
                O["e"] = expr(X->getSubExpr());
                return O;
            }
            bool Explicit = isa<ExplicitCastExpr>(X);
            switch (K) {
                case CK_NoOp:
                case CK_ArrayToPointerDecay:
                case CK_FunctionToPointerDecay:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                case CK_UncheckedDerivedToBase:
                case CK_DerivedToBase:
                    if (!isa<CXXReinterpretCastExpr>(X))
                        return expr(X->getSubExpr());
                    break;
                default:
                    break;
            }
            O["k"] = "cast";
            O["ck"] = X->getCastKindName();
            O["explicit"] = Explicit;
            if (isa<CXXReinterpretCastExpr>(X))
                O["reinterpret"] = true;
            if (isa<CXXConstCastExpr>(X))
                O["const"] = true;
            O["ft"] = ty(X->getSubExpr()->getType());
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<PredefinedExpr>(E)) {
            O["k"] = "str";
            O["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : "";
            return O;
        }
        if (auto *X = dyn_cast<OpaqueValueExpr>(E))
            return expr(X->getSourceExpr());
        if (auto *X = dyn_cast<StmtExpr>(E)) {
            O["k"] = "stmtexpr";
            O["s"] = stmt(X->getSubStmt());
            return O;
        }
        O["k"] = "?";
        O["cls"] = E->getStmtClassName();
        return O;
    }
    template <class T> json::Array args(const T *X) {
        json::Array A;
        for (auto *I : X->arguments())
            A.push_back(expr(I));
        return A;
    }
    // whether a function of the clingo API contains a throw expression or calls such a function
    std::map<const FunctionDecl *, bool> Throws;
    bool inStd(const Decl *D) {
        for (auto *DC = D->getDeclContext(); DC; DC = DC->getParent())
            if (DC->isStdNamespace())
                return true;
        return false;
    }
    struct ThrowFinder : RecursiveASTVisitor<ThrowFinder> {
        Dumper &D;
        bool Found = false;
        ThrowFinder(Dumper &D) : D(D) {}
        bool shouldVisitImplicitCode() const { return true; }
        bool VisitCXXThrowExpr(CXXThrowExpr *) {
            Found = true;
            return false;
        }
        bool TraverseLambdaExpr(LambdaExpr *) { return true; }
        bool TraverseCXXTryStmt(CXXTryStmt *X) {
            for (unsigned I = 0; I < X->getNumHandlers(); ++I)
                if (X->getHandler(I)->getExceptionDecl() == nullptr)
                    return true;
            return RecursiveASTVisitor<ThrowFinder>::TraverseCXXTryStmt(X);
        }
        bool VisitCallExpr(CallExpr *X) {
            if (auto *F = X->getDirectCallee())
                Found = Found || D.mayThrow(F);
            return !Found;
        }
        bool VisitCXXConstructExpr(CXXConstructExpr *X) {
            Found = Found || D.mayThrow(X->getConstructor());
            return !Found;
        }
    };
    bool mayThrow(const FunctionDecl *F) {
        auto It = Throws.find(F->getCanonicalDecl());
        if (It != Throws.end())
            return It->second;
        Throws[F->getCanonicalDecl()] = false;
        bool R = false;
        const FunctionDecl *Def = nullptr;
        auto *FPT = F->getType()->getAs<FunctionProtoType>();
        bool NoEx = FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow();
        if (!NoEx && !inStd(F) && !inRoot(F->getLocation()) && F->hasBody(Def) && Def) {
            ThrowFinder T(*this);
            T.TraverseStmt(Def->getBody());
            R = T.Found;
        }
        Throws[F->getCanonicalDecl()] = R;
        return R;
    }
    void callee(json::Object &O, const FunctionDecl *F, const Expr *CE) {
        if (F) {
            if (!inRoot(F->getLocation()) && mayThrow(F))
                O["ethrow"] = true;
            O["f"] = fid(F);
            O["n"] = shortName(F);
            O["inroot"] = inRoot(F->getLocation());
            O["rt"] = ty(F->getReturnType());
            if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
                O["virtual"] = M->isVirtual();
                O["mconst"] = M->isConst();
                O["mstatic"] = M->isStatic();
            }
            auto *FPT = F->getType()->getAs<FunctionProtoType>();
            bool NoEx = FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow();
            O["noexcept"] = NoEx || F->isExternC();
            O["externc"] = F->isExternC();
            O["nodiscard"] = F->hasAttr<WarnUnusedResultAttr>();
            json::Array PT;
            for (auto *P : F->parameters())
                PT.push_back(ty(P->getType()));
            O["pt"] = std::move(PT);
            if (inRoot(F->getLocation()))
                for (auto *P : F->parameters())
                    noteRecord(P->getType());
        } else {
            O["fe"] = expr(CE);
        }
    }

    // --- statements
    json::Value varDecl(const VarDecl *V) {
        json::Object O;
        O["n"] = V->getNameAsString();
        O["id"] = varId(V);
        O["t"] = ty(V->getType());
        O["l"] = line(V->getLocation());
        O["static"] = V->isStaticLocal();
        noteRecord(V->getType());
        if (V->isStaticLocal())
            globalVar(V);
        if (V->getInit())
            O["init"] = expr(V->getInit());
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            json::Array Bs;
            for (auto *B : D->bindings())
                Bs.push_back(json::Object{{"n", B->getNameAsString()}, {"id", varId(B)}, {"t", ty(B->getType())}});
            O["bindings"] = std::move(Bs);
        }
        return O;
    }
    json::Value stmt(const Stmt *S) {
        if (!S)
            return nullptr;
        if (auto *X = dyn_cast<Expr>(S))
            return json::Object{{"k", "expr"}, {"l", line(X->getExprLoc())}, {"e", expr(X)}};
        json::Object O;
        O["l"] = line(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "block";
            O["el"] = line(X->getRBracLoc());
            json::Array A;
            for (auto *I : X->body())
                A.push_back(stmt(I));
            O["s"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            O["k"] = "decl";
            json::Array A;
            for (auto *D : X->decls())
                if (auto *V = dyn_cast<VarDecl>(D))
                    A.push_back(varDecl(V));
            O["v"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            O["k"] = "if";
            if (X->isConstexpr()) {
                O["constexpr"] = true;
                Expr::EvalResult R;
                if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt())
                    O["cval"] = R.Val.getInt().getBoolValue();
            }
            O["init"] = stmt(X->getInit());
            if (X->getConditionVariable())
                O["cv"] = varDecl(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["a"] = stmt(X->getThen());
            O["b"] = stmt(X->getElse());
            return O;
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            O["k"] = "while";
            if (X->getConditionVariable())
                O["cv"] = varDecl(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<DoStmt>(S)) {
            O["k"] = "do";
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            O["k"] = "for";
            O["init"] = stmt(X->getInit());
            O["c"] = X->getCond() ? expr(X->getCond()) : json::Value(nullptr);
            O["inc"] = X->getInc() ? expr(X->getInc()) : json::Value(nullptr);
            O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "rangefor";
            O["init"] = stmt(X->getInit());
            O["r"] = expr(X->getRangeInit());
            O["var"] = varDecl(X->getLoopVariable());
            O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "switch";
            O["init"] = stmt(X->getInit());
            O["c"] = expr(X->getCond());
            O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) {
            O["k"] = "case";
            O["v"] = expr(X->getLHS());
            O["s"] = stmt(X->getSubStmt());
            return O;
        }
        if (auto *X = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "default";
            O["s"] = stmt(X->getSubStmt());
            return O;
        }
        if (isa<BreakStmt>(S)) {
            O["k"] = "break";
            return O;
        }
        if (isa<ContinueStmt>(S)) {
            O["k"] = "continue";
            return O;
        }
        if (auto *X = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "return";
            O["e"] = X->getRetValue() ? expr(X->getRetValue()) : json::Value(nullptr);
            return O;
        }
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "try";
            O["body"] = stmt(X->getTryBlock());
            json::Array A;
            for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
                auto *H = X->getHandler(I);
                json::Object HO;
                HO["all"] = H->getExceptionDecl() == nullptr;
                if (H->getExceptionDecl()) {
                    HO["t"] = ty(H->getCaughtType());
                    HO["id"] = varId(H->getExceptionDecl());
                }
                HO["body"] = stmt(H->getHandlerBlock());
                A.push_back(std::move(HO));
            }
            O["h"] = std::move(A);
            return O;
        }
        if (isa<NullStmt>(S)) {
            O["k"] = "null";
            return O;
        }
        if (auto *X = dyn_cast<AttributedStmt>(S))
            return stmt(X->getSubStmt());
        if (auto *X = dyn_cast<LabelStmt>(S)) {
            O["k"] = "label";
            O["s"] = stmt(X->getSubStmt());
            return O;
        }
        O["k"] = "?";
        O["cls"] = S->getStmtClassName();
        return O;
    }

    // --- functions
    json::Value function(const FunctionDecl *F) {
        json::Object O;
        O["id"] = fid(F);
        O["n"] = shortName(F);
        O["name"] = F->getNameAsString();
        O["file"] = relFile(F->getLocation());
        O["line"] = line(F->getLocation());
        O["rt"] = ty(F->getReturnType());
        O["externc"] = F->isExternC();
        auto *FPT = F->getType()->getAs<FunctionProtoType>();
        O["noexcept"] = FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = M->getParent()->isLambda() ? lambdaId(M->getParent()) : ty(C.getRecordType(M->getParent()));
            O["const"] = M->isConst();
            O["static"] = M->isStatic();
            O["virtual"] = M->isVirtual();
            O["access"] = (int)M->getAccess();
            noteRecord(C.getRecordType(M->getParent()));
        }
        noteRecord(F->getReturnType());
        json::Array Ps;
        for (auto *P : F->parameters()) {
            Ps.push_back(json::Object{{"n", P->getNameAsString()}, {"id", varId(P)}, {"t", ty(P->getType())}});
            noteRecord(P->getType());
        }
        O["params"] = std::move(Ps);
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array Is;
            for (auto *I : CD->inits()) {
                json::Object IO;
                if (I->isAnyMemberInitializer()) {
                    IO["m"] = I->getAnyMember()->getNameAsString();
                } else if (I->isBaseInitializer()) {
                    IO["base"] = ty(QualType(I->getBaseClass(), 0));
                } else if (I->isDelegatingInitializer()) {
                    IO["delegate"] = true;
                }
                IO["e"] = expr(I->getInit());
                Is.push_back(std::move(IO));
            }
            O["inits"] = std::move(Is);
            O["ctor"] = true;
        }
        if (isa<CXXDestructorDecl>(F))
            O["dtor"] = true;
        O["body"] = stmt(F->getBody());
        return O;
    }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext())
            return true;
        if (!inRoot(F->getLocation()))
            return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                return true;
        if (F->isImplicit() || (F->isDefaulted() && !isa<CXXConstructorDecl>(F)))
            return true;
        if (F->isDefaulted())
            return true;
        auto Id = fid(F);
        Functions[Id] = function(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isThisDeclarationADefinition() && !R->isDependentContext())
            record(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!E->getDeclContext()->isDependentContext())
            enumm(E);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->hasGlobalStorage() && inRoot(V->getLocation()) && !V->getDeclContext()->isDependentContext() &&
            !V->getType()->isDependentType() && !isa<ParmVarDecl>(V) && !V->isTemplated())
            globalVar(V);
        return true;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred())
            return;
        Dumper D(C);
        D.TraverseDecl(C.getTranslationUnitDecl());
        json::Object O;
        O["tu"] = TuName;
        O["functions"] = std::move(D.Functions);
        O["records"] = std::move(D.Records);
        O["enums"] = std::move(D.Enums);
        O["vars"] = std::move(D.Vars);
        llvm::outs() << json::Value(std::move(O)) << "\n";
    }
};

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

class Factory : public tooling::FrontendActionFactory {
  public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

} // namespace

int main(int argc, const char **argv) {
    // usage: extract ROOT FILE -- flags
    if (argc < 4) {
        llvm::errs() << "usage: extract ROOT FILE -- FLAGS\n";
        return 2;
    }
    Root = argv[1];
    std::string File = argv[2];
    TuName = File.substr(File.rfind('/') + 1);
    std::string Err;
    int N = argc - 3;
    auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(N, argv + 3, Err);
    if (!DB) {
        llvm::errs() << "bad command line: " << Err << "\n";
        return 2;
    }
    tooling::ClangTool Tool(*DB, {File});
    Factory F;
    return Tool.run(&F);
}
