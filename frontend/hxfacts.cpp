// hxfacts: dumps the resolved program (functions with their control-flow
// graphs, expression trees with resolved declarations, records, enums and
// global initialisers) of one translation unit as JSON.
//
// usage: hxfacts <root> <out.json> <source> -- <compile flags>
//
// Only declarations whose file lies under <root> are dumped with bodies;
// everything else is an external, known by its qualified name.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root, OutPath;

namespace {

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    json::Object funcs, records, enums, globals;
    std::set<std::string> doneFuncs, doneRecords;

    Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
    }

    bool inRoot(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return false;
        StringRef f = SM.getFilename(L);
        llvm::SmallString<256> p(f);
        if (auto fe = SM.getFileEntryRefForID(SM.getFileID(L))) {
            StringRef rp = fe->getFileEntry().tryGetRealPathName();
            if (!rp.empty()) p = rp;
        }
        return StringRef(p).starts_with(Root);
    }

    std::string file(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        std::string p = SM.getFilename(L).str();
        if (auto fe = SM.getFileEntryRefForID(SM.getFileID(L))) {
            StringRef rp = fe->getFileEntry().tryGetRealPathName();
            if (!rp.empty()) p = rp.str();
        }
        if (StringRef(p).starts_with(Root)) p = p.substr(Root.size() + (Root.back() == '/' ? 0 : 1));
        return p;
    }
    int line(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        return L.isInvalid() ? 0 : (int) SM.getExpansionLineNumber(L);
    }

    std::string usr(const Decl *D) {
        llvm::SmallString<256> b;
        if (!D || index::generateUSRForDecl(D, b)) return "";
        return b.str().str();
    }
    std::string type(QualType T) {
        if (T.isNull()) return "";
        return T.getAsString(PP);
    }
    std::string ctype(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    // qualified name without template arguments
    std::string qn(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto *FD = dyn_cast<FunctionDecl>(D)) (void) FD;
        D->printQualifiedName(os, PP);
        os.flush();
        // strip template arguments ("operator<" and friends keep theirs)
        std::string out;
        int depth = 0;
        for (size_t i = 0; i < s.size(); i++) {
            if (s.compare(i, 8, "operator") == 0 && depth == 0) { out += s.substr(i); break; }
            if (s[i] == '<') { depth++; continue; }
            if (s[i] == '>') { depth--; continue; }
            if (depth == 0) out += s[i];
        }
        // inline namespaces of libstdc++
        for (const char *ns : {"__cxx11::", "_V2::"}) {
            size_t p;
            while ((p = out.find(ns)) != std::string::npos) out.erase(p, strlen(ns));
        }
        return out;
    }

    // ------------------------------------------------------------------
    // expressions of one function
    struct FnCtx {
        std::map<const Stmt *, int> ids;
        json::Array exprs;
    };

    static const Expr *strip(const Expr *E) {
        while (E) {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<ImplicitCastExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ChooseExpr>(E)) { if (!P->isConditionDependent()) { E = P->getChosenSubExpr(); continue; } }
            if (auto *P = dyn_cast<GenericSelectionExpr>(E)) { if (!P->isResultDependent()) { E = P->getResultExpr(); continue; } }
            break;
        }
        return E;
    }

    int ex(FnCtx &F, const Expr *E0) {
        const Expr *E = strip(E0);
        if (!E) return -1;
        auto it = F.ids.find(E);
        if (it != F.ids.end()) { F.ids[E0] = it->second; return it->second; }
        json::Object o;
        o["t"] = type(E->getType());
        std::string ct = ctype(E->getType());
        o["ct"] = ct;
        o["l"] = line(E->getBeginLoc());
        if (E->getBeginLoc().isMacroID()) {
            // outermost-to-innermost macro naming this token: the innermost
            // user macro that expands to exactly this expression
            SourceLocation L = E->getBeginLoc();
            std::string m = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
            o["m"] = m;
        }
        if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult R;
            if (!E->HasSideEffects(C) && E->EvaluateAsInt(R, C)) {
                auto v = R.Val.getInt();
                if (v.isSigned() ? v.getSignificantBits() <= 64 : v.getActiveBits() <= 63) o["v"] = (int64_t) v.getExtValue();
                else o["v"] = llvm::toString(v, 10);
            }
        }
        json::Array c;
        auto kid = [&](const Expr *S) { int k = S ? ex(F, S) : -1; return k; };

        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *V = D->getDecl();
            o["k"] = "ref";
            o["name"] = V->getNameAsString();
            if (isa<FunctionDecl>(V)) { o["dk"] = "func"; o["d"] = fid(cast<FunctionDecl>(V)); o["qn"] = qn(V); want(cast<FunctionDecl>(V)); }
            else if (isa<EnumConstantDecl>(V)) { o["dk"] = "enum"; o["qn"] = qn(V); o["d"] = usr(V);
                auto *ED = cast<EnumDecl>(V->getDeclContext()); o["enum"] = qn(ED); noteEnum(ED); }
            else if (auto *P = dyn_cast<ParmVarDecl>(V)) { o["dk"] = "parm"; o["d"] = vid(P); }
            else if (auto *B = dyn_cast<BindingDecl>(V)) { o["dk"] = "binding"; o["d"] = vid(V); }
            else if (auto *VD = dyn_cast<VarDecl>(V)) {
                if (VD->hasGlobalStorage() && !VD->isStaticLocal()) { o["dk"] = "global"; o["qn"] = qn(VD); o["d"] = usr(VD); noteGlobal(VD); }
                else { o["dk"] = VD->isStaticLocal() ? "static" : "var"; o["d"] = vid(VD); }
            }
            else { o["dk"] = "other"; o["d"] = usr(V); o["qn"] = qn(V); }
        }
        else if (auto *M = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *V = M->getMemberDecl();
            if (auto *VD = dyn_cast<VarDecl>(V)) { o["k"] = "ref"; o["dk"] = "global"; o["name"] = V->getNameAsString(); o["qn"] = qn(VD); o["d"] = usr(VD); noteGlobal(VD); }
            else {
                o["k"] = "member";
                o["name"] = V->getNameAsString();
                o["arrow"] = M->isArrow();
                if (auto *FD = dyn_cast<FieldDecl>(V)) { o["rec"] = qn(FD->getParent()); o["anon"] = FD->getNameAsString().empty(); }
                if (auto *MD = dyn_cast<CXXMethodDecl>(V)) { o["d"] = fid(MD); o["qn"] = qn(MD); }
                c.push_back(kid(M->getBase()));
            }
        }
        else if (isa<CXXThisExpr>(E)) { o["k"] = "this"; o["implicit"] = cast<CXXThisExpr>(E)->isImplicit(); }
        else if (auto *L = dyn_cast<IntegerLiteral>(E)) { o["k"] = "lit"; (void) L; }
        else if (auto *L = dyn_cast<CharacterLiteral>(E)) { o["k"] = "lit"; o["v"] = (int64_t) L->getValue(); }
        else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "lit"; o["v"] = (int64_t) L->getValue(); }
        else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "lit"; o["v"] = 0; o["null"] = true; }
        else if (auto *L = dyn_cast<FloatingLiteral>(E)) { o["k"] = "flit"; o["fv"] = L->getValueAsApproximateDouble(); }
        else if (auto *L = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; if (L->isOrdinary() || L->isUTF8()) { std::string s = L->getString().str(); if (json::isUTF8(s)) o["s"] = s; else o["s"] = json::fixUTF8(s); } }
        else if (auto *B = dyn_cast<BinaryOperator>(E)) {
            o["k"] = "bin"; o["op"] = B->getOpcodeStr().str(); o["asg"] = B->isAssignmentOp();
            c.push_back(kid(B->getLHS())); c.push_back(kid(B->getRHS()));
        }
        else if (auto *U = dyn_cast<clang::UnaryOperator>(E)) {
            o["k"] = "un"; std::string op = clang::UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op = "post" + op;
            o["op"] = op; c.push_back(kid(U->getSubExpr()));
        }
        else if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            o["k"] = "index"; c.push_back(kid(A->getBase())); c.push_back(kid(A->getIdx()));
        }
        else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            o["k"] = "sizeof"; o["tt"] = type(X->getTypeOfArgument());
            if (!X->isArgumentType()) o["arg"] = kid(X->getArgumentExpr());
        }
        else if (auto *T = dyn_cast<AbstractConditionalOperator>(E)) {
            o["k"] = "cond"; c.push_back(kid(T->getCond())); c.push_back(kid(T->getTrueExpr())); c.push_back(kid(T->getFalseExpr()));
        }
        else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
            if (X->getSourceExpr()) return ex(F, X->getSourceExpr());
            o["k"] = "opaque";
        }
        else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            o["k"] = "new"; o["array"] = X->isArray(); o["nt"] = type(X->getAllocatedType());
            if (X->isArray() && X->getArraySize()) o["size"] = kid(*X->getArraySize());
            if (X->getNumPlacementArgs()) o["placement"] = true;
            o["opnew"] = X->getOperatorNew() ? qn(X->getOperatorNew()) : "";
            if (X->hasInitializer()) { o["hasinit"] = true; if (X->getConstructExpr()) c.push_back(kid(X->getConstructExpr())); else if (X->getInitializer()) c.push_back(kid(X->getInitializer())); }
            else if (X->getConstructExpr()) c.push_back(kid(X->getConstructExpr()));
        }
        else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            o["k"] = "delete"; o["array"] = X->isArrayForm(); c.push_back(kid(X->getArgument()));
            QualType dt = X->getDestroyedType(); if (!dt.isNull()) { o["dt"] = type(dt);
              if (auto *RD = dt->getAsCXXRecordDecl()) if (RD->hasDefinition()) if (auto *DD = RD->getDestructor()) { o["dtor"] = fid(DD); o["vdtor"] = DD->isVirtual(); want(DD);} }
        }
        else if (auto *X = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "lambda"; o["f"] = fid(X->getCallOperator()); want(X->getCallOperator());
            json::Array caps;
            for (auto ci = X->capture_begin(); ci != X->capture_end(); ++ci) {
                json::Object q; q["this"] = ci->capturesThis();
                if (ci->capturesVariable()) { q["d"] = vid(ci->getCapturedVar()); q["name"] = ci->getCapturedVar()->getNameAsString(); q["ref"] = ci->getCaptureKind() == LCK_ByRef; }
                caps.push_back(std::move(q));
            }
            o["caps"] = std::move(caps);
        }
        else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            o["k"] = "construct"; o["f"] = fid(X->getConstructor()); o["qn"] = qn(X->getConstructor()); o["rec"] = qn(X->getConstructor()->getParent());
            o["copy"] = X->getConstructor()->isCopyConstructor(); o["move"] = X->getConstructor()->isMoveConstructor();
            o["implicitctor"] = X->getConstructor()->isImplicit();
            want(X->getConstructor());
            for (auto *a : X->arguments()) c.push_back(kid(a));
        }
        else if (auto *X = dyn_cast<CallExpr>(E)) {
            o["k"] = "call";
            const FunctionDecl *FD = X->getDirectCallee();
            if (FD) { o["f"] = fid(FD); o["qn"] = qn(FD); o["name"] = FD->getNameAsString(); want(FD);
                json::Array pn; for (auto *p : FD->parameters()) pn.push_back(p->getNameAsString()); o["pn"] = std::move(pn);
                json::Array pt; for (auto *p : FD->parameters()) pt.push_back(type(p->getType())); o["pt"] = std::move(pt); { auto rt = FD->getReturnType(); if (rt->isLValueReferenceType()) o["rr"] = true; }
                if (auto *TA = FD->getTemplateSpecializationArgs()) { json::Array ta; for (auto &a : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); os.flush(); ta.push_back(s); } o["ta"] = std::move(ta); }
            }
            else {
                QualType ft = X->getCallee()->getType();
                if (ft->isPointerType() || ft->isReferenceType()) ft = ft->getPointeeType();
                if (auto *FP = ft->getAs<FunctionProtoType>()) { json::Array pt; for (auto t : FP->param_types()) pt.push_back(type(t)); o["pt"] = std::move(pt); }
            }
            if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
                o["obj"] = MC->getImplicitObjectArgument() ? kid(MC->getImplicitObjectArgument()) : -1;
                if (auto *MD = MC->getMethodDecl()) {
                    bool devirt = false;
                    if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) devirt = ME->hasQualifier();
                    o["virt"] = MD->isVirtual() && !devirt; o["constm"] = MD->isConst();
                    o["objt"] = ctype(MC->getObjectType());
                }
                for (auto *a : X->arguments()) c.push_back(kid(a));
                if (!FD) o["fn"] = kid(X->getCallee());
            }
            else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
                o["oper"] = getOperatorSpelling(OC->getOperator());
                unsigned s = 0;
                if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) { o["obj"] = kid(X->getArg(0)); o["objt"] = ctype(X->getArg(0)->getType()); o["constm"] = cast<CXXMethodDecl>(FD)->isConst(); s = 1; }
                for (unsigned i = s; i < X->getNumArgs(); i++) c.push_back(kid(X->getArg(i)));
            }
            else {
                for (auto *a : X->arguments()) c.push_back(kid(a));
                if (!FD) o["fn"] = kid(X->getCallee());
            }
        }
        else if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) { o["k"] = "opaque"; (void) X; }
        else if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
            o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["tt"] = type(X->getTypeAsWritten()); o["style"] = X->getStmtClassName();
            c.push_back(kid(X->getSubExpr()));
        }
        else if (auto *X = dyn_cast<InitListExpr>(E)) { o["k"] = "initlist"; for (auto *i : X->inits()) c.push_back(kid(i)); }
        else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "lit"; o["v"] = 0; o["zeroinit"] = true; }
        else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; if (X->getSubExpr()) c.push_back(kid(X->getSubExpr())); }
        else if (auto *X = dyn_cast<StmtExpr>(E)) { o["k"] = "stmtexpr"; (void) X; }
        else if (isa<PredefinedExpr>(E)) { o["k"] = "str"; o["s"] = "__func__"; }
        else if (auto *X = dyn_cast<CompoundLiteralExpr>(E)) { o["k"] = "initlist"; c.push_back(kid(X->getInitializer())); }
        else if (isa<TypeTraitExpr>(E)) { o["k"] = "lit"; }
        else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { o["k"] = "opaque"; (void) X; }
        else {
            o["k"] = "opaque"; o["cls"] = E->getStmtClassName();
            for (auto *ch : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(ch)) c.push_back(kid(ce));
        }
        o["c"] = std::move(c);
        int id = (int) F.exprs.size();
        F.exprs.push_back(std::move(o));
        F.ids[E] = id; F.ids[E0] = id;
        return id;
    }

    std::map<const Decl *, int> varIds;
    std::map<const FunctionDecl *, std::map<const Decl *, int>> perFn;
    std::string vid(const ValueDecl *V) {
        V = cast<ValueDecl>(V->getCanonicalDecl());
        if (auto *P = dyn_cast<ParmVarDecl>(V)) {
            return "p" + std::to_string(P->getFunctionScopeIndex()) + "d" + std::to_string(P->getFunctionScopeDepth()) + ":" + P->getNameAsString();
        }
        // stable and deterministic inside one function: offset in the file
        SourceLocation L = SM.getExpansionLoc(V->getLocation());
        return "v" + std::to_string(SM.getFileOffset(L)) + ":" + V->getNameAsString();
    }

    std::vector<const FunctionDecl *> work;
    std::set<const FunctionDecl *> queued;
    void want(const FunctionDecl *FD) {
        const FunctionDecl *Def = nullptr;
        if (!FD->hasBody(Def) || !Def) {
            // implicit instantiation not yet visited or extern
            return;
        }
        if (!inRoot(Def->getLocation())) return;
        if (Def->isDependentContext()) return;
        if (queued.insert(Def).second) work.push_back(Def);
    }

    std::string fid(const FunctionDecl *FD) {
        const FunctionDecl *Def = FD;
        std::string u = usr(Def->getCanonicalDecl());
        // internal linkage and lambdas: USR carries the file already
        if (auto *TA = FD->getTemplateSpecializationArgs()) {
            u += "<";
            for (auto &a : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); os.flush(); u += s + ","; }
            u += ">";
        }
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(MD->getParent())) {
                u += "@" + type(C.getTypeDeclType(S));
            }
        return u;
    }

    void noteEnum(const EnumDecl *E) {
        std::string n = qn(E);
        if (n.empty() || enums.get(n)) return;
        if (!inRoot(E->getLocation())) return;
        json::Array a;
        for (auto *c : E->enumerators()) a.push_back(json::Object{{"name", c->getNameAsString()}, {"v", (int64_t) c->getInitVal().getExtValue()}});
        enums[n] = json::Object{{"vals", std::move(a)}, {"file", file(E->getLocation())}, {"line", line(E->getLocation())}};
    }

    void noteGlobal(const VarDecl *V) {
        const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
        if (!inRoot(D->getLocation())) return;
        std::string u = usr(D->getCanonicalDecl());
        if (globals.get(u)) { auto *g = globals.getObject(u); if (g->get("init") || !D->hasInit()) return; }
        json::Object g{{"qn", qn(D)}, {"t", type(D->getType())}, {"file", file(D->getLocation())}, {"line", line(D->getLocation())}};
        globals[u] = json::Object{{"qn", qn(D)}};   // guards recursion
        if (D->hasInit() && !D->getInit()->isValueDependent()) {
            FnCtx F; int id = ex(F, D->getInit());
            g["init"] = id; g["exprs"] = std::move(F.exprs);
        }
        globals[u] = std::move(g);
    }

    void noteRecord(const CXXRecordDecl *R) {
        if (!R || !R->hasDefinition()) return;
        R = R->getDefinition();
        if (R->isDependentContext() || !inRoot(R->getLocation())) return;
        std::string u = usr(R);
        if (!doneRecords.insert(u).second) return;
        json::Array bases, fields, methods;
        for (auto &b : R->bases()) if (auto *br = b.getType()->getAsCXXRecordDecl()) { bases.push_back(qn(br)); noteRecord(br); }
        for (auto *f : R->fields()) fields.push_back(json::Object{{"name", f->getNameAsString()}, {"t", type(f->getType())}, {"ct", ctype(f->getType())}, {"l", line(f->getLocation())}});
        for (auto *m : R->methods()) {
            json::Object mo{{"name", m->getNameAsString()}, {"f", fid(m)}, {"virt", m->isVirtual()}, {"pure", m->isPureVirtual()}, {"deleted", m->isDeleted()}, {"implicit", m->isImplicit()}, {"defaulted", m->isDefaulted()}};
            json::Array ov; for (auto *o : m->overridden_methods()) ov.push_back(fid(o)); mo["over"] = std::move(ov);
            mo["acc"] = (int) m->getAccess();
            methods.push_back(std::move(mo));
            want(m);
        }
        records[u] = json::Object{{"qn", qn(R)}, {"name", type(C.getTypeDeclType(R))}, {"bases", std::move(bases)}, {"fields", std::move(fields)}, {"methods", std::move(methods)}, {"file", file(R->getLocation())}, {"line", line(R->getLocation())}};
    }

    int elemStmt(FnCtx &F, const Stmt *S, json::Object &o) {
        if (auto *E = dyn_cast<Expr>(S)) { o["e"] = ex(F, E); return 1; }
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            json::Array a;
            for (auto *d : D->decls()) if (auto *v = dyn_cast<VarDecl>(d)) {
                json::Object q{{"d", vid(v)}, {"name", v->getNameAsString()}, {"t", type(v->getType())}, {"ct", ctype(v->getType())}, {"l", line(v->getLocation())}, {"static", v->isStaticLocal()}, {"ref", v->getType()->isReferenceType()}};
                if (v->getInit()) q["init"] = ex(F, v->getInit());
                a.push_back(std::move(q));
            }
            o["decl"] = std::move(a); return 1;
        }
        if (auto *R = dyn_cast<ReturnStmt>(S)) { o["ret"] = R->getRetValue() ? ex(F, R->getRetValue()) : -1; o["l"] = line(R->getBeginLoc()); return 1; }
        return 0;
    }

    void dumpFunc(const FunctionDecl *FD) {
        std::string id = fid(FD);
        if (!doneFuncs.insert(id).second) return;
        if (FD->isDependentContext()) return;
        json::Object o;
        o["qn"] = qn(FD); o["name"] = FD->getNameAsString(); o["file"] = file(FD->getLocation()); o["line"] = line(FD->getLocation());
        o["endline"] = line(FD->getSourceRange().getEnd());
        o["rt"] = type(FD->getReturnType());
        o["rct"] = ctype(FD->getReturnType());
        o["static"] = FD->getStorageClass() == SC_Static;
        o["externc"] = FD->isExternC();
        o["public"] = true;
        o["noret"] = FD->isNoReturn();
        if (auto *TA = FD->getTemplateSpecializationArgs()) { json::Array ta; for (auto &a : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); os.flush(); ta.push_back(s); } o["ta"] = std::move(ta); }
        json::Array ps;
        for (auto *p : FD->parameters()) ps.push_back(json::Object{{"d", vid(p)}, {"name", p->getNameAsString()}, {"t", type(p->getType())}, {"ct", ctype(p->getType())}, {"ref", p->getType()->isReferenceType()}});
        o["params"] = std::move(ps);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
            o["rec"] = qn(MD->getParent()); o["recu"] = usr(MD->getParent()); o["mstatic"] = MD->isStatic(); o["virt"] = MD->isVirtual(); o["constm"] = MD->isConst();
            json::Array ov; for (auto *m : MD->overridden_methods()) ov.push_back(fid(m)); o["over"] = std::move(ov);
            o["kind"] = isa<CXXConstructorDecl>(MD) ? "ctor" : isa<CXXDestructorDecl>(MD) ? "dtor" : isa<CXXConversionDecl>(MD) ? "conv" : "method";
            o["lambda"] = MD->getParent()->isLambda();
            noteRecord(MD->getParent());
            if (auto *DD = dyn_cast<CXXDestructorDecl>(MD)) {
                // member and base destructors run after the body
                json::Array md;
                for (auto *f : DD->getParent()->fields()) if (auto *fr = f->getType()->getAsCXXRecordDecl()) if (fr->hasDefinition()) if (auto *fd = fr->getDestructor()) md.push_back(json::Object{{"field", f->getNameAsString()}, {"f", fid(fd)}});
                o["memberdtors"] = std::move(md);
                json::Array bd;
                for (auto &b : DD->getParent()->bases()) if (auto *br = b.getType()->getAsCXXRecordDecl()) if (br->hasDefinition()) if (auto *fd = br->getDestructor()) { bd.push_back(fid(fd)); want(fd); }
                o["basedtors"] = std::move(bd);
            }
        } else o["kind"] = "function";

        const Stmt *Body = FD->getBody();
        FnCtx F;
        CFG::BuildOptions BO;
        BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false; BO.AddCXXDefaultInitExprInCtors = true;
        BO.AddStaticInitBranches = false; BO.PruneTriviallyFalseEdges = true; BO.AddEHEdges = false;
        BO.setAllAlwaysAdd();
        std::unique_ptr<CFG> G = CFG::buildCFG(FD, const_cast<Stmt *>(Body), &C, BO);
        if (G) {
            json::Array blocks;
            for (CFGBlock *B : *G) {
                json::Object b; b["id"] = (int64_t) B->getBlockID();
                json::Array els;
                for (auto &E : *B) {
                    json::Object eo;
                    switch (E.getKind()) {
                        case CFGElement::Statement:
                        case CFGElement::Constructor:
                        case CFGElement::CXXRecordTypedCall: {
                            const Stmt *S = E.castAs<CFGStmt>().getStmt();
                            if (elemStmt(F, S, eo)) els.push_back(std::move(eo));
                            break; }
                        case CFGElement::Initializer: {
                            const CXXCtorInitializer *I = E.castAs<CFGInitializer>().getInitializer();
                            if (I->isAnyMemberInitializer()) eo["initf"] = I->getAnyMember()->getNameAsString();
                            else if (I->isBaseInitializer()) eo["initbase"] = I->getBaseClass() ? type(QualType(I->getBaseClass(), 0)) : "";
                            else eo["initdel"] = true;
                            if (I->getInit()) eo["e"] = ex(F, I->getInit());
                            eo["l"] = line(I->getSourceLocation());
                            eo["written"] = I->isWritten();
                            els.push_back(std::move(eo)); break; }
                        case CFGElement::AutomaticObjectDtor: {
                            auto D = E.castAs<CFGAutomaticObjDtor>();
                            eo["dtor"] = vid(D.getVarDecl()); eo["t"] = type(D.getVarDecl()->getType()); eo["l"] = line(D.getTriggerStmt() ? D.getTriggerStmt()->getEndLoc() : SourceLocation());
                            if (auto *R = D.getVarDecl()->getType()->getAsCXXRecordDecl()) if (R->hasDefinition()) if (auto *DD = R->getDestructor()) { eo["f"] = fid(DD); want(DD); }
                            els.push_back(std::move(eo)); break; }
                        default: break;
                    }
                }
                b["els"] = std::move(els);
                json::Array su;
                for (auto &s : B->succs()) su.push_back(s.getReachableBlock() ? (int64_t) s.getReachableBlock()->getBlockID() : -1);
                b["succ"] = std::move(su);
                if (B->getTerminator().isValid() && B->getTerminatorStmt()) {
                    const Stmt *T = B->getTerminatorStmt();
                    json::Object t; t["k"] = T->getStmtClassName(); t["l"] = line(T->getBeginLoc());
                    if (B->getTerminator().isStmtBranch()) {
                        if (const Expr *LC = B->getLastCondition()) t["cond"] = ex(F, LC);
                        else if (auto *SW = dyn_cast<SwitchStmt>(T)) t["cond"] = ex(F, SW->getCond());
                        if (auto *BO2 = dyn_cast<BinaryOperator>(T)) { t["logic"] = BO2->getOpcodeStr().str(); t["lhs"] = ex(F, BO2->getLHS()); }
                        if (auto *SW = dyn_cast<SwitchStmt>(T)) { t["cond"] = ex(F, SW->getCond()); t["enum"] = SW->getCond()->IgnoreImpCasts()->getType().getCanonicalType().getAsString(PP); }
                    }
                    b["term"] = std::move(t);
                }
                if (const Stmt *L = B->getLabel()) {
                    if (auto *CS = dyn_cast<CaseStmt>(L)) {
                        b["case"] = ex(F, CS->getLHS());
                    } else if (isa<DefaultStmt>(L)) b["default"] = true;
                    else if (isa<CXXCatchStmt>(L)) b["catch"] = true;
                }
                blocks.push_back(std::move(b));
            }
            o["entry"] = (int64_t) G->getEntry().getBlockID();
            o["exit"] = (int64_t) G->getExit().getBlockID();
            o["blocks"] = std::move(blocks);
        }
        o["exprs"] = std::move(F.exprs);
        funcs[id] = std::move(o);
    }

    void drain() {
        while (!work.empty()) { const FunctionDecl *F = work.back(); work.pop_back(); dumpFunc(F); }
    }
};

struct V : RecursiveASTVisitor<V> {
    Dumper &D;
    V(Dumper &D) : D(D) {}
    bool TraverseDecl(Decl *X) {
        // nothing the tree wrote hangs below a system declaration
        if (X && !isa<TranslationUnitDecl>(X)) {
            auto L = X->getLocation();
            if (L.isInvalid() || D.SM.isInSystemHeader(L)) return true;
        }
        return RecursiveASTVisitor<V>::TraverseDecl(X);
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) { if (F->doesThisDeclarationHaveABody()) D.want(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.noteRecord(R); return true; }
    bool VisitEnumDecl(EnumDecl *E) { if (E->isThisDeclarationADefinition()) D.noteEnum(E); return true; }
    bool VisitVarDecl(VarDecl *X) { if (X->hasGlobalStorage() && !X->isStaticLocal() && !isa<ParmVarDecl>(X) && !X->getDeclContext()->isDependentContext()) D.noteGlobal(X); return true; }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C);
        V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        D.drain();
        json::Object top{{"funcs", std::move(D.funcs)}, {"records", std::move(D.records)}, {"enums", std::move(D.enums)}, {"globals", std::move(D.globals)}};
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        if (ec) { llvm::errs() << "cannot write " << OutPath << "\n"; return; }
        os << json::Value(std::move(top));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

} // namespace

// GCC accepts a default template argument that is repeated on the definition,
// clang does not.  The repetition carries no meaning, so the offending default
// is blanked out in an in-memory copy of the file (columns are preserved).
struct Blank { std::string file; unsigned off; };
static std::vector<Blank> Blanks;
static unsigned OtherErrors = 0;
struct Diags : DiagnosticConsumer {
    void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
        DiagnosticConsumer::HandleDiagnostic(L, I);
        if (L < DiagnosticsEngine::Error) return;
        llvm::SmallString<256> m; I.FormatDiagnostic(m);
        if (StringRef(m).contains("template parameter redefines default argument") && I.hasSourceManager()) {
            auto &SM = I.getSourceManager();
            SourceLocation X = SM.getExpansionLoc(I.getLocation());
            Blanks.push_back({SM.getFilename(X).str(), SM.getFileOffset(X)});
        } else {
            OtherErrors++;
            if (I.hasSourceManager() && I.getLocation().isValid())
                llvm::errs() << I.getSourceManager().getFilename(I.getSourceManager().getExpansionLoc(I.getLocation())) << ":"
                             << I.getSourceManager().getExpansionLineNumber(I.getLocation()) << ": ";
            llvm::errs() << m << "\n";
        }
    }
};

int main(int argc, const char **argv) {
    if (argc < 5) { llvm::errs() << "usage: hxfacts ROOT OUT SRC -- FLAGS\n"; return 2; }
    Root = argv[1]; OutPath = argv[2]; std::string src = argv[3];
    if (Root.back() != '/') Root += "/";
    std::vector<std::string> flags(argv + 5, argv + argc);
    flags.insert(flags.begin(), "-resource-dir=/usr/lib/llvm-18/lib/clang/18");
    flags.push_back("-ferror-limit=0");
    tooling::FixedCompilationDatabase DB(".", flags);
    std::map<std::string, std::string> patched;
    auto blank = [&](const Blank &b) {
        if (!patched.count(b.file)) {
            auto mb = llvm::MemoryBuffer::getFile(b.file);
            if (!mb) return false;
            patched[b.file] = (*mb)->getBuffer().str();
        }
        std::string &t = patched[b.file];
        if (b.off >= t.size()) return true;
        size_t s = b.off; while (s && t[s] != '=') s--;
        if (t[s] != '=') return true;      // blanked already
        int d = 0; size_t e = b.off;
        for (; e < t.size(); e++) {
            if (t[e] == '<' || t[e] == '(') d++;
            if (t[e] == ')') d--;
            if (t[e] == '>') { if (!d) break; d--; }
            if (t[e] == ',' && !d) break;
        }
        for (size_t k = s; k < e; k++) if (t[k] != '\n') t[k] = ' ';
        return true;
    };
    // positions found by an earlier run (HXFACTS_BLANKS: lines "offset file")
    if (const char *bf = getenv("HXFACTS_BLANKS")) {
        if (auto mb = llvm::MemoryBuffer::getFile(bf)) {
            llvm::SmallVector<StringRef, 16> lines; (*mb)->getBuffer().split(lines, '\n', -1, false);
            std::vector<Blank> bs;
            for (auto l : lines) { auto p = l.split(' '); unsigned o; if (!p.first.getAsInteger(10, o)) bs.push_back({p.second.str(), o}); }
            for (auto &b : bs) blank(b);
        }
    }
    const char *discover = getenv("HXFACTS_DISCOVER");
    std::vector<Blank> all;
    for (int pass = 0; pass < 4; pass++) {
        Blanks.clear(); OtherErrors = 0;
        tooling::ClangTool T(DB, {src});
        for (auto &p : patched) T.mapVirtualFile(p.first, p.second);
        Diags D; T.setDiagnosticConsumer(&D);
        int r = T.run(tooling::newFrontendActionFactory<Action>().get());
        if (OtherErrors && !discover) return 1;
        if (Blanks.empty() && !discover) return r;
        all.insert(all.end(), Blanks.begin(), Blanks.end());
        if (discover) break;
        for (auto &b : Blanks) if (!blank(b)) return 1;
    }
    if (discover) {
        std::error_code ec; llvm::raw_fd_ostream o(OutPath, ec);
        std::vector<std::string> order;
        for (auto &b : all) {
            blank(b);
            if (std::find(order.begin(), order.end(), b.file) == order.end()) order.push_back(b.file);
            o << b.off << " " << b.file << "\n";
        }
        if (const char *pf = getenv("HXFACTS_PATCHED"))
            for (size_t n = 0; n < order.size(); n++) { std::error_code e2; llvm::raw_fd_ostream q(std::string(pf) + "." + std::to_string(n), e2); q << patched[order[n]]; }
        return 0;
    }
    return 1;
}
