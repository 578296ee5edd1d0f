// Rules on the whole syntax tree: constructs by which an operation on const objects could write.
#include "spec.hpp"
#include "clang/AST/RecursiveASTVisitor.h"
using namespace clang;

namespace
{
struct Found { std::string rule, where, what; };
struct Scan : RecursiveASTVisitor<Scan>
{
    ASTContext& C; std::string inc; std::vector<Found> out; std::set<std::string> seen;
    bool exc = false; unsigned nExc = 0, nVars = 0, nCasts = 0, nFields = 0, nFuncs = 0;
    Scan(ASTContext& c, const std::string& repo) : C(c), inc(repo + "/include/") {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    std::string loc(SourceLocation l)
    {
        PresumedLoc p = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(l)); if (p.isInvalid()) return "";
        std::string f = p.getFilename(); size_t i = f.find(inc); if (i == std::string::npos) return "";
        return "include/" + f.substr(i + inc.size()) + ":" + std::to_string(p.getLine());
    }
    void add(const char* rule, SourceLocation l, const std::string& what)
    {
        std::string w = loc(l); if (w.empty()) return;
        if (seen.insert(std::string(rule) + w + what).second) out.push_back({rule, w, what});
    }
    bool VisitCXXTryStmt(CXXTryStmt* t) { if (inRepo(t->getBeginLoc())) { ++nExc; if (exc) add("exceptions", t->getBeginLoc(), "try block although SFL_NO_EXCEPTIONS is defined"); } return true; }
    bool VisitCXXThrowExpr(CXXThrowExpr* t) { if (inRepo(t->getBeginLoc())) { ++nExc; if (exc) add("exceptions", t->getBeginLoc(), "throw although SFL_NO_EXCEPTIONS is defined"); } return true; }
    bool inRepo(SourceLocation l) { return !loc(l).empty(); }
    bool VisitVarDecl(VarDecl* v)
    {
        if (isa<ParmVarDecl>(v) || !v->hasGlobalStorage() || !inRepo(v->getLocation())) return true;
        ++nVars;
        QualType t = v->getType().getNonReferenceType(); if (t->isArrayType()) t = C.getBaseElementType(t);
        if (!t.isConstQualified() && !v->isConstexpr() && v->getTLSKind() == VarDecl::TLS_None) statics[v->getCanonicalDecl()] = v;
        return true;
    }
    std::map<const VarDecl*, VarDecl*> statics; std::map<const VarDecl*, std::pair<unsigned, unsigned>> uses; // all uses, reads of the value
    bool VisitMemberExpr(MemberExpr* d) { if (auto* v = dyn_cast<VarDecl>(d->getMemberDecl())) if (v->hasGlobalStorage()) ++uses[v->getCanonicalDecl()].first; return true; }
    bool VisitDeclRefExpr(DeclRefExpr* d) { if (auto* v = dyn_cast<VarDecl>(d->getDecl())) if (v->hasGlobalStorage()) ++uses[v->getCanonicalDecl()].first; return true; }
    bool VisitImplicitCastExpr(ImplicitCastExpr* c)
    {
        if (c->getCastKind() == CK_LValueToRValue) if (auto* d = dyn_cast<MemberExpr>(c->getSubExpr()->IgnoreParens())) if (auto* v = dyn_cast<VarDecl>(d->getMemberDecl())) if (v->hasGlobalStorage()) ++uses[v->getCanonicalDecl()].second;
        if (c->getCastKind() == CK_LValueToRValue) if (auto* d = dyn_cast<DeclRefExpr>(c->getSubExpr()->IgnoreParens())) if (auto* v = dyn_cast<VarDecl>(d->getDecl())) if (v->hasGlobalStorage()) ++uses[v->getCanonicalDecl()].second;
        return true;
    }
    void reportStatics()
    {
        for (auto& p : statics) { auto u = uses[p.first]; if (u.first > u.second) add("shared", p.second->getLocation(), "variable " + p.second->getNameAsString() + " with static storage duration can be modified"); }
    }
    // Is the object denoted (or pointed to) by e the result of a cast that removes const?
    const Expr* rootCast(const Expr* e, bool self = false, unsigned depth = 0)
    {
        while (e && depth < 32)
        {
            ++depth;
            if (self && isa<CXXThisExpr>(e)) return e;
            if (auto* x = dyn_cast<ExplicitCastExpr>(e)) { if (!self && castDrops(x)) return x; e = x->getSubExpr(); }
            else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<UnaryOperator>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<MemberExpr>(e)) e = x->getBase();
            else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) e = x->getBase();
            else if (auto* x = dyn_cast<BinaryOperator>(e)) { if (x->isAssignmentOp() || !x->getType()->isPointerType()) return nullptr; e = x->getLHS()->getType()->isPointerType() ? x->getLHS() : x->getRHS(); }
            else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) { if (!x->getNumArgs()) return nullptr; e = x->getArg(0); }
            else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) e = x->getImplicitObjectArgument();
            else if (auto* x = dyn_cast<CXXConstructExpr>(e)) { if (x->getNumArgs() != 1) return nullptr; e = x->getArg(0); }
            else if (auto* x = dyn_cast<DeclRefExpr>(e))
            {
                auto* v = dyn_cast<VarDecl>(x->getDecl());
                if (!v || isa<ParmVarDecl>(v) || !(v->getType()->isReferenceType() || v->getType()->isPointerType()) || !v->getInit()) return nullptr;
                e = v->getInit();
            }
            else return nullptr;
        }
        return nullptr;
    }
    // a write to a plain local (a pointer or an iterator held by value) is not a write through it
    static bool localObject(const Expr* e)
    {
        e = e->IgnoreParenImpCasts();
        auto* d = dyn_cast<DeclRefExpr>(e); auto* v = d ? dyn_cast<VarDecl>(d->getDecl()) : nullptr;
        return v && !v->getType()->isReferenceType();
    }
    void written(const Expr* e, SourceLocation l, const char* how)
    {
        if (localObject(e)) return;
        if (auto* c = rootCast(e)) { (void)c; add("cast", l, std::string("object reached through a cast that removes const ") + how); }
    }
    static bool mutator(llvm::StringRef n)
    {
        for (const char* p : {"construct", "destroy", "default_construct", "value_construct", "uninitialized", "move", "copy", "fill", "swap", "iter_swap", "rotate", "sort", "stable_sort", "remove", "unique", "reverse", "deallocate", "exchange"}) if (n.startswith(p)) return true;
        return false;
    }
    static bool observer(llvm::StringRef n)
    {
        for (const char* p : {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "data", "nth", "index_of", "front", "back", "at", "find", "lower_bound", "upper_bound", "equal_range", "count", "contains", "size", "empty", "full", "capacity", "max_size", "available", "internal_storage", "ref_to_alloc", "ref_to_comp", "ref_to_equal"}) if (n == p) return true;
        return false;
    }
    // Can the member function write through its object?
    std::map<const FunctionDecl*, bool> writes;
    bool mayWrite(const CXXMethodDecl* m)
    {
        const FunctionDecl* def = nullptr; if (!m->isDefined(def) || !inRepo(def->getLocation())) return true;
        auto it = writes.find(def); if (it != writes.end()) return it->second;
        writes[def] = false;
        struct V : RecursiveASTVisitor<V>
        {
            Scan& S; bool w = false; explicit V(Scan& s) : S(s) {}
            void chk(const Expr* e) { if (!localObject(e) && S.rootCast(e, true)) w = true; }
            bool VisitBinaryOperator(BinaryOperator* b) { if (b->isAssignmentOp()) chk(b->getLHS()); return true; }
            bool VisitUnaryOperator(UnaryOperator* u) { if (u->isIncrementDecrementOp()) chk(u->getSubExpr()); return true; }
            bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr* c)
            {
                auto k = c->getOperator(); if ((k == OO_Equal || k == OO_PlusPlus || k == OO_MinusMinus || (k >= OO_PlusEqual && k <= OO_PipeEqual)) && c->getNumArgs()) chk(c->getArg(0));
                return true;
            }
            bool VisitCXXMemberCallExpr(CXXMemberCallExpr* c)
            {
                auto* m = c->getMethodDecl(); if (!m || m->isConst() || m->isStatic()) return true;
                if (m->getDeclName().isIdentifier() && observer(m->getName())) return true;
                if (S.mayWrite(m)) chk(c->getImplicitObjectArgument());
                return true;
            }
            bool VisitCallExpr(CallExpr* c)
            {
                if (isa<CXXMemberCallExpr>(c) || isa<CXXOperatorCallExpr>(c)) return true;
                auto* g = c->getDirectCallee(); if (g && g->getDeclName().isIdentifier() && mutator(g->getName())) for (auto* a : c->arguments()) if (!a->getType().isConstQualified()) chk(a);
                return true;
            }
        } v(*this);
        v.TraverseStmt(def->getBody());
        return writes[def] = v.w;
    }
    struct Body : RecursiveASTVisitor<Body>
    {
        Scan& S; const FunctionDecl* f; Body(Scan& s, const FunctionDecl* fd) : S(s), f(fd) {}
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool VisitExplicitCastExpr(ExplicitCastExpr*) { ++S.nCasts; return true; }
        bool VisitBinaryOperator(BinaryOperator* b) { if (b->isAssignmentOp()) S.written(b->getLHS(), b->getBeginLoc(), "is assigned"); return true; }
        bool VisitUnaryOperator(UnaryOperator* u) { if (u->isIncrementDecrementOp()) S.written(u->getSubExpr(), u->getBeginLoc(), "is modified"); return true; }
        bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr* c)
        {
            auto k = c->getOperator(); bool asg = k == OO_Equal || k == OO_PlusPlus || k == OO_MinusMinus || (k >= OO_PlusEqual && k <= OO_PipeEqual);
            if (asg && c->getNumArgs()) S.written(c->getArg(0), c->getBeginLoc(), "is assigned");
            return true;
        }
        bool VisitCXXMemberCallExpr(CXXMemberCallExpr* c)
        {
            auto* m = c->getMethodDecl(); if (!m || m->isConst() || m->isStatic()) return true;
            if (m->getDeclName().isIdentifier() && (observer(m->getName()) || (f->getDeclName().isIdentifier() && m->getName() == f->getName()))) return true;
            if (!m->getDeclName().isIdentifier() || !S.mayWrite(m)) return true;
            S.written(c->getImplicitObjectArgument(), c->getBeginLoc(), "is the object of a non-const member function");
            return true;
        }
        bool VisitCallExpr(CallExpr* c)
        {
            if (isa<CXXMemberCallExpr>(c) || isa<CXXOperatorCallExpr>(c)) return true;
            auto* g = c->getDirectCallee(); if (!g || !g->getDeclName().isIdentifier() || !mutator(g->getName())) return true;
            for (unsigned i = 0; i < c->getNumArgs() && i < g->getNumParams(); ++i)
            {
                QualType t = g->getParamDecl(i)->getType();
                if ((t->isPointerType() || t->isLValueReferenceType()) && !t->getPointeeType().isConstQualified())
                    if (S.rootCast(c->getArg(i))) S.add("cast", c->getBeginLoc(), "object reached through a cast that removes const is passed to " + g->getNameAsString());
            }
            return true;
        }
    };
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->doesThisDeclarationHaveABody() || !inRepo(f->getLocation())) return true;
        ++nFuncs;
        auto* m = dyn_cast<CXXMethodDecl>(f); bool reads = m ? m->isConst() && !isa<CXXConversionDecl>(m) : f->isOverloadedOperator();
        if (reads && f->getBody()) { Body b(*this, f); b.TraverseStmt(f->getBody()); }
        return true;
    }
    static bool dropsConst(QualType from, QualType to)
    {
        while (true)
        {
            QualType a, b;
            if (auto* x = from->getAs<PointerType>()) a = x->getPointeeType(); else return false;
            if (auto* y = to->getAs<PointerType>()) b = y->getPointeeType(); else return false;
            if (a.isConstQualified() && !b.isConstQualified()) return true;
            from = a; to = b;
        }
    }
    bool castDrops(const ExplicitCastExpr* e)
    {
        if (e->isTypeDependent() || e->getSubExpr()->isTypeDependent()) return false;
        QualType to = e->getTypeAsWritten(), from = e->getSubExpr()->getType();
        if (!to->isReferenceType()) return dropsConst(from, to);
        bool bad = e->getSubExpr()->isGLValue() && from.isConstQualified() && !to->getPointeeType().isConstQualified() && e->getCastKind() == CK_NoOp;
        if (isa<CXXReinterpretCastExpr>(e)) bad = from.isConstQualified() && !to->getPointeeType().isConstQualified();
        return bad;
    }
    std::set<const CXXRecordDecl*> done;
    void fields(const CXXRecordDecl* rd, const std::string& path)
    {
        rd = rd ? rd->getDefinition() : nullptr; if (!rd || !done.insert(rd->getCanonicalDecl()).second) return;
        if (!inRepo(rd->getLocation())) return;
        for (auto& b : rd->bases()) fields(b.getType()->getAsCXXRecordDecl(), path);
        for (auto* f : rd->fields())
        {
            ++nFields;
            if (f->isMutable()) add("mutable", f->getLocation(), "member " + f->getNameAsString() + " of " + path + " is mutable");
            QualType t = C.getBaseElementType(f->getType());
            if (auto* r = t->getAsCXXRecordDecl()) fields(r, path + "::" + f->getNameAsString());
        }
    }
};
}

std::string jescape(const std::string& s);
std::string runScan(ASTContext& C, const std::string& repo, bool exc)
{
    Scan S(C, repo); S.exc = exc; unsigned types = 0;
    for (auto* d : C.getTranslationUnitDecl()->decls()) if (auto* ns = dyn_cast<NamespaceDecl>(d)) if (ns->getName() == "wit")
        for (auto* x : ns->decls()) if (auto* td = dyn_cast<TypedefNameDecl>(x))
        {
            auto* rd = td->getUnderlyingType()->getAsCXXRecordDecl(); if (!rd) continue;
            ++types; S.fields(rd, rd->getNameAsString());
            for (auto* dd : rd->decls()) if (auto* n = dyn_cast<CXXRecordDecl>(dd)) S.fields(n, rd->getNameAsString() + "::" + n->getNameAsString());
            for (auto* dd : rd->decls()) if (auto* n = dyn_cast<TypedefNameDecl>(dd)) if (auto* r = n->getUnderlyingType()->getAsCXXRecordDecl()) S.fields(r, rd->getNameAsString() + "::" + n->getNameAsString());
        }
    S.TraverseDecl(C.getTranslationUnitDecl()); S.reportStatics();
    std::string J = "{\"containers\": " + std::to_string(types) + ", \"members\": " + std::to_string(S.nFields) + ", \"functions\": " + std::to_string(S.nFuncs) + ", \"try_or_throw\": " + std::to_string(S.nExc) + ", \"casts\": " + std::to_string(S.nCasts) + ", \"statics\": " + std::to_string(S.nVars) + ", \"found\": [";
    for (size_t i = 0; i < S.out.size(); ++i) J += (i ? ", " : "") + std::string("{\"rule\": ") + jescape(S.out[i].rule) + ", \"where\": " + jescape(S.out[i].where) + ", \"what\": " + jescape(S.out[i].what) + "}";
    return J + "]}\n";
}
