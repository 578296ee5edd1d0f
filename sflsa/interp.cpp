// Evaluation of expressions and statements over abstract states.
#include "interp.hpp"
#include "clang/AST/RecordLayout.h"
using namespace clang;

static const I128 TWO64 = (I128)1 << 64;

std::string Interp::qname(const FunctionDecl* fd)
{
    auto it = qnames.find(fd); if (it != qnames.end()) return it->second;
    // qualified name without template arguments
    std::string n = fd->getNameAsString();
    for (const DeclContext* dc = fd->getDeclContext(); dc; dc = dc->getParent())
    {
        if (auto* ns = dyn_cast<NamespaceDecl>(dc)) { if (ns->isInline()) continue; n = (ns->isAnonymousNamespace() ? std::string("(anonymous)") : ns->getNameAsString()) + "::" + n; }
        else if (auto* rd = dyn_cast<RecordDecl>(dc)) n = rd->getNameAsString() + "::" + n;
    }
    // strip inline namespaces used by libstdc++
    for (const char* ns : {"std::__cxx11::", "std::_V2::"}) { auto p = n.find(ns); if (p == 0) n = "std::" + n.substr(strlen(ns)); }
    qnames[fd] = n; return n;
}

// ---- scopes ---------------------------------------------------------------------
SS Interp::popScope(State s, size_t depth)
{
    SS cur; cur.push_back(std::move(s));
    while (true)
    {
        SS nx; bool again = false;
        for (auto& st : cur)
        {
            if (st.scopes.size() <= depth) { nx.push_back(std::move(st)); continue; }
            if (st.scopes.back().empty()) { st.scopes.pop_back(); again = true; nx.push_back(std::move(st)); continue; }
            again = true;
            ScopeEnt e = st.scopes.back().back(); st.scopes.back().pop_back();
            LV lv = lvOf(st, e.obj);
            for (auto& d : destroyObj(std::move(st), lv, e.ty)) { killObj(d, e.obj); nx.push_back(std::move(d)); }
        }
        cur = std::move(nx);
        if (!again) break;
    }
    return cur;
}

SS Interp::destroyObj(State s, const LV& lv, QualType t)
{
    t = t.getCanonicalType();
    SS out;
    if (lv.k == LV::Cell || isElem(t))
    {
        if (lv.k != LV::Cell) throw Unsupported{"elem object"};
        if (t->isArrayType()) { out.push_back(std::move(s)); return out; } // array member of a union: never destroyed implicitly
        return elemDestroy(std::move(s), lv, "destructor");
    }
    auto* rd = t->getAsCXXRecordDecl();
    if (!rd || rd->hasTrivialDestructor() || isTokenClass(rd)) { out.push_back(std::move(s)); return out; }
    if (rd->isUnion()) { out.push_back(std::move(s)); return out; }
    CXXDestructorDecl* dd = rd->getDestructor();
    SS cur;
    if (dd && dd->hasBody() && !dd->isDefaulted())
    {
        auto r = callFn(std::move(s), dd, &lv, {}, nullptr);
        for (auto& x : r) cur.push_back(std::move(x.s));
    }
    else cur.push_back(std::move(s));
    for (auto& st : cur)
    {
        SS c2; c2.push_back(std::move(st));
        ObjN o = c2[0].objs.at(lv.obj);
        if (o.k != ObjN::Record) throw Unsupported{"destroy of non-record"};
        // members in reverse order, then bases in reverse order
        std::vector<std::pair<int, QualType>> subs;
        int i = 0; for (auto& b : rd->bases()) subs.push_back({o.subs[i++], b.getType()});
        for (auto* f : rd->fields()) subs.push_back({o.subs[i++], f->getType()});
        for (int k = (int)subs.size() - 1; k >= 0; --k)
        {
            if (subs[k].second->isReferenceType()) continue;
            SS c3;
            for (auto& x : c2)
            {
                LV l = lvOf(x, subs[k].first);
                for (auto& y : destroyObj(std::move(x), l, subs[k].second)) c3.push_back(std::move(y));
            }
            c2 = std::move(c3);
        }
        for (auto& x : c2) out.push_back(std::move(x));
    }
    return out;
}

// ---- arithmetic -------------------------------------------------------------------
RS Interp::wrapTo(State s, Lin e, QualType t)
{
    RS out;
    if (!t->isUnsignedIntegerType() || t->isBooleanType() || C.getTypeSize(t) != 64)
    {
        if (t->isUnsignedIntegerType() && !t->isBooleanType())
        {
            unsigned w = C.getTypeSize(t); I128 M = (I128)1 << w;
            if (e.isConst()) { I128 v = e.c % M; if (v < 0) v += M; out.push_back({std::move(s), Val::integer(Lin(v))}); return out; }
        }
        else if (t->isSignedIntegerType() && C.getTypeSize(t) == 64)
        {
            // conversion of an unsigned value that does not fit
            Lin top = Lin(((I128)1 << 63) - 1) - e;
            if (s.cs.entails(top)) { out.push_back({std::move(s), Val::integer(e)}); return out; }
            std::vector<std::pair<State, bool>> sp; splitGe(std::move(s), top, sp);
            for (auto& p : sp) out.push_back({std::move(p.first), Val::integer(p.second ? e : e - Lin(TWO64))});
            return out;
        }
        out.push_back({std::move(s), Val::integer(e)}); return out;
    }
    if (e.isConst()) { I128 v = e.c % TWO64; if (v < 0) v += TWO64; out.push_back({std::move(s), Val::integer(Lin(v))}); return out; }
    Lin hi = Lin(TWO64 - 1) - e;
    std::vector<std::pair<State, bool>> sp;
    if (s.cs.entails(e)) sp.push_back({std::move(s), true});
    else splitGe(std::move(s), e, sp);
    for (auto& p : sp)
    {
        if (!p.second) { out.push_back({std::move(p.first), Val::integer(e + Lin(TWO64))}); continue; }
        if (p.first.cs.entails(hi)) { out.push_back({std::move(p.first), Val::integer(e)}); continue; }
        std::vector<std::pair<State, bool>> sp2; splitGe(std::move(p.first), hi, sp2);
        for (auto& q : sp2) out.push_back({std::move(q.first), Val::integer(q.second ? e : e - Lin(TWO64))});
    }
    return out;
}

static std::map<std::pair<Lin, i64>, int> divMemo;

RS Interp::arith(State s, const Val& a, const Val& b, BinaryOperatorKind op, QualType t)
{
    RS out;
    if (a.k == Val::Int && b.k == Val::Int)
    {
        switch (op)
        {
        case BO_Add: return wrapTo(std::move(s), a.i + b.i, t);
        case BO_Sub: return wrapTo(std::move(s), a.i - b.i, t);
        case BO_Mul:
            if (b.i.isConst()) return wrapTo(std::move(s), a.i * (i64)b.i.c, t);
            if (a.i.isConst()) return wrapTo(std::move(s), b.i * (i64)a.i.c, t);
            break;
        case BO_Div: case BO_Rem:
            if (b.i.isConst() && b.i.c > 0)
            {
                i64 c = (i64)b.i.c;
                std::vector<std::pair<State, bool>> sp; splitGe(std::move(s), a.i, sp);
                for (auto& p : sp)
                {
                    Lin x = p.second ? a.i : -a.i; Lin q;
                    if (x.isConst()) q = Lin(x.c / c);
                    else if (c == 1) q = x;
                    else
                    {
                        auto key = std::make_pair(x, c);
                        auto it = divMemo.find(key);
                        if (it == divMemo.end()) { it = divMemo.insert({key, newSym("q" + std::to_string(divMemo.size()))}).first; if (fromLoop(x)) loopSyms.insert(it->second); }
                        q = Lin::sym(it->second);
                        p.first.cs.add(x - q * c); p.first.cs.add(q * c + Lin((I128)c - 1) - x);
                        p.first.cs.add(q);
                    }
                    Lin r = x - q * c;
                    if (!p.second) { q = -q; r = -r; }
                    out.push_back({std::move(p.first), Val::integer(op == BO_Div ? q : r)});
                }
                return out;
            }
            break;
        case BO_And: case BO_Or: case BO_Xor: case BO_Shl: case BO_Shr:
            if (a.i.isConst() && b.i.isConst())
            {
                I128 x = a.i.c, y = b.i.c, r = 0;
                if (op == BO_And) r = x & y; else if (op == BO_Or) r = x | y; else if (op == BO_Xor) r = x ^ y; else if (op == BO_Shl) r = x << (int)y; else r = x >> (int)y;
                return wrapTo(std::move(s), Lin(r), t);
            }
            if (op == BO_Shr && b.i.isConst() && b.i.c < 62) return arith(std::move(s), a, Val::integer(Lin((I128)1 << (int)b.i.c)), BO_Div, t);
            if (op == BO_Shl && b.i.isConst() && b.i.c < 62) return arith(std::move(s), a, Val::integer(Lin((I128)1 << (int)b.i.c)), BO_Mul, t);
            break;
        default: break;
        }
        s.blur("unsupported arithmetic at " + here());
        out.push_back({std::move(s), Val::unk()}); return out;
    }
    if (a.k == Val::Ptr && b.k == Val::Int && (op == BO_Add || op == BO_Sub))
    {
        if (a.lv.k != LV::Cell)
        {
            if (b.i.isConst() && b.i.c == 0) { out.push_back({std::move(s), a}); return out; }
            throw Unsupported{"pointer arithmetic on object pointer"};
        }
        // a 64-bit unsigned offset wraps: values >= 2^63 act as negative
        Lin o = b.i;
        Val v = a; v.lv.off = op == BO_Add ? a.lv.off + o : a.lv.off - o;
        // pointer must stay inside its block (one past the end allowed)
        if (!s.regs.has(v.lv.reg)) throw Unsupported{"pointer into dead region"};
        if (o.isConst() && o.c == 0) { out.push_back({std::move(s), v}); return out; }
        const Region& R = s.regs.at(v.lv.reg);
        std::string nm = R.name; Lin sz = R.size;
        if (R.k == Region::Null) nm = "a null pointer";
        if (R.segN)
        {
            // the result must lie in the same segment (or at its end)
            Lin x, d; int N = R.segN; segPos(s, a.lv.reg, v.lv.off, x, d);
            require(s, d, V_OOB, "pointer arithmetic before the start of a segment of " + nm);
            if (s.cs.unsat) return out;
            require(s, Lin(N) - d, V_OOB, "pointer arithmetic beyond the end of a segment of " + nm);
            if (s.cs.unsat) return out;
            out.push_back({std::move(s), v}); return out;
        }
        std::vector<std::pair<State,bool>> sp;
        require(s, v.lv.off, V_OOB, "pointer arithmetic before the start of " + nm);
        if (s.cs.unsat) return out;
        require(s, sz - v.lv.off, V_OOB, "pointer arithmetic beyond the end of " + nm);
        if (s.cs.unsat) return out;
        out.push_back({std::move(s), v}); return out;
    }
    if (b.k == Val::Ptr && a.k == Val::Int && op == BO_Add) return arith(std::move(s), b, a, op, t);
    if (a.k == Val::Ptr && b.k == Val::Ptr && op == BO_Sub)
    {
        if (a.lv.k == LV::Cell && b.lv.k == LV::Cell)
        {
            if (a.lv.reg == b.lv.reg && s.regs.has(a.lv.reg) && s.regs.at(a.lv.reg).segN)
            {
                Lin x, y, r, q; ++nObligations; segPos(s, a.lv.reg, a.lv.off, x, r); segPos(s, a.lv.reg, b.lv.off, y, q);
                require(s, x - y, V_OOB, "difference of pointers into different segments"); if (s.cs.unsat) return out;
                require(s, y - x, V_OOB, "difference of pointers into different segments"); if (s.cs.unsat) return out;
                out.push_back({std::move(s), Val::integer(ptrDiff(s, a.lv.reg, a.lv.off, b.lv.off))}); return out;
            }
            if (a.lv.reg == b.lv.reg) { out.push_back({std::move(s), Val::integer(a.lv.off - b.lv.off)}); return out; }
            report(V_OOB, s, "difference of pointers into different blocks"); return out;
        }
        throw Unsupported{"object pointer difference"};
    }
    if (a.k == Val::Uninit || b.k == Val::Uninit) { report(V_UNINIT, s, "arithmetic on an uninitialised value"); return out; }
    s.blur("arithmetic on unknown value at " + here());
    out.push_back({std::move(s), Val::unk()});
    return out;
}

RS Interp::cmpPtr(State s, const Val& a, const Val& b, BinaryOperatorKind op)
{
    RS out;
    auto fin = [&](State&& st, bool v) { out.push_back({std::move(st), Val::integer(Lin(v ? 1 : 0))}); };
    auto lin = [&](State&& st, const Lin& x, const Lin& y)
    {
        std::vector<std::pair<State, bool>> sp;
        switch (op)
        {
        case BO_EQ: case BO_NE: splitEq(std::move(st), x - y, sp); for (auto& p : sp) fin(std::move(p.first), p.second == (op == BO_EQ)); break;
        case BO_LT: splitGe(std::move(st), y - x - Lin(1), sp); for (auto& p : sp) fin(std::move(p.first), p.second); break;
        case BO_GT: splitGe(std::move(st), x - y - Lin(1), sp); for (auto& p : sp) fin(std::move(p.first), p.second); break;
        case BO_LE: splitGe(std::move(st), y - x, sp); for (auto& p : sp) fin(std::move(p.first), p.second); break;
        case BO_GE: splitGe(std::move(st), x - y, sp); for (auto& p : sp) fin(std::move(p.first), p.second); break;
        default: throw Unsupported{"comparison"};
        }
    };
    if (a.k == Val::Int && b.k == Val::Int) { lin(std::move(s), a.i, b.i); return out; }
    if (a.k == Val::Ptr && b.k == Val::Ptr)
    {
        if (a.lv.k == LV::Cell && b.lv.k == LV::Cell)
        {
            if (a.lv.reg == b.lv.reg && op != BO_EQ && op != BO_NE && s.regs.has(a.lv.reg) && s.regs.at(a.lv.reg).segN)
            {
                Lin x, y, r, q; ++nObligations; segPos(s, a.lv.reg, a.lv.off, x, r); segPos(s, a.lv.reg, b.lv.off, y, q);
                if (totalOrder && !s.cs.entailsEq(x, y))
                {
                    std::vector<std::pair<State, bool>> sp; splitEq(std::move(s), x - y, sp);
                    for (auto& p : sp)
                    {
                        if (p.second) { Lin d = ptrDiff(p.first, a.lv.reg, a.lv.off, b.lv.off); lin(std::move(p.first), d, Lin(0)); continue; }
                        State t = p.first; t.note("the segments lie in this order in memory"); fin(std::move(t), true); fin(std::move(p.first), false);
                    }
                    return out;
                }
                require(s, x - y, V_OOB, "relational comparison of pointers into different segments"); if (s.cs.unsat) return out;
                require(s, y - x, V_OOB, "relational comparison of pointers into different segments"); if (s.cs.unsat) return out;
            }
            if (a.lv.reg == b.lv.reg && a.lv.path == b.lv.path)
            {
                if (s.regs.has(a.lv.reg) && s.regs.at(a.lv.reg).segN)
                {
                    Lin x, y, r, q; int N = s.regs.at(a.lv.reg).segN; segPos(s, a.lv.reg, a.lv.off, x, r); segPos(s, a.lv.reg, b.lv.off, y, q);
                    Lin d = ptrDiff(s, a.lv.reg, a.lv.off, b.lv.off);
                    bool same = x == y || s.cs.entailsEq(x, y) || (op != BO_EQ && op != BO_NE);
                    // two pointers to cells are equal when the cells are; the end of a segment is not the start of the next
                    if (!same && s.cs.entails(Lin(N - 1) - r) && s.cs.entails(Lin(N - 1) - q)) same = true;
                    if (same) { lin(std::move(s), d, Lin(0)); return out; }
                    std::vector<std::pair<State, bool>> sp; splitEq(std::move(s), x - y, sp);
                    for (auto& p : sp) if (p.second) lin(std::move(p.first), d, Lin(0)); else fin(std::move(p.first), op == BO_NE);
                    return out;
                }
                lin(std::move(s), a.lv.off, b.lv.off); return out;
            }
            if (op == BO_EQ || op == BO_NE) { fin(std::move(s), op == BO_NE); return out; }
            // ordering between different blocks: arbitrary total order
            State t = s; fin(std::move(t), true); fin(std::move(s), false); return out;
        }
        if (a.lv.k == LV::Obj && b.lv.k == LV::Obj && (op == BO_EQ || op == BO_NE)) { fin(std::move(s), (a.lv.obj == b.lv.obj) == (op == BO_EQ)); return out; }
        if (op == BO_EQ || op == BO_NE) { fin(std::move(s), op == BO_NE); return out; }
    }
    if (a.k == Val::Fn || b.k == Val::Fn) { fin(std::move(s), (a.fn == b.fn && a.k == b.k) == (op == BO_EQ)); return out; }
    if (a.k == Val::Nondet || b.k == Val::Nondet) { State t = s; fin(std::move(t), true); fin(std::move(s), false); return out; }
    if (a.k == Val::Uninit || b.k == Val::Uninit) { report(V_UNINIT, s, "comparison of an uninitialised value"); return out; }
    s.blur("comparison of unknown values at " + here());
    State t = s; fin(std::move(t), true); fin(std::move(s), false);
    return out;
}

void Interp::truth(State s, const Val& v, std::vector<std::pair<State, bool>>& out)
{
    if (v.k == Val::Int)
    {
        std::vector<std::pair<State, bool>> sp; splitEq(std::move(s), v.i, sp);
        for (auto& p : sp) out.push_back({std::move(p.first), !p.second});
        return;
    }
    if (v.k == Val::Ptr)
    {
        bool null = v.lv.k == LV::Cell && s.regs.at(v.lv.reg).k == Region::Null;
        out.push_back({std::move(s), !null}); return;
    }
    if (v.k == Val::Fn) { out.push_back({std::move(s), true}); return; }
    if (v.k == Val::Uninit) { report(V_UNINIT, s, "branch on an uninitialised value"); return; }
    if (v.k != Val::Nondet) s.blur("branch on unknown value at " + here());
    State t = s;
    out.push_back({std::move(t), true}); out.push_back({std::move(s), false});
}

void Interp::evalCond(State s, const Expr* e, std::vector<std::pair<State, bool>>& out)
{
    const Expr* x = e->IgnoreParens();
    if (auto* ic = dyn_cast<ImplicitCastExpr>(x)) if (ic->getCastKind() == CK_NoOp) { evalCond(std::move(s), ic->getSubExpr(), out); return; }
    if (auto* bo = dyn_cast<BinaryOperator>(x))
    {
        if (bo->getOpcode() == BO_LAnd || bo->getOpcode() == BO_LOr)
        {
            bool isAnd = bo->getOpcode() == BO_LAnd;
            std::vector<std::pair<State, bool>> l; evalCond(std::move(s), bo->getLHS(), l);
            for (auto& p : l) if (p.second == isAnd) evalCond(std::move(p.first), bo->getRHS(), out); else out.push_back(std::move(p));
            return;
        }
    }
    if (auto* uo = dyn_cast<UnaryOperator>(x)) if (uo->getOpcode() == UO_LNot)
    {
        std::vector<std::pair<State, bool>> l; evalCond(std::move(s), uo->getSubExpr(), l);
        for (auto& p : l) out.push_back({std::move(p.first), !p.second});
        return;
    }
    for (auto& r : evalRV(std::move(s), x)) truth(std::move(r.s), r.v, out);
}

// ---- expressions --------------------------------------------------------------------
RS Interp::evalRV(State s, const Expr* e)
{
    RS out;
    for (auto& r : eval(std::move(s), e))
    {
        if (r.v.k == Val::Ref) { LV l = r.v.lv; for (auto& q : loadR(std::move(r.s), l)) out.push_back(std::move(q)); }
        else out.push_back(std::move(r));
    }
    return out;
}
SS Interp::evalDiscard(State s, const Expr* e)
{
    SS out;
    if (e->isPRValue() && (e->getType()->isRecordType()))
    {
        int o = newObj(s, e->getType());
        if (s.scopes.empty()) s.scopes.push_back({});
        LV l = lvOf(s, o);
        for (auto& x : initInto(std::move(s), l, e->getType(), e))
        {
            x.scopes.back().push_back({o, e->getType(), l});
            out.push_back(std::move(x));
        }
        return out;
    }
    for (auto& r : eval(std::move(s), e)) out.push_back(std::move(r.s));
    return out;
}

static const Expr* stripInit(const Expr* e)
{
    while (true)
    {
        if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
        else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
        else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
        else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
        else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
        else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
        else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
        else break;
    }
    return e;
}

// Initialises `target` (uninitialised object or raw cell) of type t from expression e.
SS Interp::initInto(State s, const LV& target, QualType t, const Expr* e0)
{
    SS out;
    SourceLocation saved = curLoc; if (e0->getExprLoc().isValid()) curLoc = e0->getExprLoc();
    struct R_ { SourceLocation& l; SourceLocation o; ~R_() { l = o; } } r_{curLoc, saved};
    const Expr* e = stripInit(e0);
    t = t.getCanonicalType();
    bool isRec = !t->isReferenceType() && (t->isRecordType() || isElem(t));
    if (!isRec)
    {
        if (t->isReferenceType())
        {
            for (auto& r : eval(std::move(s), e))
            {
                if (target.k == LV::Obj && r.v.k == Val::Ref) { r.s.objs.mut(target.obj).ref = r.v.lv; out.push_back(std::move(r.s)); }
                else throw Unsupported{"reference initialisation"};
            }
            return out;
        }
        if (auto* il = dyn_cast<InitListExpr>(e)) { if (il->getNumInits() == 1) e = il->getInit(0); else if (il->getNumInits() == 0) { store(s, target, t->isPointerType() ? Val::ptr(0, 0) : Val::integer(0)); out.push_back(std::move(s)); return out; } }
        for (auto& r : evalRV(std::move(s), e))
        {
            Val v = r.v;
            store(r.s, target, v); out.push_back(std::move(r.s));
        }
        return out;
    }
    if (e->isGLValue())
    {
        // copy of a record glvalue without constructor call (trivial)
        for (auto& r : eval(std::move(s), e))
        {
            if (r.v.k != Val::Ref) throw Unsupported{"glvalue init"};
            if (target.k == LV::Obj && r.v.lv.k == LV::Obj) { copyObj(r.s, target.obj, r.v.lv.obj); out.push_back(std::move(r.s)); }
            else throw Unsupported{"trivial element copy"};
        }
        return out;
    }
    if (auto* ce = dyn_cast<CXXConstructExpr>(e)) return construct(std::move(s), ce, target);
    if (auto* ic = dyn_cast<CastExpr>(e))
    {
        switch (ic->getCastKind())
        {
        case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
            return initInto(std::move(s), target, t, ic->getSubExpr());
        default: throw Unsupported{std::string("record cast ") + ic->getCastKindName()};
        }
    }
    if (auto* ce = dyn_cast<CallExpr>(e))
    {
        for (auto& r : evalCall(std::move(s), ce, &target)) out.push_back(std::move(r.s));
        return out;
    }
    if (auto* co = dyn_cast<ConditionalOperator>(e))
    {
        std::vector<std::pair<State, bool>> c; evalCond(std::move(s), co->getCond(), c);
        for (auto& p : c) for (auto& x : initInto(std::move(p.first), target, t, p.second ? co->getTrueExpr() : co->getFalseExpr())) out.push_back(std::move(x));
        return out;
    }
    if (auto* le = dyn_cast<LambdaExpr>(e))
    {
        SS cur; cur.push_back(std::move(s));
        auto* cls = le->getLambdaClass();
        auto fi = cls->field_begin();
        for (auto it = le->capture_init_begin(); it != le->capture_init_end(); ++it, ++fi)
        {
            SS nx;
            for (auto& st : cur)
            {
                int fo = fieldObj(st, target.obj, *fi);
                LV l = st.objs.at(fo).k == ObjN::ElemBox ? lvOf(st, fo) : LV::ofObj(fo);
                for (auto& x : initInto(std::move(st), l, fi->getType(), *it)) nx.push_back(std::move(x));
            }
            cur = std::move(nx);
        }
        return cur;
    }
    if (auto* il = dyn_cast<InitListExpr>(e))
    {
        if (il->isTransparent()) return initInto(std::move(s), target, t, il->getInit(0));
        if (target.k != LV::Obj) throw Unsupported{"init list for element"};
        SS cur; cur.push_back(std::move(s));
        auto* rd = t->getAsCXXRecordDecl();
        unsigned i = 0;
        for (auto* f : rd->fields())
        {
            if (i >= il->getNumInits()) break;
            SS nx;
            for (auto& st : cur)
            {
                int fo = fieldObj(st, target.obj, f);
                LV l = st.objs.at(fo).k == ObjN::ElemBox ? lvOf(st, fo) : LV::ofObj(fo);
                for (auto& x : initInto(std::move(st), l, f->getType(), il->getInit(i))) nx.push_back(std::move(x));
            }
            cur = std::move(nx); ++i;
        }
        return cur;
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e))
    {
        auto* rd = t->getAsCXXRecordDecl();
        if (rd && rd->isEmpty()) { out.push_back(std::move(s)); return out; }
    }
    throw Unsupported{std::string("initialiser ") + e->getStmtClassName() + " at " + locStr(e->getExprLoc())};
}

RS Interp::eval(State s, const Expr* e)
{
    RS out;
    if (tick()) throw Unsupported{"analysis budget exhausted"};
    SourceLocation saved = curLoc; if (e->getExprLoc().isValid()) curLoc = e->getExprLoc();
    struct R_ { SourceLocation& l; SourceLocation o; ~R_() { l = o; } } r_{curLoc, saved};
    e = stripInit(e);
    // compile-time constants
    if (e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent())
    {
        auto it = constCache.find(e);
        if (it == constCache.end())
        {
            Expr::EvalResult r; bool ok = false; I128 v = 0;
            if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) { ok = true; auto i = r.Val.getInt(); v = i.isSigned() ? (I128)i.getSExtValue() : (I128)i.getZExtValue(); }
            it = constCache.insert({e, {ok, v}}).first;
        }
        if (it->second.first) { out.push_back({std::move(s), Val::integer(Lin(it->second.second))}); return out; }
    }
    switch (e->getStmtClass())
    {
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass:
        out.push_back({std::move(s), Val::ptr(0, 0)}); return out;
    case Stmt::StringLiteralClass: case Stmt::PredefinedExprClass:
        out.push_back({std::move(s), Val::unk()}); return out;
    case Stmt::CXXThisExprClass:
        if (curThis.k == LV::Obj && s.objs.has(curThis.obj))
        {
            auto& o = s.objs.at(curThis.obj);
            if (o.k == ObjN::Record && o.rd && o.rd->isLambda() && !C.hasSameUnqualifiedType(e->getType()->getPointeeType(), C.getRecordType(o.rd)))
            {
                llvm::DenseMap<const ValueDecl*, FieldDecl*> caps; FieldDecl* th = nullptr;
                o.rd->getCaptureFields(caps, th);
                if (!th) throw Unsupported{"this in a closure"};
                Val v = load(s, LV::ofObj(fieldObj(s, curThis.obj, th)));
                out.push_back({std::move(s), v}); return out;
            }
        }
        out.push_back({std::move(s), Val::ptr(curThis)}); return out;
    case Stmt::DeclRefExprClass:
    {
        auto* dr = cast<DeclRefExpr>(e); const ValueDecl* d = dr->getDecl();
        if (auto* fd = dyn_cast<FunctionDecl>(d)) { Val v; v.k = Val::Fn; v.fn = fd; out.push_back({std::move(s), v}); return out; }
        auto it = s.env.find({curFrame, d});
        if (it == s.env.end() && dr->refersToEnclosingVariableOrCapture())
        {
            // captured variable: field of the closure object
            auto& o = s.objs.at(curThis.obj);
            if (o.k == ObjN::Record && o.rd && o.rd->isLambda())
            {
                llvm::DenseMap<const ValueDecl*, FieldDecl*> caps; FieldDecl* th = nullptr;
                o.rd->getCaptureFields(caps, th);
                auto f = caps.find(d);
                if (f != caps.end())
                {
                    int fo = fieldObj(s, curThis.obj, f->second);
                    LV l = lvOf(s, fo);
                    out.push_back({std::move(s), Val::ref(l)}); return out;
                }
            }
        }
        if (it == s.env.end())
        {
            auto* vd = dyn_cast<VarDecl>(d);
            if (vd && vd->hasGlobalStorage())
            {
                // constant of class/scalar type without interesting state
                if (vd->getType()->isIntegralOrEnumerationType())
                {
                    if (auto* v = const_cast<VarDecl*>(vd)->evaluateValue()) if (v->isInt())
                    {
                        auto i = v->getInt(); int o = newObj(s, vd->getType());
                        s.objs.mut(o).v = Val::integer(Lin(i.isSigned() ? (I128)i.getSExtValue() : (I128)i.getZExtValue()));
                        out.push_back({std::move(s), Val::ref(LV::ofObj(o))}); return out;
                    }
                }
                if (auto* rd = vd->getType()->getAsCXXRecordDecl()) if (rd->isEmpty())
                { int o = newObj(s, vd->getType()); out.push_back({std::move(s), Val::ref(LV::ofObj(o))}); return out; }
            }
            throw Unsupported{"variable " + d->getNameAsString()};
        }
        LV l = it->second;
        out.push_back({std::move(s), Val::ref(l)}); return out;
    }
    case Stmt::MemberExprClass:
    {
        auto* me = cast<MemberExpr>(e);
        if (auto* md = dyn_cast<CXXMethodDecl>(me->getMemberDecl())) { Val v; v.k = Val::Fn; v.fn = md; out.push_back({std::move(s), v}); return out; }
        if (auto* vd = dyn_cast<VarDecl>(me->getMemberDecl()))
        {
            (void)vd; throw Unsupported{"static member"};
        }
        auto* f = cast<FieldDecl>(me->getMemberDecl());
        RS base = me->isArrow() ? evalRV(std::move(s), me->getBase()) : RS();
        if (!me->isArrow())
        {
            if (me->getBase()->isPRValue() && me->getBase()->getType()->isRecordType())
            {
                int o = newObj(s, me->getBase()->getType()); LV l = lvOf(s, o);
                for (auto& x : initInto(std::move(s), l, me->getBase()->getType(), me->getBase())) { x.scopes.back().push_back({o, me->getBase()->getType(), l}); base.push_back({std::move(x), Val::ref(l)}); }
            }
            else base = eval(std::move(s), me->getBase());
        }
        for (auto& r : base)
        {
            LV b = r.v.lv;
            if (r.v.k == Val::Unk) throw Unsupported{"member of unknown object"};
            if (r.v.k != Val::Ref && r.v.k != Val::Ptr) throw Unsupported{"member base"};
            if (b.k == LV::Cell)
            {
                auto* rd = dyn_cast<CXXRecordDecl>(f->getParent());
                if (rd && rd->getName() == "pair" && rd->isInStdNamespace())
                {
                    if (r.s.regs.at(b.reg).k == Region::Null) { report(V_OOB, r.s, "member access through a null pointer"); continue; }
                    LV l = b; l.path.push_back(f->getName() == "second" ? 1 : 0);
                    out.push_back({std::move(r.s), Val::ref(l)}); continue;
                }
                if (r.s.regs.at(b.reg).k == Region::Null) { report(V_OOB, r.s, "member access through a null pointer"); continue; }
                throw Unsupported{"field of element"};
            }
            if (f->isAnonymousStructOrUnion()) {}
            int fo = fieldObj(r.s, b.obj, f);
            LV l = lvOf(r.s, fo);
            out.push_back({std::move(r.s), Val::ref(l)});
        }
        return out;
    }
    case Stmt::MaterializeTemporaryExprClass:
    {
        auto* mt = cast<MaterializeTemporaryExpr>(e);
        QualType t = mt->getSubExpr()->getType();
        int o = newObj(s, t); LV l = lvOf(s, o);
        bool extended = mt->getStorageDuration() == SD_Automatic;
        if (s.scopes.size() < 2) extended = false;
        for (auto& x : initInto(std::move(s), l, t, mt->getSubExpr()))
        {
            auto& sc = extended ? x.scopes[x.scopes.size() - 2] : x.scopes.back();
            sc.push_back({o, t, l});
            out.push_back({std::move(x), Val::ref(l)});
        }
        return out;
    }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass:
    {
        auto* ce = cast<CastExpr>(e); const Expr* sub = ce->getSubExpr(); QualType t = e->getType();
        switch (ce->getCastKind())
        {
        case CK_LValueToRValue: return evalRV(std::move(s), sub);
        case CK_NoOp: case CK_BitCast:
            if (e->isPRValue() && t->isRecordType()) break;
            return eval(std::move(s), sub);
        case CK_ToVoid: { for (auto& x : evalDiscard(std::move(s), sub)) out.push_back({std::move(x), Val()}); return out; }
        case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: return eval(std::move(s), sub);
        case CK_ArrayToPointerDecay:
            for (auto& r : eval(std::move(s), sub))
            {
                if (r.v.k == Val::Ref && r.v.lv.k == LV::Cell) out.push_back({std::move(r.s), Val::ptr(r.v.lv)});
                else out.push_back({std::move(r.s), Val::unk()});
            }
            return out;
        case CK_NullToPointer: { for (auto& x : evalDiscard(std::move(s), sub)) out.push_back({std::move(x), Val::ptr(0, 0)}); return out; }
        case CK_IntegralCast:
        {
            for (auto& r : evalRV(std::move(s), sub))
            {
                if (r.v.k == Val::Int) { for (auto& w : wrapTo(std::move(r.s), r.v.i, t)) out.push_back(std::move(w)); }
                else out.push_back(std::move(r));
            }
            return out;
        }
        case CK_IntegralToBoolean: case CK_PointerToBoolean:
        {
            for (auto& r : evalRV(std::move(s), sub))
            {
                std::vector<std::pair<State, bool>> tr; truth(std::move(r.s), r.v, tr);
                for (auto& p : tr) out.push_back({std::move(p.first), Val::integer(Lin(p.second ? 1 : 0))});
            }
            return out;
        }
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived:
        {
            auto conv = [&](State& st, const LV& l) -> LV
            {
                if (l.k == LV::Cell) return l; // null or element
                if (ce->getCastKind() == CK_BaseToDerived) throw Unsupported{"downcast"};
                QualType bt = t->isPointerType() ? t->getPointeeType() : t;
                auto* b = rec(bt);
                int o = baseObj(st, l.obj, b);
                if (o < 0) throw Unsupported{"base not found"};
                return LV::ofObj(o);
            };
            for (auto& r : eval(std::move(s), sub))
            {
                if (r.v.k == Val::Ref && sub->isPRValue()) r.v = load(r.s, r.v.lv);
                if (r.v.k == Val::Ref) { LV l = conv(r.s, r.v.lv); out.push_back({std::move(r.s), Val::ref(l)}); }
                else if (r.v.k == Val::Ptr) { LV l = conv(r.s, r.v.lv); out.push_back({std::move(r.s), Val::ptr(l)}); }
                else throw Unsupported{"derived-to-base"};
            }
            return out;
        }
        case CK_UserDefinedConversion: case CK_ConstructorConversion:
            if (!t->isRecordType()) return eval(std::move(s), sub);
            break;
        default: break;
        }
        throw Unsupported{std::string("cast ") + ce->getCastKindName()};
    }
    case Stmt::UnaryOperatorClass:
    {
        auto* uo = cast<UnaryOperator>(e);
        switch (uo->getOpcode())
        {
        case UO_AddrOf:
            for (auto& r : eval(std::move(s), uo->getSubExpr()))
            {
                if (r.v.k == Val::Ref) { LV l = r.v.lv; out.push_back({std::move(r.s), Val::ptr(l)}); }
                else out.push_back(std::move(r));
            }
            return out;
        case UO_Deref:
            for (auto& r : evalRV(std::move(s), uo->getSubExpr()))
            {
                if (r.v.k == Val::Fn) { out.push_back(std::move(r)); continue; }
                if (r.v.k == Val::Uninit) { report(V_UNINIT, r.s, "dereference of an uninitialised pointer"); continue; }
                if (r.v.k != Val::Ptr) throw Unsupported{"dereference of unknown pointer"};
                if (r.v.lv.k == LV::Cell && r.v.lv.reg == 0) { report(V_OOB, r.s, "dereference of a null pointer"); continue; }
                if (r.v.lv.k == LV::Cell && !r.s.regs.has(r.v.lv.reg)) { report(V_OOB, r.s, "dereference of a pointer into released storage"); continue; }
                LV l = r.v.lv;
                out.push_back({std::move(r.s), Val::ref(l)});
            }
            return out;
        case UO_PreInc: case UO_PreDec: case UO_PostInc: case UO_PostDec:
        {
            bool inc = uo->isIncrementOp(), pre = uo->isPrefix();
            for (auto& r : eval(std::move(s), uo->getSubExpr()))
            {
                LV l = r.v.lv;
                for (auto& q : loadR(std::move(r.s), l))
                    for (auto& w : arith(std::move(q.s), q.v, Val::integer(1), inc ? BO_Add : BO_Sub, uo->getType()))
                        for (auto& x : storeR(std::move(w.s), l, w.v))
                            if (pre) out.push_back({std::move(x), Val::ref(l)}); else out.push_back({std::move(x), q.v});
            }
            return out;
        }
        case UO_Minus:
            for (auto& r : evalRV(std::move(s), uo->getSubExpr()))
                for (auto& w : arith(std::move(r.s), Val::integer(0), r.v, BO_Sub, uo->getType())) out.push_back(std::move(w));
            return out;
        case UO_Plus: case UO_Extension: return evalRV(std::move(s), uo->getSubExpr());
        case UO_LNot:
        {
            std::vector<std::pair<State, bool>> c; evalCond(std::move(s), uo->getSubExpr(), c);
            for (auto& p : c) out.push_back({std::move(p.first), Val::integer(Lin(p.second ? 0 : 1))});
            return out;
        }
        default: throw Unsupported{"unary operator"};
        }
    }
    case Stmt::BinaryOperatorClass:
    {
        auto* bo = cast<BinaryOperator>(e);
        auto op = bo->getOpcode();
        if (op == BO_Comma)
        {
            for (auto& x : evalDiscard(std::move(s), bo->getLHS())) for (auto& r : eval(std::move(x), bo->getRHS())) out.push_back(std::move(r));
            return out;
        }
        if (op == BO_LAnd || op == BO_LOr)
        {
            std::vector<std::pair<State, bool>> c; evalCond(std::move(s), bo, c);
            for (auto& p : c) out.push_back({std::move(p.first), Val::integer(Lin(p.second ? 1 : 0))});
            return out;
        }
        if (op == BO_Assign)
        {
            for (auto& r : evalRV(std::move(s), bo->getRHS()))
                for (auto& l : eval(std::move(r.s), bo->getLHS()))
                {
                    if (l.v.k != Val::Ref) throw Unsupported{"assignment target"};
                    LV t = l.v.lv; for (auto& x : storeR(std::move(l.s), t, r.v)) out.push_back({std::move(x), Val::ref(t)});
                }
            return out;
        }
        for (auto& a : evalRV(std::move(s), bo->getLHS()))
            for (auto& b : evalRV(std::move(a.s), bo->getRHS()))
            {
                RS x = bo->isComparisonOp() ? cmpPtr(std::move(b.s), a.v, b.v, op) : arith(std::move(b.s), a.v, b.v, op, bo->getType());
                for (auto& r : x) out.push_back(std::move(r));
            }
        return out;
    }
    case Stmt::CompoundAssignOperatorClass:
    {
        auto* bo = cast<CompoundAssignOperator>(e);
        auto op = BinaryOperator::getOpForCompoundAssignment(bo->getOpcode());
        for (auto& b : evalRV(std::move(s), bo->getRHS()))
            for (auto& l : eval(std::move(b.s), bo->getLHS()))
            {
                LV t = l.v.lv;
                for (auto& q : loadR(std::move(l.s), t))
                    for (auto& w : arith(std::move(q.s), q.v, b.v, op, bo->getType()))
                        for (auto& x : storeR(std::move(w.s), t, w.v)) out.push_back({std::move(x), Val::ref(t)});
            }
        return out;
    }
    case Stmt::ConditionalOperatorClass:
    {
        auto* co = cast<ConditionalOperator>(e);
        std::vector<std::pair<State, bool>> c; evalCond(std::move(s), co->getCond(), c);
        for (auto& p : c) for (auto& r : eval(std::move(p.first), p.second ? co->getTrueExpr() : co->getFalseExpr())) out.push_back(std::move(r));
        return out;
    }
    case Stmt::ArraySubscriptExprClass:
    {
        auto* as = cast<ArraySubscriptExpr>(e);
        for (auto& a : evalRV(std::move(s), as->getBase()))
            for (auto& b : evalRV(std::move(a.s), as->getIdx()))
                for (auto& r : arith(std::move(b.s), a.v, b.v, BO_Add, as->getBase()->getType()))
                {
                    if (r.v.k != Val::Ptr) throw Unsupported{"subscript"};
                    if (r.v.lv.k == LV::Cell && r.v.lv.reg == 0) { report(V_OOB, r.s, "subscript of a null pointer"); continue; }
                    LV l = r.v.lv; out.push_back({std::move(r.s), Val::ref(l)});
                }
        return out;
    }
    case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass:
        out.push_back({std::move(s), e->getType()->isPointerType() ? Val::ptr(0, 0) : Val::integer(0)}); return out;
    case Stmt::InitListExprClass:
    {
        auto* il = cast<InitListExpr>(e);
        if (!e->getType()->isRecordType() && il->getNumInits() == 1) return eval(std::move(s), il->getInit(0));
        if (!e->getType()->isRecordType() && il->getNumInits() == 0) { out.push_back({std::move(s), e->getType()->isPointerType() ? Val::ptr(0, 0) : Val::integer(0)}); return out; }
        throw Unsupported{"init list"};
    }
    case Stmt::CXXThrowExprClass:
    {
        auto* te = cast<CXXThrowExpr>(e);
        if (!te->getSubExpr())
        {
            if (s.handled.empty()) { report(V_TERMINATE, s, "rethrow without a current exception"); return out; }
            int k = s.handled.back().first;
            if (sink) sink->push_back({std::move(s), k});
            return out;
        }
        std::string n; if (auto* rd = rec(te->getSubExpr()->getType())) n = rd->getNameAsString();
        int k = n == "length_error" ? EX_LENGTH : n == "out_of_range" ? EX_RANGE : n == "bad_alloc" ? EX_ALLOC : EX_USER;
        if (k == EX_USER) s.blur("unknown exception type thrown");
        if (sink) sink->push_back({std::move(s), k});
        return out;
    }
    case Stmt::CXXNewExprClass:
    {
        auto* ne = cast<CXXNewExpr>(e);
        if (ne->getNumPlacementArgs() != 1)
        {
            report(V_ALLOC, s, "operator new used directly");
            throw Unsupported{"operator new"};
        }
        for (auto& p : evalRV(std::move(s), ne->getPlacementArg(0)))
        {
            if (p.v.k != Val::Ptr) throw Unsupported{"placement new"};
            LV l = p.v.lv;
            if (l.k == LV::Cell && l.reg == 0) { report(V_OOB, p.s, "placement new at a null pointer"); continue; }
            if (const Expr* init = ne->getInitializer())
            {
                for (auto& x : initInto(std::move(p.s), l, ne->getAllocatedType(), init)) out.push_back({std::move(x), p.v});
            }
            else if (ne->getConstructExpr())
            {
                for (auto& x : construct(std::move(p.s), ne->getConstructExpr(), l)) out.push_back({std::move(x), p.v});
            }
            else throw Unsupported{"placement new without initialiser"};
        }
        return out;
    }
    case Stmt::CXXMemberCallExprClass: case Stmt::CallExprClass: case Stmt::CXXOperatorCallExprClass:
    {
        auto* ce = cast<CallExpr>(e);
        if (e->isPRValue() && (e->getType()->isRecordType()))
        {
            int o = newObj(s, e->getType()); LV l = lvOf(s, o);
            for (auto& r : evalCall(std::move(s), ce, &l)) { r.s.scopes.back().push_back({o, e->getType(), l}); out.push_back({std::move(r.s), Val::ref(l)}); }
            return out;
        }
        return evalCall(std::move(s), ce, nullptr);
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: case Stmt::LambdaExprClass:
    {
        int o = newObj(s, e->getType()); LV l = lvOf(s, o);
        for (auto& x : initInto(std::move(s), l, e->getType(), e)) { x.scopes.back().push_back({o, e->getType(), l}); out.push_back({std::move(x), Val::ref(l)}); }
        return out;
    }
    default: break;
    }
    throw Unsupported{std::string("expression ") + e->getStmtClassName()};
}

// ---- calls ------------------------------------------------------------------------------
std::vector<Interp::SA> Interp::bindArgs(State s, const FunctionDecl* fd, const std::vector<const Expr*>& args, unsigned skip)
{
    std::vector<SA> cur; cur.push_back({std::move(s), {}, {}});
    for (unsigned i = 0; i < args.size(); ++i)
    {
        std::vector<SA> nx;
        QualType pt = i < fd->getNumParams() ? fd->getParamDecl(i)->getType() : args[i]->getType();
        for (auto& c : cur)
        {
            if (pt->isReferenceType())
            {
                for (auto& r : eval(std::move(c.s), args[i]))
                {
                    if (r.v.k == Val::Fn) { SA n{std::move(r.s), c.a, {}}; int o = newObj(n.s, C.VoidPtrTy); n.s.objs.mut(o).v = r.v; n.a.push_back(LV::ofObj(o)); nx.push_back(std::move(n)); continue; }
                    if (r.v.k != Val::Ref)
                    {
                        // scalar prvalue bound to a reference
                        SA n{std::move(r.s), c.a, {}}; int o = newObj(n.s, args[i]->getType().getNonReferenceType()); store(n.s, LV::ofObj(o), r.v); n.a.push_back(LV::ofObj(o)); nx.push_back(std::move(n)); continue;
                    }
                    SA n{std::move(r.s), c.a, {}}; n.a.push_back(r.v.lv); nx.push_back(std::move(n));
                }
            }
            else
            {
                int o = newObj(c.s, pt); LV l = lvOf(c.s, o);
                if (i >= fd->getNumParams() && !pt->isRecordType())
                {
                    for (auto& r : evalRV(std::move(c.s), args[i])) { SA n{std::move(r.s), c.a, {}}; n.s.objs.mut(o).v = r.v; n.a.push_back(l); nx.push_back(std::move(n)); }
                    continue;
                }
                for (auto& x : initInto(std::move(c.s), l, pt, args[i]))
                {
                    if (x.scopes.empty()) x.scopes.push_back({});
                    x.scopes.back().push_back({o, pt, l});
                    SA n{std::move(x), c.a, {}}; n.a.push_back(l); nx.push_back(std::move(n));
                }
            }
        }
        cur = std::move(nx);
    }
    return cur;
}

RS Interp::evalCall(State s, const CallExpr* ce, const LV* ret)
{
    RS out;
    const FunctionDecl* fd = ce->getDirectCallee();
    if (auto* pd = dyn_cast<CXXPseudoDestructorExpr>(ce->getCallee()->IgnoreParens()))
    {
        for (auto& r : eval(std::move(s), pd->getBase())) out.push_back({std::move(r.s), Val()});
        return out;
    }
    std::vector<const Expr*> args(ce->arg_begin(), ce->arg_end());
    if (!fd)
    {
        // call through a function pointer: unknown
        throw Unsupported{"indirect call"};
    }
    if (auto* mc = dyn_cast<CXXMemberCallExpr>(ce))
    {
        const Expr* obj = mc->getImplicitObjectArgument();
        RS b;
        if (obj->getType()->isPointerType()) b = evalRV(std::move(s), obj);
        else if (obj->isPRValue())
        {
            int o = newObj(s, obj->getType()); LV l = lvOf(s, o);
            for (auto& x : initInto(std::move(s), l, obj->getType(), obj)) { x.scopes.back().push_back({o, obj->getType(), l}); b.push_back({std::move(x), Val::ref(l)}); }
        }
        else b = eval(std::move(s), obj);
        for (auto& r : b)
        {
            if (r.v.k != Val::Ref && r.v.k != Val::Ptr) throw Unsupported{"call on unknown object"};
            if (r.v.lv.k == LV::Cell && r.v.lv.reg == 0) { report(V_OOB, r.s, "member call through a null pointer"); continue; }
            LV self = r.v.lv;
            if (self.k == LV::Obj && isa<CXXMethodDecl>(fd))
            {
                auto* cls = cast<CXXMethodDecl>(fd)->getParent();
                int bo = baseObj(r.s, self.obj, cls);
                if (bo >= 0) self = LV::ofObj(bo);
            }
            for (auto& x : callWithArgs(std::move(r.s), fd, &self, args, ret)) out.push_back(std::move(x));
        }
        return out;
    }
    if (auto* oc = dyn_cast<CXXOperatorCallExpr>(ce))
        if (isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic())
        {
            const Expr* obj = args[0]; args.erase(args.begin()); (void)oc;
            RS b;
            if (obj->isPRValue())
            {
                int o = newObj(s, obj->getType()); LV l = lvOf(s, o);
                for (auto& x : initInto(std::move(s), l, obj->getType(), obj)) { x.scopes.back().push_back({o, obj->getType(), l}); b.push_back({std::move(x), Val::ref(l)}); }
            }
            else b = eval(std::move(s), obj);
            for (auto& r : b)
            {
                if (r.v.k != Val::Ref) throw Unsupported{"operator on unknown object"};
                LV self = r.v.lv;
                if (self.k == LV::Obj)
                {
                    auto* cls = cast<CXXMethodDecl>(fd)->getParent();
                    int bo = baseObj(r.s, self.obj, cls);
                    if (bo >= 0) self = LV::ofObj(bo);
                }
                for (auto& x : callWithArgs(std::move(r.s), fd, &self, args, ret)) out.push_back(std::move(x));
            }
            return out;
        }
    return callWithArgs(std::move(s), fd, nullptr, args, ret);
}

RS Interp::callWithArgs(State s, const FunctionDecl* fd, const LV* self, const std::vector<const Expr*>& args, const LV* ret)
{
    RS out;
    State keep = s;
    if (intrinsic(std::move(s), fd, nullptr, self, args, ret, out)) return out;
    for (auto& b : bindArgs(std::move(keep), fd, args))
        for (auto& r : callFn(std::move(b.s), fd, self, b.a, ret)) out.push_back(std::move(r));
    return out;
}

RS Interp::callFn(State s, const FunctionDecl* fd0, const LV* self, std::vector<LV> argLVs, const LV* ret)
{
    ++nCalls;
    RS out;
    const FunctionDecl* fd = fd0;
    const FunctionDecl* def = nullptr;
    if (!fd->hasBody(def))
    {
        if (fd->getTemplateInstantiationPattern() && !fd->isDefined()) throw Unsupported{"uninstantiated function " + qname(fd)};
        throw Unsupported{"function without a body: " + qname(fd)};
    }
    fd = def;
    int depthRec = 0; for (auto* f : callStack) if (f == fd) ++depthRec;
    if (depthRec > 3 || callStack.size() > 60) throw Unsupported{"recursion in " + qname(fd)};
    return runBody(std::move(s), fd, self, argLVs, 0, ret);
}

RS Interp::runBody(State s, const FunctionDecl* fd, const LV* self, const std::vector<LV>& argLVs, int, const LV* ret)
{
    RS out;
    int frame = nextFrame++;
    int savedFrame = curFrame; LV savedThis = curThis; const LV* savedRet = retTarget; QualType savedRT = rvalTy; SourceLocation savedLoc = curLoc;
    std::vector<Thrown>* savedSink = sink; std::vector<Thrown> local; sink = &local;
    callStack.push_back(fd);
    curFrame = frame; if (self) curThis = *self; retTarget = ret; rvalTy = fd->getReturnType();
    {
        auto& sm = C.getSourceManager();
        auto l = sm.getPresumedLoc(sm.getExpansionLoc(fd->getLocation()));
        if (l.isValid() && strstr(l.getFilename(), "include/sfl/")) funcsSeen[std::string(l.getFilename()) + ":" + std::to_string(l.getLine()) + " " + fd->getNameAsString()]++;
    }
    size_t depth = s.scopes.size();
    s.scopes.push_back({});
    for (unsigned i = 0; i < fd->getNumParams() && i < argLVs.size(); ++i) s.env[{frame, fd->getParamDecl(i)}] = argLVs[i];
    auto restore = [&]() { curFrame = savedFrame; curThis = savedThis; retTarget = savedRet; rvalTy = savedRT; sink = savedSink; curLoc = savedLoc; callStack.pop_back(); };
    auto cleanEnv = [&](State& st) { auto it = st.env.lower_bound({frame, nullptr}); while (it != st.env.end() && it->first.first == frame) it = st.env.erase(it); };
    Flow f;
    try { f = exec(std::move(s), fd->getBody()); }
    catch (Unsupported&) { restore(); throw; }
    // fall off the end
    for (auto& x : f.next)
    {
        if (fd->isNoReturn() || (gNoExc && (fd->getNameAsString() == "throw_length_error" || fd->getNameAsString() == "throw_out_of_range"))) { ++nObligations; report(V_TERMINATE, x, "control reaches the end of " + qname(fd) + ", which is not to return"); continue; }
        if (!fd->getReturnType()->isVoidType() && !isa<CXXConstructorDecl>(fd) && !isa<CXXDestructorDecl>(fd)) { x.blur("missing return in " + qname(fd)); if (!ret && !fd->getReturnType()->isReferenceType()) f.ret.push_back({std::move(x), Val::unk()}); else { report(V_TERMINATE, x, "control reaches the end of non-void function " + qname(fd)); } continue; }
        f.ret.push_back({std::move(x), Val()});
    }
    for (auto& r : f.ret)
        for (auto& x : popScope(std::move(r.s), depth)) { cleanEnv(x); out.push_back({std::move(x), r.v}); }
    // exceptions
    bool ne = !mayThrow(fd);
    restore();
    for (auto& t : local)
    {
        if (ne && !gNoExc)
        {
            SourceLocation sl = curLoc; curLoc = fd->getLocation();
            report(V_NOEXCEPT, t.s, "an exception escapes the noexcept function " + qname(fd));
            curLoc = sl; continue;
        }
        try { for (auto& x : popScope(std::move(t.s), depth)) { cleanEnv(x); if (sink) sink->push_back({std::move(x), t.kind}); } }
        catch (Unsupported&) { throw; }
    }
    dedupe(out);
    if (sink && sink->size() > 8) { }
    return out;
}

SS Interp::runCtor(State s, const CXXConstructorDecl* cd0, const LV& self, std::vector<LV> argLVs)
{
    SS out;
    const FunctionDecl* def = nullptr;
    if (!cd0->hasBody(def))
    {
        // implicit trivial copy/move, defaulted default constructor
        if (cd0->isCopyOrMoveConstructor() && self.k == LV::Obj && argLVs.size() >= 1 && argLVs[0].k == LV::Obj)
        {
            int src = argLVs[0].obj; int b = baseObj(s, src, cd0->getParent()); if (b >= 0) src = b;
            copyObj(s, self.obj, src); out.push_back(std::move(s)); return out;
        }
        if (cd0->isDefaultConstructor()) { out.push_back(std::move(s)); return out; }
        throw Unsupported{"constructor without a body: " + qname(cd0)};
    }
    auto* cd = cast<CXXConstructorDecl>(def);
    ++nCalls;
    int frame = nextFrame++;
    int savedFrame = curFrame; LV savedThis = curThis; const LV* savedRet = retTarget; QualType savedRT = rvalTy; SourceLocation savedLoc = curLoc;
    std::vector<Thrown>* savedSink = sink; std::vector<Thrown> local; sink = &local;
    callStack.push_back(cd);
    if (callStack.size() > 60) { callStack.pop_back(); sink = savedSink; throw Unsupported{"deep recursion"}; }
    curFrame = frame; curThis = self; retTarget = nullptr; rvalTy = C.VoidTy;
    {
        auto& sm = C.getSourceManager();
        auto l = sm.getPresumedLoc(sm.getExpansionLoc(cd->getLocation()));
        if (l.isValid() && strstr(l.getFilename(), "include/sfl/")) funcsSeen[std::string(l.getFilename()) + ":" + std::to_string(l.getLine()) + " " + cd->getNameAsString()]++;
    }
    size_t depth = s.scopes.size();
    s.scopes.push_back({});
    for (unsigned i = 0; i < cd->getNumParams() && i < argLVs.size(); ++i) s.env[{frame, cd->getParamDecl(i)}] = argLVs[i];
    auto restore = [&]() { curFrame = savedFrame; curThis = savedThis; retTarget = savedRet; rvalTy = savedRT; sink = savedSink; curLoc = savedLoc; callStack.pop_back(); };
    auto cleanEnv = [&](State& st) { auto it = st.env.lower_bound({frame, nullptr}); while (it != st.env.end() && it->first.first == frame) it = st.env.erase(it); };
    // states with the number of completed initialisers, thrown states tagged by it
    struct Done { std::vector<std::pair<LV, QualType>> subs; bool delegated = false; };
    std::vector<std::pair<Thrown, Done>> thrown;
    SS cur; cur.push_back(std::move(s));
    Done done;
    Flow f;
    try
    {
        for (auto* in : cd->inits())
        {
            SS nx;
            if (in->getSourceLocation().isValid()) curLoc = in->getSourceLocation();
            LV target; QualType tt;
            for (auto& st : cur)
            {
                if (in->isDelegatingInitializer()) { target = self; tt = in->getTypeSourceInfo()->getType(); }
                else if (in->isBaseInitializer())
                {
                    tt = QualType(in->getBaseClass(), 0);
                    int o = baseObj(st, self.obj, rec(tt)); if (o < 0) throw Unsupported{"base init"};
                    target = LV::ofObj(o);
                }
                else if (in->isAnyMemberInitializer())
                {
                    FieldDecl* fdcl = in->getAnyMember(); tt = fdcl->getType();
                    if (self.k != LV::Obj) throw Unsupported{"member init of element"};
                    int o = fieldObj(st, self.obj, fdcl);
                    target = st.objs.at(o).k == ObjN::ElemBox ? lvOf(st, o) : LV::ofObj(o);
                }
                std::vector<Thrown> loc2; sink = &loc2;
                size_t d2 = st.scopes.size(); st.scopes.push_back({});
                for (auto& x : initInto(std::move(st), target, tt, in->getInit()))
                    for (auto& y : popScope(std::move(x), d2)) nx.push_back(std::move(y));
                sink = &local;
                for (auto& t : loc2) for (auto& y : popScope(std::move(t.s), d2)) thrown.push_back({{std::move(y), t.kind}, done});
            }
            if (in->isDelegatingInitializer()) done.delegated = true; else done.subs.push_back({target, tt});
            cur = std::move(nx);
        }
        f = execSeq(std::move(cur), cd->getBody());
    }
    catch (Unsupported&) { restore(); throw; }
    for (auto& x : f.ret) f.next.push_back(std::move(x.s));
    for (auto& x : f.next) for (auto& y : popScope(std::move(x), depth)) { cleanEnv(y); out.push_back(std::move(y)); }
    std::vector<Thrown> fin;
    for (auto& t : local) for (auto& y : popScope(std::move(t.s), depth)) thrown.push_back({{std::move(y), t.kind}, done});
    bool ne = !mayThrow(cd);
    for (auto& td : thrown)
    {
        SS c2; c2.push_back(std::move(td.first.s));
        if (td.second.delegated)
        {
            SS c3; for (auto& x : c2) for (auto& y : destroyObj(std::move(x), self, C.getRecordType(cd->getParent()))) c3.push_back(std::move(y)); c2 = std::move(c3);
        }
        else
            for (int k = (int)td.second.subs.size() - 1; k >= 0; --k)
            {
                auto& sb = td.second.subs[k];
                if (sb.second->isReferenceType()) continue;
                SS c3; for (auto& x : c2) for (auto& y : destroyObj(std::move(x), sb.first, sb.second)) c3.push_back(std::move(y)); c2 = std::move(c3);
            }
        for (auto& x : c2) for (auto& y : popScope(std::move(x), depth)) { cleanEnv(y); fin.push_back({std::move(y), td.first.kind}); }
    }
    restore();
    for (auto& t : fin)
    {
        if (ne && !gNoExc) { SourceLocation sl = curLoc; curLoc = cd->getLocation(); report(V_NOEXCEPT, t.s, "an exception escapes the noexcept constructor " + qname(cd)); curLoc = sl; continue; }
        if (sink) sink->push_back(std::move(t));
    }
    dedupe(out);
    return out;
}

SS Interp::construct(State s, const CXXConstructExpr* ce, const LV& target)
{
    SS out;
    const CXXConstructorDecl* cd = ce->getConstructor();
    QualType t = ce->getType().getCanonicalType();
    std::vector<const Expr*> args(ce->arg_begin(), ce->arg_end());
    auto* rd = cd->getParent();
    if (isElem(t))
    {
        if (t->isArrayType()) { out.push_back(std::move(s)); return out; }
        std::vector<bool> rval; std::vector<QualType> tys;
        for (unsigned i = 0; i < args.size(); ++i)
        {
            QualType pt = i < cd->getNumParams() ? cd->getParamDecl(i)->getType() : args[i]->getType();
            rval.push_back(pt->isRValueReferenceType() || !pt->isReferenceType()); tys.push_back(args[i]->getType().getNonReferenceType());
        }
        for (auto& b : bindArgs(std::move(s), cd, args))
            for (auto& x : constructElemFrom(std::move(b.s), target, t, b.a, rval, tys, cd)) out.push_back(std::move(x));
        return out;
    }
    if (target.k == LV::Obj && isTokenClass(rd))
    {
        if (args.empty() || isa<CXXDefaultArgExpr>(args[0]))
        {
            static int defTok = -1; if (defTok < 0) { defTok = 1000000; tokNames[defTok] = "default"; }
            if (mayThrow(cd)) throwUser(s, EX_USER, "default construction of allocator/function object");
            store(s, target, Val::token(defTok)); out.push_back(std::move(s)); return out;
        }
        for (auto& r : eval(std::move(s), args[0]))
        {
            if (r.v.k != Val::Ref || r.v.lv.k != LV::Obj || r.s.objs.at(r.v.lv.obj).k != ObjN::Token) throw Unsupported{"token construction"};
            if (mayThrow(cd)) throwUser(r.s, EX_USER, "copy of allocator/function object");
            Val v = load(r.s, r.v.lv);
            store(r.s, target, v); out.push_back(std::move(r.s));
        }
        return out;
    }
    if (rd->getName() == "tuple" && rd->isInStdNamespace() && target.k == LV::Obj && !cd->isCopyOrMoveConstructor())
    {
        std::vector<int> leafs = tupleLeafs(s, target.obj);
        bool refs = !leafs.empty() && leafs.size() == args.size(); for (int l : leafs) if (s.objs.at(l).k != ObjN::RefK) refs = false;
        if (refs)
        {
            for (auto& b : bindArgs(std::move(s), cd, args))
            {
                for (size_t i = 0; i < leafs.size(); ++i) b.s.objs.mut(leafs[i]).ref = b.a[i];
                out.push_back(std::move(b.s));
            }
            return out;
        }
        if (leafs.empty() && args.empty()) { out.push_back(std::move(s)); return out; }
    }
    if (rd->isLambda() && cd->isCopyOrMoveConstructor())
    {
        for (auto& r : eval(std::move(s), args[0])) { copyObj(r.s, target.obj, r.v.lv.obj); out.push_back(std::move(r.s)); }
        return out;
    }
    if (cd->isTrivial() && cd->isDefaultConstructor())
    {
        if (ce->requiresZeroInitialization()) { std::function<void(int)> z = [&](int o) { auto& m = s.objs.mut(o); if (m.k == ObjN::Scalar) m.v = m.ty->isPointerType() ? Val::ptr(0, 0) : Val::integer(0); std::vector<int> subs = m.subs; for (int x : subs) z(x); }; z(target.obj); }
        out.push_back(std::move(s)); return out;
    }
    for (auto& b : bindArgs(std::move(s), cd, args))
        for (auto& x : runCtor(std::move(b.s), cd, target, b.a)) out.push_back(std::move(x));
    return out;
}

// ---- statements -----------------------------------------------------------------------
Flow Interp::execSeq(SS in, const Stmt* st)
{
    Flow f;
    for (auto& s : in)
    {
        Flow g = exec(std::move(s), st);
        auto mv = [](auto& a, auto& b) { for (auto& x : b) a.push_back(std::move(x)); };
        mv(f.next, g.next); mv(f.brk, g.brk); mv(f.cont, g.cont); mv(f.ret, g.ret);
    }
    return f;
}

Flow Interp::exec(State s, const Stmt* st)
{
    Flow f;
    if (!st) { f.next.push_back(std::move(s)); return f; }
    if (s.cs.unsat) return f;
    SourceLocation saved = curLoc; if (st->getBeginLoc().isValid()) curLoc = st->getBeginLoc();
    struct R_ { SourceLocation& l; SourceLocation o; ~R_() { l = o; } } r_{curLoc, saved};
    auto mv = [](auto& a, auto& b) { for (auto& x : b) a.push_back(std::move(x)); };
    // wraps evaluation of a full expression: temporaries die at its end, also on exceptions
    auto full = [&](State s0, std::function<void(State)> body)
    {
        s0.scopes.push_back({});
        body(std::move(s0));
    };
    switch (st->getStmtClass())
    {
    case Stmt::CompoundStmtClass:
    {
        size_t depth = s.scopes.size();
        s.scopes.push_back({});
        SS cur; cur.push_back(std::move(s));
        for (auto* c : cast<CompoundStmt>(st)->body())
        {
            SS nx;
            for (auto& x : cur) { Flow g = exec(std::move(x), c); mv(nx, g.next); mv(f.brk, g.brk); mv(f.cont, g.cont); mv(f.ret, g.ret); }
            cur = std::move(nx);
            dedupe(cur);
            if (cur.size() > 600) throw Unsupported{"too many abstract states"};
        }
        for (auto& x : cur) for (auto& y : popScope(std::move(x), depth)) f.next.push_back(std::move(y));
        // names of this block are gone
        for (auto* c : cast<CompoundStmt>(st)->body()) if (auto* ds = dyn_cast<DeclStmt>(c)) for (auto* d : ds->decls()) if (auto* vd = dyn_cast<VarDecl>(d))
            for (auto* v : {&f.next, &f.brk, &f.cont}) for (auto& x : *v) x.env.erase({curFrame, vd});
        return f;
    }
    case Stmt::NullStmtClass: f.next.push_back(std::move(s)); return f;
    case Stmt::DeclStmtClass:
    {
        SS cur; cur.push_back(std::move(s));
        for (auto* d : cast<DeclStmt>(st)->decls())
        {
            auto* vd = dyn_cast<VarDecl>(d); if (!vd) continue;
            if (vd->isStaticLocal()) throw Unsupported{"static local"};
            SS nx;
            for (auto& x : cur)
            {
                if (vd->getType()->isReferenceType())
                {
                    size_t depth = x.scopes.size();
                    x.scopes.push_back({});
                    for (auto& r : eval(std::move(x), vd->getInit()))
                    {
                        if (r.v.k != Val::Ref)
                        {
                            int o = newObj(r.s, vd->getType().getNonReferenceType()); store(r.s, LV::ofObj(o), r.v);
                            r.s.env[{curFrame, vd}] = LV::ofObj(o);
                        }
                        else r.s.env[{curFrame, vd}] = r.v.lv;
                        for (auto& y : popScope(std::move(r.s), depth)) nx.push_back(std::move(y));
                    }
                }
                else
                {
                    int o = newObj(x, vd->getType()); LV l = lvOf(x, o);
                    if (x.objs.at(o).k == ObjN::ElemBox) { auto& R = x.regs.mut(x.objs.at(o).reg); R.k = Region::Local; R.name = "local " + vd->getNameAsString(); }
                    x.env[{curFrame, vd}] = l;
                    if (!vd->getInit()) { x.scopes.back().push_back({o, vd->getType(), l}); nx.push_back(std::move(x)); continue; }
                    size_t depth = x.scopes.size();
                    x.scopes.push_back({});
                    for (auto& y : initInto(std::move(x), l, vd->getType(), vd->getInit()))
                        for (auto& z : popScope(std::move(y), depth)) { z.scopes.back().push_back({o, vd->getType(), l}); nx.push_back(std::move(z)); }
                }
            }
            cur = std::move(nx);
        }
        f.next = std::move(cur); return f;
    }
    case Stmt::IfStmtClass:
    {
        auto* is = cast<IfStmt>(st);
        size_t depth = s.scopes.size();
        s.scopes.push_back({});
        SS init; 
        if (is->getInit()) { Flow g = exec(std::move(s), is->getInit()); init = std::move(g.next); } else init.push_back(std::move(s));
        if (auto* cv = is->getConditionVariableDeclStmt()) { SS i2; for (auto& x : init) { Flow g = exec(std::move(x), cv); mv(i2, g.next); } init = std::move(i2); }
        for (auto& x : init)
        {
            size_t d2 = x.scopes.size(); x.scopes.push_back({});
            std::vector<std::pair<State, bool>> c;
            evalCond(std::move(x), is->getCond(), c);
            for (auto& p : c)
            {
                for (auto& y : popScope(std::move(p.first), d2))
                {
                    const Stmt* b = p.second ? is->getThen() : is->getElse();
                    Flow g = exec(std::move(y), b);
                    for (auto& z : g.next) for (auto& w : popScope(std::move(z), depth)) f.next.push_back(std::move(w));
                    mv(f.brk, g.brk); mv(f.cont, g.cont); mv(f.ret, g.ret);
                }
            }
        }
        return f;
    }
    case Stmt::ReturnStmtClass:
    {
        auto* rs = cast<ReturnStmt>(st);
        const Expr* e = rs->getRetValue();
        size_t depth = s.scopes.size();
        s.scopes.push_back({});
        if (!e) { for (auto& y : popScope(std::move(s), depth)) f.ret.push_back({std::move(y), Val()}); return f; }
        QualType t = rvalTy;
        if (t->isVoidType()) { for (auto& x : evalDiscard(std::move(s), e)) for (auto& y : popScope(std::move(x), depth)) f.ret.push_back({std::move(y), Val()}); return f; }
        if (t->isReferenceType())
        {
            for (auto& r : eval(std::move(s), e)) { Val v = r.v; for (auto& y : popScope(std::move(r.s), depth)) f.ret.push_back({std::move(y), v}); }
            return f;
        }
        if (t->isRecordType())
        {
            LV target;
            if (retTarget) target = *retTarget; else { int o = newObj(s, t); target = lvOf(s, o); }
            for (auto& x : initInto(std::move(s), target, t, e)) for (auto& y : popScope(std::move(x), depth)) f.ret.push_back({std::move(y), Val::ref(target)});
            return f;
        }
        for (auto& r : evalRV(std::move(s), e)) { Val v = r.v; for (auto& y : popScope(std::move(r.s), depth)) f.ret.push_back({std::move(y), v}); }
        return f;
    }
    case Stmt::BreakStmtClass: f.brk.push_back(std::move(s)); return f;
    case Stmt::ContinueStmtClass: f.cont.push_back(std::move(s)); return f;
    case Stmt::WhileStmtClass:
    {
        auto* w = cast<WhileStmt>(st);
        return execLoop(std::move(s), w->getCond(), nullptr, w->getBody(), false, nullptr);
    }
    case Stmt::DoStmtClass:
    {
        auto* w = cast<DoStmt>(st);
        return execLoop(std::move(s), w->getCond(), nullptr, w->getBody(), true, nullptr);
    }
    case Stmt::ForStmtClass:
    {
        auto* w = cast<ForStmt>(st);
        size_t depth = s.scopes.size(); s.scopes.push_back({});
        Flow g0 = exec(std::move(s), w->getInit());
        for (auto& x : g0.next)
        {
            Flow g = execLoop(std::move(x), w->getCond(), w->getInc(), w->getBody(), false, nullptr);
            for (auto& z : g.next) for (auto& y : popScope(std::move(z), depth)) f.next.push_back(std::move(y));
            mv(f.ret, g.ret);
        }
        return f;
    }
    case Stmt::CXXForRangeStmtClass:
    {
        auto* w = cast<CXXForRangeStmt>(st);
        size_t depth = s.scopes.size(); s.scopes.push_back({});
        SS cur; cur.push_back(std::move(s));
        for (const Stmt* d : {(const Stmt*)w->getInit(), (const Stmt*)w->getRangeStmt(), (const Stmt*)w->getBeginStmt(), (const Stmt*)w->getEndStmt()})
        { if (!d) continue; SS nx; for (auto& x : cur) { Flow g = exec(std::move(x), d); mv(nx, g.next); } cur = std::move(nx); }
        // body = loop variable declaration + body
        for (auto& x : cur)
        {
            Stmt* parts[2] = {const_cast<DeclStmt*>(w->getLoopVarStmt()), const_cast<Stmt*>(w->getBody())};
            auto* body = CompoundStmt::Create(C, llvm::ArrayRef<Stmt*>(parts, 2), FPOptionsOverride(), w->getBeginLoc(), w->getEndLoc());
            Flow g = execLoop(std::move(x), w->getCond(), w->getInc(), body, false, nullptr);
            for (auto& z : g.next) for (auto& y : popScope(std::move(z), depth)) f.next.push_back(std::move(y));
            mv(f.ret, g.ret);
        }
        return f;
    }
    case Stmt::CXXTryStmtClass:
    {
        auto* ts = cast<CXXTryStmt>(st);
        size_t depth = s.scopes.size(); size_t hd = s.handled.size();
        std::vector<Thrown> local; auto* saveSink = sink; sink = &local;
        Flow g;
        try { g = exec(std::move(s), ts->getTryBlock()); } catch (Unsupported&) { sink = saveSink; throw; }
        sink = saveSink;
        mv(f.next, g.next); mv(f.brk, g.brk); mv(f.cont, g.cont); mv(f.ret, g.ret);
        for (auto& t : local)
            for (auto& x : popScope(std::move(t.s), depth))
            {
                x.handled.resize(hd); x.handled.push_back({t.kind, 0});
                const CXXCatchStmt* h = nullptr;
                for (unsigned i = 0; i < ts->getNumHandlers(); ++i)
                {
                    auto* c = ts->getHandler(i);
                    if (!c->getExceptionDecl()) { h = c; break; }
                    // typed handlers: may or may not match; treat std::exception& etc. as not matching user exceptions
                    throw Unsupported{"typed catch"};
                }
                if (!h) { x.handled.pop_back(); if (sink) sink->push_back({std::move(x), t.kind}); continue; }
                std::vector<Thrown> l2; sink = &l2;
                Flow k;
                try { k = exec(std::move(x), h->getHandlerBlock()); } catch (Unsupported&) { sink = saveSink; throw; }
                sink = saveSink;
                for (auto& y : l2) { y.s.handled.resize(hd); if (sink) sink->push_back(std::move(y)); }
                for (auto& y : k.next) { y.handled.resize(hd); f.next.push_back(std::move(y)); }
                for (auto& y : k.brk) { y.handled.resize(hd); f.brk.push_back(std::move(y)); }
                for (auto& y : k.cont) { y.handled.resize(hd); f.cont.push_back(std::move(y)); }
                for (auto& y : k.ret) { y.s.handled.resize(hd); f.ret.push_back(std::move(y)); }
            }
        return f;
    }
    default: break;
    }
    if (auto* e = dyn_cast<Expr>(st))
    {
        size_t depth = s.scopes.size(); s.scopes.push_back({});
        for (auto& x : evalDiscard(std::move(s), e)) for (auto& y : popScope(std::move(x), depth)) f.next.push_back(std::move(y));
        return f;
    }
    (void)full;
    throw Unsupported{std::string("statement ") + st->getStmtClassName()};
}
