// Contracts: allocator traits, element operations, standard algorithms.
#include "interp.hpp"
using namespace clang;

static void collectTuple(const State& s, int obj, std::vector<LV>& refs, std::vector<bool>& rv, std::vector<QualType>& tys)
{
    auto& o = s.objs.at(obj);
    if (o.k == ObjN::RefK) { refs.push_back(o.ref); rv.push_back(o.ty->isRValueReferenceType()); tys.push_back(o.ty.getNonReferenceType()); return; }
    if (o.k == ObjN::ElemBox) { refs.push_back(LV::cell(o.reg, 0)); rv.push_back(true); tys.push_back(o.ty); return; }
    if (o.k == ObjN::Record)
    {
        std::vector<int> heads, tails;
        for (int i = 0; i < o.nbases; ++i) { auto& b = s.objs.at(o.subs[i]); if (b.rd && b.rd->getName() == "_Head_base") heads.push_back(o.subs[i]); else tails.push_back(o.subs[i]); }
        for (int h : heads) { auto& b = s.objs.at(h); if (b.rd->isEmpty()) continue; for (int x : b.subs) collectTuple(s, x, refs, rv, tys); }
        for (int t : tails) collectTuple(s, t, refs, rv, tys);
        return;
    }
    throw Unsupported{"tuple element"};
}

std::vector<int> Interp::tupleLeafs(const State& s, int obj) const
{
    std::vector<int> leafs;
    std::function<void(int)> go = [&](int o)
    {
        auto& n = s.objs.at(o);
        if (n.k != ObjN::Record) { leafs.push_back(o); return; }
        std::vector<int> heads, tails; for (int i = 0; i < n.nbases; ++i) { auto& q = s.objs.at(n.subs[i]); (q.rd && q.rd->getName() == "_Head_base" ? heads : tails).push_back(n.subs[i]); }
        for (int i = n.nbases; i < (int)n.subs.size(); ++i) go(n.subs[i]);
        for (int h : heads) go(h);
        for (int t : tails) go(t);
    };
    go(obj);
    return leafs;
}

std::vector<Interp::TermArgs> Interp::argTerms(State s, const std::vector<LV>& lvs, const std::vector<bool>& rval, const std::vector<QualType>& tys)
{
    std::vector<TermArgs> cur; cur.push_back({std::move(s), {}});
    for (size_t i = 0; i < lvs.size(); ++i)
    {
        std::vector<TermArgs> nx;
        for (auto& c : cur)
        {
            if (lvs[i].k == LV::Cell)
            {
                for (auto& r : readTerm(std::move(c.s), lvs[i], "argument"))
                {
                    auto t = c.t; t.push_back(r.t);
                    nx.push_back({std::move(r.s), t});
                }
            }
            else
            {
                auto t = c.t;
                auto& o = c.s.objs.at(lvs[i].obj);
                if (o.k == ObjN::Record || o.k == ObjN::Scalar) t.push_back(tExt(1000000 + lvs[i].obj));
                else throw Unsupported{"constructor argument"};
                nx.push_back({std::move(c.s), t});
            }
        }
        cur = std::move(nx);
    }
    return cur;
}

SS Interp::constructElemFrom(State s, const LV& dst, QualType ety, const std::vector<LV>& args0, const std::vector<bool>& rval0, const std::vector<QualType>& tys0, const CXXConstructorDecl* cd)
{
    SS out;
    ety = ety.getNonReferenceType().getCanonicalType();
    auto same = [&](QualType a, QualType b) { return C.hasSameUnqualifiedType(a.getNonReferenceType(), b.getNonReferenceType()); };
    std::vector<LV> args = args0; std::vector<bool> rval = rval0; std::vector<QualType> tys = tys0;
    // inner pieces: how each component is made
    auto component = [&](QualType t, const std::vector<TermP>& ts, const std::vector<bool>& rv, const std::vector<QualType>& at) -> TermP
    {
        if (ts.empty()) return mkTerm(Term::Default);
        if (ts.size() == 1 && same(t, at[0])) return ts[0];
        int mask = 0; for (size_t i = 0; i < rv.size(); ++i) if (rv[i]) mask |= 1 << i;
        return mkTerm(Term::Ctor, mask, 0, ts);
    };
    auto compThrows = [&](QualType t, const std::vector<bool>& rv, const std::vector<QualType>& at) -> bool
    {
        if (at.empty()) return typeOpThrows(t, 0);
        if (at.size() == 1 && same(t, at[0])) return typeOpThrows(t, rv[0] && !at[0].isConstQualified() ? 2 : 1);
        return true;
    };
    auto finish = [&](std::vector<TermArgs> ta, std::function<TermP(const std::vector<TermP>&)> mk, bool thr)
    {
        for (auto& a : ta)
        {
            TermP t = mk(a.t);
            SS st;
            st = elemConstruct(std::move(a.s), dst, t, thr, "construct");
            for (size_t i = 0; i < args.size(); ++i)
            {
                if (!rval[i] || args[i].k != LV::Cell || tys[i].isConstQualified()) continue;
                SS nx; for (auto& x : st) for (auto& y : markMoved(std::move(x), args[i])) nx.push_back(std::move(y));
                st = std::move(nx);
            }
            for (auto& x : st) { if (args.size() == 1 && args[0].k == LV::Cell) x.eff |= (rval[0] ? EF_MOVE : EF_COPY); out.push_back(std::move(x)); }
        }
    };
    auto* rd = rec(ety);
    bool isPair = rd && rd->getName() == "pair";
    if (isPair && args.size() != 1 && args.size() != 0)
    {
        auto* sp = cast<ClassTemplateSpecializationDecl>(rd);
        QualType a = sp->getTemplateArgs()[0].getAsType(), b = sp->getTemplateArgs()[1].getAsType();
        if (args.size() == 3)
        {
            std::vector<LV> r1, r2; std::vector<bool> v1, v2; std::vector<QualType> t1, t2;
            collectTuple(s, args[1].obj, r1, v1, t1); collectTuple(s, args[2].obj, r2, v2, t2);
            size_t n1 = r1.size();
            args = r1; args.insert(args.end(), r2.begin(), r2.end());
            rval = v1; rval.insert(rval.end(), v2.begin(), v2.end());
            tys = t1; tys.insert(tys.end(), t2.begin(), t2.end());
            bool thr = compThrows(a, v1, t1) || compThrows(b, v2, t2);
            auto ta = argTerms(std::move(s), args, rval, tys);
            finish(std::move(ta), [&](const std::vector<TermP>& ts)
            {
                std::vector<TermP> x(ts.begin(), ts.begin() + n1), y(ts.begin() + n1, ts.end());
                return tPair(component(a, x, v1, t1), component(b, y, v2, t2));
            }, thr);
            return out;
        }
        if (args.size() == 2)
        {
            bool thr = compThrows(a, {rval[0]}, {tys[0]}) || compThrows(b, {rval[1]}, {tys[1]});
            auto ta = argTerms(std::move(s), args, rval, tys);
            finish(std::move(ta), [&](const std::vector<TermP>& ts) { return tPair(component(a, {ts[0]}, {rval[0]}, {tys[0]}), component(b, {ts[1]}, {rval[1]}, {tys[1]})); }, thr);
            return out;
        }
        throw Unsupported{"pair constructor"};
    }
    bool thr = args.empty() ? typeOpThrows(ety, 0) : compThrows(ety, rval, tys);
    if (isPair && args.size() == 1 && !same(ety, tys[0]))
    {
        // converting pair construction
        auto* srd = rec(tys[0]);
        if (srd && srd->getName() == "pair")
        {
            auto ta = argTerms(std::move(s), args, rval, tys);
            if (isElem(tys[0])) { finish(std::move(ta), [&](const std::vector<TermP>& ts) { return ts[0]; }, true); return out; }
        }
        throw Unsupported{"pair conversion"};
    }
    (void)cd;
    auto ta = argTerms(std::move(s), args, rval, tys);
    finish(std::move(ta), [&](const std::vector<TermP>& ts) { return component(ety, ts, rval, tys); }, thr);
    return out;
}

// underlying pointer leaf of an iterator object
static int pointerLeaf(const State& s, int obj, bool& isMove, bool& isRev)
{
    auto& o = s.objs.at(obj);
    if (o.k == ObjN::Scalar) return obj;
    if (o.k != ObjN::Record) return -1;
    if (o.rd->getName() == "move_iterator") isMove = true;
    if (o.rd->getName() == "reverse_iterator") isRev = true;
    int found = -1;
    for (int x : o.subs) { int y = pointerLeaf(s, x, isMove, isRev); if (y >= 0) { if (found >= 0) return -1; found = y; } }
    return found;
}

struct ItInfo { LV obj; int leaf = -1, seg = -1; bool move = false, rev = false; Val p; };

static bool iterInfo(Interp& I, State& s, const LV& a, ItInfo& it)
{
    it.obj = a;
    if (a.k != LV::Obj) return false;
    it.leaf = pointerLeaf(s, a.obj, it.move, it.rev);
    it.seg = I.segItObj(s, a.obj);
    if (it.seg >= 0) return !it.rev && I.segItGet(s, it.seg, it.p) && it.p.isPtrCell();
    if (it.leaf < 0 || it.rev) return false;
    it.p = I.load(s, LV::ofObj(it.leaf));
    return it.p.isPtrCell();
}

// Extract pieces [i,j) of a region as a list with coordinates relative to lo.
// stores the position an algorithm returns
static void putIter(Interp& I, State& s, int obj, const Val& v)
{
    int si = I.segItObj(s, obj); if (si >= 0) { I.segItSet(s, si, v); return; }
    bool m1, m2; int leaf = pointerLeaf(s, obj, m1, m2); I.store(s, LV::ofObj(leaf), v);
}

static std::vector<Seg> extract(const Region& R, int i, int j, const Lin& lo)
{
    std::vector<Seg> v;
    for (int x = i; x < j; ++x) { Seg g = R.segs[x]; if (g.c.k == Content::Seq) g.c.shift = g.c.shift + lo; g.lo = g.lo - lo; v.push_back(g); }
    return v;
}

static void replaceRange(Region& R, int i, int j, std::vector<Seg> pieces, const Lin& lo)
{
    for (auto& g : pieces) { if (g.c.k == Content::Seq) g.c.shift = g.c.shift - lo; g.lo = g.lo + lo; }
    R.segs.erase(R.segs.begin() + i, R.segs.begin() + j);
    R.segs.insert(R.segs.begin() + i, pieces.begin(), pieces.end());
    if (R.segs.empty()) { Seg g; R.segs.push_back(g); }
}

// length of a range; the ends of a range of pointers into segments belong to the same segment
bool Interp::segLen(State& s, const Val& f, const Val& l, Lin& n)
{
    n = ptrDiff(s, f.lv.reg, l.lv.off, f.lv.off);
    if (!s.regs.has(f.lv.reg) || !s.regs.at(f.lv.reg).segN || f.lv.reg != l.lv.reg) { n = l.lv.off - f.lv.off; return true; }
    Lin a, b, r; segPos(s, f.lv.reg, f.lv.off, a, r); segPos(s, l.lv.reg, l.lv.off, b, r);
    if (a == b) return true;
    require(s, a - b, V_OOB, "range whose ends lie in different segments"); if (s.cs.unsat) return false;
    require(s, b - a, V_OOB, "range whose ends lie in different segments"); return !s.cs.unsat;
}

// [f,l) -> d  (or d_last when backward). Returns the resulting destination iterator position.
RS Interp::algCopy(State s, const Val& f, const Val& l, const Val& d0, bool move, bool backward, QualType ety)
{
    RS out;
    auto seg = [&](const Val& v) { return v.isPtrCell() && s.regs.has(v.lv.reg) && s.regs.at(v.lv.reg).segN; };
    auto tab = [&](const Val& v) { return v.isPtrCell() && s.regs.has(v.lv.reg) && s.regs.at(v.lv.reg).table; };
    if (tab(f) || tab(d0))
    {
        if (!tab(f) || !tab(d0)) throw Unsupported{"copy of table entries"};
        return algCopyIn(std::move(s), f, l, d0, false, backward, ety);
    }
    if (!seg(f) && !seg(d0)) return algCopyIn(std::move(s), f, l, d0, move, backward, ety);
    if (!f.isPtrCell() || !l.isPtrCell() || !d0.isPtrCell() || f.lv.reg != l.lv.reg) return algCopyIn(std::move(s), f, l, d0, move, backward, ety);
    Lin n; if (!segLen(s, f, l, n)) return {};
    std::vector<std::pair<State, bool>> sp; splitEq(std::move(s), n, sp);
    for (auto& p : sp)
    {
        State& st = p.first;
        if (p.second) { out.push_back({std::move(st), d0}); continue; }
        Val F = f, L = l, D = d0; Lin x, r; bool ok = true;
        auto in = [&](const Val& b, const Lin& len)  // [b, b+len) lies in one segment
        {
            if (!st.regs.has(b.lv.reg)) { deadRegion(st, b.lv.reg, "range algorithm"); ok = false; return; }
            int N = st.regs.at(b.lv.reg).segN; if (!N || st.cs.unsat) return;
            segPos(st, b.lv.reg, b.lv.off, x, r);
            require(st, len + r, V_OOB, "range algorithm beyond the start of a segment"); if (st.cs.unsat) return;
            require(st, Lin(N) - r - len, V_OOB, "range algorithm beyond the end of a segment");
        };
        in(f, n); if (ok) in(d0, backward ? -n : n);
        if (!ok || st.cs.unsat) continue;
        F.lv.off = dense(st, f.lv.reg, f.lv.off, true, "range"); L.lv.off = F.lv.off + n; D.lv.off = dense(st, d0.lv.reg, d0.lv.off, true, "range");
        for (auto& q : algCopyIn(std::move(st), F, L, D, move, backward, ety)) { q.v = d0; q.v.lv.off = backward ? d0.lv.off - n : d0.lv.off + n; out.push_back(std::move(q)); }
    }
    return out;
}

// an algorithm of the standard library applied to iterators of a segmented container
RS Interp::algCopySeg(State s, const Val& f, bool fs, const Val& l, bool ls, const Val& d, bool ds, bool move, bool backward, QualType ety)
{
    if (!fs && !ls && !ds) return algCopy(std::move(s), f, l, d, move, backward, ety);
    auto seg = [&](const Val& v) { return v.isPtrCell() && s.regs.has(v.lv.reg) && s.regs.at(v.lv.reg).segN; };
    if (fs != ls || !f.isPtrCell() || !l.isPtrCell() || !d.isPtrCell()) throw Unsupported{"algorithm mixing pointers and iterators of a segmented container"};
    bool fr = !fs && seg(f), dr = !ds && seg(d);
    if (!fr && !dr) return algCopyIn(std::move(s), f, l, d, move, backward, ety);
    // pointers stay within one segment, iterators may cross segments
    RS out; Lin n; if (!segLen(s, f, l, n)) return {};
    std::vector<std::pair<State, bool>> sp; splitEq(std::move(s), n, sp);
    for (auto& p : sp)
    {
        State& st = p.first;
        if (p.second) { out.push_back({std::move(st), d}); continue; }
        Val F = f, L = l, D = d;
        auto in = [&](Val& b, const Lin& len)
        {
            Lin x, r; int N = st.regs.at(b.lv.reg).segN;
            segPos(st, b.lv.reg, b.lv.off, x, r);
            require(st, len + r, V_OOB, "range algorithm beyond the start of a segment"); if (st.cs.unsat) return;
            require(st, Lin(N) - r - len, V_OOB, "range algorithm beyond the end of a segment"); if (st.cs.unsat) return;
            b.lv.off = x * N + r;
        };
        if (fr) { in(F, n); L.lv.off = F.lv.off + n; }
        if (dr && !st.cs.unsat) in(D, backward ? -n : n);
        if (st.cs.unsat) continue;
        for (auto& q : algCopyIn(std::move(st), F, L, D, move, backward, ety)) { if (dr) { q.v = d; q.v.lv.off = backward ? d.lv.off - n : d.lv.off + n; } out.push_back(std::move(q)); }
    }
    return out;
}

RS Interp::algFill(State s, const Val& f, const Val& l, const LV& value, QualType ety)
{
    if (!f.isPtrCell() || !l.isPtrCell() || f.lv.reg != l.lv.reg || !s.regs.has(f.lv.reg) || !s.regs.at(f.lv.reg).segN) return algFillIn(std::move(s), f, l, value, ety);
    RS out; Lin n; if (!segLen(s, f, l, n)) return {};
    std::vector<std::pair<State, bool>> sp; splitEq(std::move(s), n, sp);
    for (auto& p : sp)
    {
        State& st = p.first;
        if (p.second) { out.push_back({std::move(st), l}); continue; }
        Lin x, r; segPos(st, f.lv.reg, f.lv.off, x, r);
        require(st, n + r, V_OOB, "range algorithm beyond the start of a segment"); if (st.cs.unsat) continue;
        require(st, Lin(st.regs.at(f.lv.reg).segN) - r - n, V_OOB, "range algorithm beyond the end of a segment"); if (st.cs.unsat) continue;
        Val F = f, L = l; F.lv.off = dense(st, f.lv.reg, f.lv.off, true, "range"); L.lv.off = F.lv.off + n;
        for (auto& q : algFillIn(std::move(st), F, L, value, ety)) { q.v = l; out.push_back(std::move(q)); }
    }
    return out;
}

RS Interp::algCopyIn(State s, const Val& f, const Val& l, const Val& d0, bool move, bool backward, QualType ety)
{
    RS out;
    if (!f.isPtrCell() || !l.isPtrCell() || !d0.isPtrCell()) throw Unsupported{"algorithm on unknown iterators"};
    if (f.lv.reg != l.lv.reg) { report(V_OOB, s, "range whose ends lie in different blocks"); return out; }
    Lin n = l.lv.off - f.lv.off;
    int A = f.lv.reg, B = d0.lv.reg;
    std::vector<std::pair<State, bool>> sp;
    splitEq(std::move(s), n, sp);
    for (auto& p : sp)
    {
        State& st = p.first;
        if (p.second) { Val r = d0; out.push_back({std::move(st), r}); continue; }
        require(st, n, V_OOB, "algorithm over a reversed range");
        if (st.cs.unsat) continue;
        Lin F = f.lv.off, L = l.lv.off;
        Lin D = backward ? d0.lv.off - n : d0.lv.off;
        Val res = d0; res.lv.off = backward ? D : D + n;
        bool tbl = st.regs.has(B) && st.regs.at(B).table;   // entries of a table need not be constructed
        bool thr = !tbl && typeOpThrows(ety, move ? 4 : 3);
        if (A != B)
        {
            for (auto& a : isolateRange(std::move(st), A, F, L, "source range"))
            {
                bool bad = false;
                { auto& R = a.s.regs.at(A); for (int i = a.i; i < a.j; ++i) if (!R.segs[i].live) { report(V_LIFE, a.s, "range algorithm reads elements that are not alive in " + R.name); bad = true; break; } }
                ++nObligations;
                if (bad) continue;
                std::vector<Seg> src = extract(a.s.regs.at(A), a.i, a.j, F);
                for (auto& b : isolateRange(std::move(a.s), B, D, D + n, "destination range"))
                {
                    ++nObligations;
                    { auto& R = b.s.regs.at(B); for (int i = b.i; i < b.j; ++i) if (!R.segs[i].live && !tbl) { report(V_LIFE, b.s, "range algorithm assigns to elements that are not alive in " + R.name); bad = true; break; }
                      if (R.k == Region::Ext) { report(V_CONST, b.s, "algorithm writes to foreign elements"); bad = true; } }
                    if (bad) continue;
                    auto apply = [&](State& x, bool thrown)
                    {
                        Region& R = x.regs.mut(B);
                        std::vector<Seg> pc = src;
                        if (thrown) { Seg g; g.lo = 0; g.live = true; g.c = Content::unk(); pc = {g}; }
                        replaceRange(R, b.i, b.j, pc, D);
                        if (move)
                        {
                            auto rs = isolateRange(x, A, F, L, "source range");
                            if (rs.size() != 1) throw Unsupported{"source range split"};
                            x = std::move(rs[0].s);
                            Seg g; g.lo = 0; g.live = true; g.c = thrown ? Content::unk() : Content::val(tMoved());
                            replaceRange(x.regs.mut(A), rs[0].i, rs[0].j, {g}, F);
                            x.touched.insert(A);
                        }
                        if (tbl) x.regs.mut(B).vreg = x.regs.at(A).vreg;
                        x.eff |= tbl ? EF_WRITE : EF_ASSIGN | (move ? EF_MOVE : EF_COPY); x.touched.insert(B);
                    };
                    if (thr && sink && !noThrowUser) { State t = b.s; apply(t, true); throwUser(t, EX_USER, "element assignment in a range algorithm"); }
                    apply(b.s, false);
                    out.push_back({std::move(b.s), res});
                }
            }
            continue;
        }
        // same block: D < F (forward) or D > F (backward)
        if (!backward) 
        {
            // d must not be in [first,last)
            std::vector<std::pair<State, bool>> q; splitGe(std::move(st), D - F, q);
            SS ok;
            for (auto& x : q)
            {
                if (!x.second) { ok.push_back(std::move(x.first)); continue; }
                ++nObligations;
                if (x.first.cs.entails(D - L)) { ok.push_back(std::move(x.first)); continue; }
                require(x.first, D - L, V_OVERLAP, "forward copy/move onto a destination inside the source range");
                if (!x.first.cs.unsat) ok.push_back(std::move(x.first));
            }
            for (auto& x : ok)
            {
                Lin lo, hi; bool dFirst = x.cs.entails(F - D);
                if (!dFirst) { lo = F; hi = D + n; } else { lo = D; hi = L; }
                // whole affected span [lo,hi) = hull of source and destination
                for (auto& a : isolateRange(std::move(x), A, F, L, "source range"))
                {
                    bool bad = false; ++nObligations;
                    { auto& R = a.s.regs.at(A); for (int i = a.i; i < a.j; ++i) if (!R.segs[i].live) { report(V_LIFE, a.s, "range algorithm reads elements that are not alive in " + R.name); bad = true; break; } }
                    if (bad) continue;
                    std::vector<Seg> src = extract(a.s.regs.at(A), a.i, a.j, F);
                    for (auto& b : isolateRange(std::move(a.s), A, D, D + n, "destination range"))
                    {
                        ++nObligations;
                        { auto& R = b.s.regs.at(A); for (int i = b.i; i < b.j; ++i) if (!R.segs[i].live && !tbl) { report(V_LIFE, b.s, "range algorithm assigns to elements that are not alive in " + R.name); bad = true; break; } }
                        if (bad) continue;
                        auto apply = [&](State x2, bool thrown) -> SS
                        {
                            SS r;
                            if (thrown)
                            {
                                // every element of both ranges may hold anything
                                replaceRange(x2.regs.mut(A), b.i, b.j, {[&] { Seg g; g.lo = 0; g.live = true; g.c = Content::unk(); return g; }()}, D);
                                if (move) for (auto& y : isolateRange(std::move(x2), A, F, L, "source range")) { Seg g; g.lo = 0; g.live = true; g.c = Content::unk(); replaceRange(y.s.regs.mut(A), y.i, y.j, {g}, F); r.push_back(std::move(y.s)); }
                                else r.push_back(std::move(x2));
                                return r;
                            }
                            SS in;
                            if (move)
                            {
                                for (auto& y : isolateRange(std::move(x2), A, F, L, "source range")) { Seg g; g.lo = 0; g.live = true; g.c = Content::val(tMoved()); replaceRange(y.s.regs.mut(A), y.i, y.j, {g}, F); in.push_back(std::move(y.s)); }
                            }
                            else in.push_back(std::move(x2));
                            for (auto& z : in)
                                for (auto& y : isolateRange(std::move(z), A, D, D + n, "destination range")) { replaceRange(y.s.regs.mut(A), y.i, y.j, src, D); compact(y.s, A); r.push_back(std::move(y.s)); }
                            for (auto& z : r) { z.eff |= tbl ? EF_WRITE : EF_ASSIGN | (move ? EF_MOVE : EF_COPY); z.touched.insert(A); }
                            return r;
                        };
                        if (thr && sink && !noThrowUser) for (auto& t : apply(b.s, true)) throwUser(t, EX_USER, "element assignment in a range algorithm");
                        for (auto& t : apply(std::move(b.s), false)) out.push_back({std::move(t), res});
                    }
                }
            }
        }
        else
        {
            // d_last must not be in (first,last]
            Lin DL = D + n;
            std::vector<std::pair<State, bool>> q; splitGe(std::move(st), L - DL, q);
            for (auto& x : q)
            {
                if (x.second)
                {
                    ++nObligations;
                    // DL <= L : then it must be DL <= F
                    if (!x.first.cs.entails(F - DL)) { require(x.first, F - DL, V_OVERLAP, "backward copy/move onto a destination inside the source range"); if (x.first.cs.unsat) continue; }
                }
                for (auto& a : isolateRange(std::move(x.first), A, F, L, "source range"))
                {
                    bool bad = false; ++nObligations;
                    { auto& R = a.s.regs.at(A); for (int i = a.i; i < a.j; ++i) if (!R.segs[i].live) { report(V_LIFE, a.s, "range algorithm reads elements that are not alive in " + R.name); bad = true; break; } }
                    if (bad) continue;
                    std::vector<Seg> src = extract(a.s.regs.at(A), a.i, a.j, F);
                    for (auto& b : isolateRange(std::move(a.s), A, D, DL, "destination range"))
                    {
                        ++nObligations;
                        { auto& R = b.s.regs.at(A); for (int i = b.i; i < b.j; ++i) if (!R.segs[i].live && !tbl) { report(V_LIFE, b.s, "range algorithm assigns to elements that are not alive in " + R.name); bad = true; break; } }
                        if (bad) continue;
                        auto apply = [&](State x2, bool thrown) -> SS
                        {
                            SS r, in;
                            Seg g; g.lo = 0; g.live = true; g.c = thrown ? Content::unk() : Content::val(tMoved());
                            if (thrown) { Seg u = g; replaceRange(x2.regs.mut(A), b.i, b.j, {u}, D); }
                            if (move) { for (auto& y : isolateRange(std::move(x2), A, F, L, "source range")) { replaceRange(y.s.regs.mut(A), y.i, y.j, {g}, F); in.push_back(std::move(y.s)); } }
                            else in.push_back(std::move(x2));
                            if (thrown) return in;
                            for (auto& z : in)
                                for (auto& y : isolateRange(std::move(z), A, D, DL, "destination range")) { replaceRange(y.s.regs.mut(A), y.i, y.j, src, D); compact(y.s, A); r.push_back(std::move(y.s)); }
                            for (auto& z : r) { z.eff |= tbl ? EF_WRITE : EF_ASSIGN | (move ? EF_MOVE : EF_COPY); z.touched.insert(A); }
                            return r;
                        };
                        if (thr && sink && !noThrowUser) for (auto& t : apply(b.s, true)) throwUser(t, EX_USER, "element assignment in a range algorithm");
                        for (auto& t : apply(std::move(b.s), false)) out.push_back({std::move(t), res});
                    }
                }
            }
        }
    }
    return out;
}

RS Interp::algFillIn(State s, const Val& f, const Val& l, const LV& value, QualType ety)
{
    RS out;
    if (!f.isPtrCell() || !l.isPtrCell()) throw Unsupported{"fill on unknown iterators"};
    if (f.lv.reg != l.lv.reg) { report(V_OOB, s, "range whose ends lie in different blocks"); return out; }
    Lin n = l.lv.off - f.lv.off;
    std::vector<std::pair<State, bool>> sp; splitEq(std::move(s), n, sp);
    bool thr = typeOpThrows(ety, 3);
    for (auto& p : sp)
    {
        if (p.second) { out.push_back({std::move(p.first), l}); continue; }
        require(p.first, n, V_OOB, "fill over a reversed range");
        if (p.first.cs.unsat) continue;
        for (auto& r : readTerm(std::move(p.first), value, "fill value"))
            for (auto& b : isolateRange(std::move(r.s), f.lv.reg, f.lv.off, l.lv.off, "destination range"))
            {
                bool bad = false; ++nObligations;
                { auto& R = b.s.regs.at(f.lv.reg); for (int i = b.i; i < b.j; ++i) if (!R.segs[i].live) { report(V_LIFE, b.s, "fill assigns to elements that are not alive in " + R.name); bad = true; break; } }
                if (bad) continue;
                auto apply = [&](State& x, Content c) { Seg g; g.lo = 0; g.live = true; g.c = c; if (c.k == Content::Seq) g.c.shift = c.shift; replaceRange(x.regs.mut(f.lv.reg), b.i, b.j, {g}, f.lv.off); x.eff |= EF_ASSIGN | EF_COPY; x.touched.insert(f.lv.reg); };
                if (thr && sink && !noThrowUser) { State t = b.s; apply(t, Content::unk()); throwUser(t, EX_USER, "element assignment in fill"); }
                apply(b.s, r.t->k == Term::Unk ? Content::unk() : Content::val(r.t));
                out.push_back({std::move(b.s), l});
            }
    }
    return out;
}

bool Interp::intrinsic(State s, const FunctionDecl* fd, const Expr*, const LV* self, const std::vector<const Expr*>& args, const LV* ret, RS& out)
{
    auto one = [&](State st, Val v) { out.push_back({std::move(st), v}); };
    // ---- element member operations
    if (self && self->k == LV::Cell && isa<CXXMethodDecl>(fd))
    {
        if (isa<CXXDestructorDecl>(fd)) { for (auto& x : elemDestroy(std::move(s), *self, "destroy")) one(std::move(x), Val()); return true; }
        if (fd->getOverloadedOperator() == OO_Equal)
        {
            QualType pt = fd->getParamDecl(0)->getType();
            bool rv = pt->isRValueReferenceType();
            QualType ety = C.getRecordType(cast<CXXMethodDecl>(fd)->getParent());
            LV dst = *self;
            for (auto& b : bindArgs(std::move(s), fd, args))
            {
                LV src = b.a[0];
                bool same = src.k == LV::Cell;
                bool isSameTy = C.hasSameUnqualifiedType(pt.getNonReferenceType(), ety);
                bool thr = isSameTy ? mayThrow(fd) : true;
                if (isSameTy && rec(ety)->getName() == "pair") thr = typeOpThrows(ety, rv ? 4 : 3);
                if (same)
                {
                    // self-assignment?
                    std::vector<std::pair<State, bool>> sp;
                    if (src.reg == dst.reg && src.path == dst.path) splitEq(std::move(b.s), ptrDiff(b.s, src.reg, src.off, dst.off), sp); else sp.push_back({std::move(b.s), false});
                    for (auto& q : sp)
                    {
                        for (auto& t : readTerm(std::move(q.first), src, "assignment source"))
                        {
                            TermP term = t.t;
                            if (!isSameTy) term = mkTerm(Term::Ctor, rv ? 1 : 0, 0, {t.t});
                            if (q.second)
                            {
                                // self assignment: copy keeps the value, move leaves it unspecified
                                for (auto& x : elemAssign(std::move(t.s), dst, rv ? tUnk() : term, "self-assignment")) one(std::move(x), Val::ref(dst));
                                continue;
                            }
                            if (thr) { SS u = elemAssign(t.s, dst, tUnk(), "assignment"); for (auto& x : u) { if (rv) for (auto& y : markMoved(x, src)) { State z = y; throwUser(z, EX_USER, "element assignment"); } else throwUser(x, EX_USER, "element assignment"); } }
                            SS st; for (auto& x : elemAssign(std::move(t.s), dst, term, "assignment")) { if (rv) { for (auto& y : markMoved(std::move(x), src)) st.push_back(std::move(y)); } else st.push_back(std::move(x)); }
                            for (auto& x : st) { x.eff |= rv ? EF_MOVE : EF_COPY; one(std::move(x), Val::ref(dst)); }
                        }
                    }
                }
                else
                {
                    TermP term = mkTerm(Term::Ctor, rv ? 1 : 0, 0, {tExt(1000000 + src.obj)});
                    if (thr) { for (auto& x : elemAssign(b.s, dst, tUnk(), "assignment")) throwUser(x, EX_USER, "element assignment"); }
                    for (auto& x : elemAssign(std::move(b.s), dst, term, "assignment")) one(std::move(x), Val::ref(dst));
                }
            }
            return true;
        }
    }
    const std::string qn = qname(fd);
    // ---- allocator tokens
    if (self && self->k == LV::Obj && s.objs.has(self->obj) && s.objs.at(self->obj).k == ObjN::Token)
    {
        if (fd->getOverloadedOperator() == OO_Call)
        {
            LV me = *self;
            for (auto& b : bindArgs(std::move(s), fd, args)) if (!callToken(b.s, fd, me, b.a, out)) throw Unsupported{"call of a function object"};
            return true;
        }
        if (fd->getOverloadedOperator() == OO_Equal)
        {
            LV dst = *self;
            bool thr = mayThrow(fd);
            for (auto& r : eval(std::move(s), args[0]))
            {
                if (thr) throwUser(r.s, EX_USER, "assignment of allocator/function object");
                Val v = load(r.s, r.v.lv); store(r.s, dst, v); one(std::move(r.s), Val::ref(dst));
            }
            return true;
        }
    }
    if ((fd->getOverloadedOperator() == OO_EqualEqual || fd->getOverloadedOperator() == OO_ExclaimEqual) && args.size() == 2 && isTokenClass(rec(args[0]->getType())))
    {
        for (auto& a : evalRV(std::move(s), args[0])) for (auto& b : evalRV(std::move(a.s), args[1]))
        {
            bool neg = fd->getOverloadedOperator() == OO_ExclaimEqual;
            if (a.v.k != Val::Tok || b.v.k != Val::Tok) throw Unsupported{"token comparison"};
            int x = std::min(a.v.tok, b.v.tok), y = std::max(a.v.tok, b.v.tok);
            if (x == y) { one(std::move(b.s), Val::integer(Lin(neg ? 0 : 1))); continue; }
            std::string key = "tokeq " + std::to_string(x) + " " + std::to_string(y);
            auto it = b.s.facts.find(key);
            if (it != b.s.facts.end()) { bool e = it->second; one(std::move(b.s), Val::integer(Lin(e != neg ? 1 : 0))); continue; }
            State t = b.s; t.facts[key] = true; t.note("allocators equal"); one(std::move(t), Val::integer(Lin(neg ? 0 : 1)));
            b.s.facts[key] = false; b.s.note("allocators differ"); one(std::move(b.s), Val::integer(Lin(neg ? 1 : 0)));
        }
        return true;
    }
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) if (md->getOverloadedOperator() == OO_Call && md->getParent()->isInStdNamespace() && args.size() == 2)
    {
        // std::less and the like on numbers and pointers: a total order, whatever the pointers designate
        static const std::map<std::string, BinaryOperatorKind> ops = {{"less", BO_LT}, {"greater", BO_GT}, {"less_equal", BO_LE}, {"greater_equal", BO_GE}, {"equal_to", BO_EQ}, {"not_equal_to", BO_NE}};
        auto it = ops.find(md->getParent()->getNameAsString());
        auto scalar = [](QualType t) { return t->isPointerType() || t->isIntegerType(); };
        if (it != ops.end() && scalar(args[0]->getType()) && scalar(args[1]->getType()))
        {
            for (auto& x : eval(std::move(s), args[0])) for (auto& y : eval(std::move(x.s), args[1]))
            {
                Val u = x.v.k == Val::Ref ? load(y.s, x.v.lv) : x.v, w = y.v.k == Val::Ref ? load(y.s, y.v.lv) : y.v;
                struct Tot { bool& t; ~Tot() { t = false; } } tot{totalOrder}; totalOrder = true;
                for (auto& r : cmpPtr(std::move(y.s), u, w, it->second)) out.push_back(std::move(r));
            }
            return true;
        }
    }
    if (qn == "std::addressof" || qn == "std::__addressof" || qn == "__builtin_addressof" || qn == "std::__builtin_addressof")
    {
        for (auto& r : eval(std::move(s), args[0])) { if (r.v.k != Val::Ref) throw Unsupported{"addressof"}; LV l = r.v.lv; one(std::move(r.s), Val::ptr(l)); }
        return true;
    }
    if ((qn == "std::move" && args.size() == 1) || qn == "std::forward" || qn == "std::move_if_noexcept" || qn == "std::as_const" || qn == "std::__niter_base")
    {
        for (auto& r : eval(std::move(s), args[0])) out.push_back(std::move(r));
        return true;
    }
    if (qn == "std::pointer_traits::pointer_to")
    {
        for (auto& r : eval(std::move(s), args[0])) { if (r.v.k != Val::Ref) throw Unsupported{"pointer_to"}; LV l = r.v.lv; one(std::move(r.s), Val::ptr(l)); }
        return true;
    }
    if (qn == "__assert_fail")
    {
        ++nObligations;
        if (!allowAssert) report(V_ASSERT, s, "assertion can fail although the preconditions hold");
        else if (onAssert) onAssert(s);
        return true;
    }
    if (gNoExc && (qn == "std::abort" || qn == "abort" || qn == "std::terminate" || qn == "std::_Exit" || qn == "_Exit" || qn == "std::exit" || qn == "exit" || qn == "std::quick_exit" || qn == "__builtin_trap" || qn == "__builtin_abort"))
    {
        ++nObligations;
        for (auto* c : callStack)
        {
            std::string n = c->getNameAsString(); int k = n == "throw_length_error" ? EX_LENGTH : n == "throw_out_of_range" ? EX_RANGE : 0;
            if (k) { throwUser(s, k, "end of the program"); return true; }
        }
    }
    if (qn == "std::abort" || qn == "abort" || qn == "std::terminate" || qn == "__builtin_unreachable")
    {
        report(V_TERMINATE, s, "call of " + qn);
        return true;
    }
    if (qn == "__builtin_constant_p" || qn == "__builtin_is_constant_evaluated" || qn == "std::is_constant_evaluated" || qn == "std::__is_constant_evaluated")
    {
        one(std::move(s), Val::integer(Lin(0)));
        return true;
    }
    if (qn == "arch::consume")
    {
        for (auto& p : evalRV(std::move(s), args[0]))
        {
            if (!p.v.isPtrCell()) throw Unsupported{"input iterator"};
            for (auto& c : isolateCell(std::move(p.s), p.v.lv.reg, p.v.lv.off, "increment of an input iterator"))
            {
                ++nObligations;
                if (!c.first.regs.at(p.v.lv.reg).segs[c.second].live) { report(V_ITER, c.first, "single-pass range: a position is advanced over twice"); continue; }
                setCell(c.first, p.v.lv.reg, c.second, false, nullptr); one(std::move(c.first), Val());
            }
        }
        return true;
    }
    if (qn == "arch::may_throw") { throwUser(s, EX_USER, "iterator operation"); one(std::move(s), Val()); return true; }
    if (qn.compare(0, 23, "std::allocator_traits::") == 0)
    {
        std::string m = fd->getNameAsString();
        if (m == "max_size")
        {
            for (auto& a : eval(std::move(s), args[0])) one(std::move(a.s), Val::integer(Lin::sym(maxszSym)));
            return true;
        }
        if (m == "select_on_container_copy_construction")
        {
            for (auto& a : evalRV(std::move(s), args[0]))
            {
                if (a.v.k != Val::Tok || !ret) throw Unsupported{"select_on_container_copy_construction"};
                int& d = tokDerived[a.v.tok]; if (!d) { d = nextTok++; tokNames[d] = "select(" + tokNames[a.v.tok] + ")"; }
                store(a.s, *ret, Val::token(d)); one(std::move(a.s), Val::ref(*ret));
            }
            return true;
        }
        if (m == "allocate")
        {
            const FunctionDecl* f2 = fd;
            QualType pt = f2->getReturnType()->getPointeeType();
            for (auto& a : evalRV(std::move(s), args[0])) for (auto& n : evalRV(std::move(a.s), args[1]))
            {
                if (a.v.k != Val::Tok) throw Unsupported{"allocator"};
                if (n.v.k != Val::Int) throw Unsupported{"allocation of unknown size"};
                bool table = !isElem(pt);
                require(n.s, n.v.i - Lin(1), V_LENGTH, "allocation of zero elements");
                if (n.s.cs.unsat) continue;
                if (!table) require(n.s, Lin::sym(maxszSym) - n.v.i, V_LENGTH, "allocation of more than max_size() elements");
                if (n.s.cs.unsat) continue;
                n.s.eff |= EF_ALLOC;
                throwUser(n.s, EX_ALLOC, "allocate");
                int r = newRegion(n.s, Region::Heap, "block" + std::to_string(nextReg), n.v.i, false, Content::unk(), pt);
                n.s.regs.mut(r).owner = a.v.tok; n.s.regs.mut(r).table = table;
                if (gSegN && table)
                {
                    SeqInfo q; q.name = "segments" + std::to_string(r); gSeqs.push_back(q);
                    int v = newRegion(n.s, Region::Heap, "segments of table" + std::to_string(r), SEG_HI, false, Content::unk(), pt->getPointeeType());
                    Region& V = n.s.regs.mut(v); V.segN = gSegN; V.vseq = (int)gSeqs.size() - 1; V.segs[0].lo = SEG_LO; V.segs[0].freed = true;
                    n.s.regs.mut(r).vreg = v;
                }
                if (!gSegN || table) n.s.allocs.push_back({n.v.i, r, table});
                one(std::move(n.s), Val::ptr(r, 0));
            }
            return true;
        }
        if (m == "deallocate")
        {
            for (auto& a : evalRV(std::move(s), args[0])) for (auto& p : evalRV(std::move(a.s), args[1])) for (auto& n : evalRV(std::move(p.s), args[2]))
            {
                State& st = n.s; ++nObligations;
                if (p.v.k == Val::Uninit) { report(V_UNINIT, st, "deallocate of an uninitialised pointer"); continue; }
                if (!p.v.isPtrCell() || a.v.k != Val::Tok || n.v.k != Val::Int) throw Unsupported{"deallocate"};
                int r = p.v.lv.reg;
                if (!st.regs.has(r)) { report(V_DEALLOC, st, "block released twice"); continue; }
                const Region R = st.regs.at(r);
                if (R.k != Region::Heap) { report(V_DEALLOC, st, "deallocate of storage that was not allocated (" + R.name + ")"); continue; }
                if (R.segN)
                {
                    Lin x, q0; segPos(st, r, p.v.lv.off, x, q0);
                    require(st, q0, V_DEALLOC, "deallocate with a pointer that is not the start of a segment"); if (st.cs.unsat) continue;
                    require(st, -q0, V_DEALLOC, "deallocate with a pointer that is not the start of a segment"); if (st.cs.unsat) continue;
                    if (!st.cs.entailsEq(n.v.i, Lin(R.segN))) { report(V_DEALLOC, st, "deallocate with size " + n.v.i.str() + " of a segment of size " + std::to_string(R.segN)); continue; }
                    bool eq = R.owner == a.v.tok;
                    if (!eq) { auto it = st.facts.find("tokeq " + std::to_string(std::min(R.owner, a.v.tok)) + " " + std::to_string(std::max(R.owner, a.v.tok))); eq = it != st.facts.end() && it->second; }
                    if (!eq) { report(V_DEALLOC, st, "segment of allocator " + tokNames[R.owner] + " released through allocator " + tokNames[a.v.tok] + " which need not compare equal"); continue; }
                    for (auto& w : isolateRange(std::move(st), r, x * R.segN, x * R.segN + Lin(R.segN), "released segment"))
                    {
                        bool bad = false; Region& M = w.s.regs.mut(r);
                        for (int i = w.i; i < w.j && !bad; ++i)
                        {
                            if (M.segs[i].freed) { report(V_DEALLOC, w.s, "segment released twice, or never allocated"); bad = true; }
                            else if (M.segs[i].live) { report(V_LEAK_ELEM, w.s, "segment released while elements in it are alive"); bad = true; }
                        }
                        if (bad) continue;
                        for (int i = w.i; i < w.j; ++i) { M.segs[i].freed = true; M.segs[i].c = Content::unk(); }
                        compact(w.s, r); w.s.eff |= EF_DEALLOC; one(std::move(w.s), Val());
                    }
                    continue;
                }
                if (!st.cs.entailsEq(p.v.lv.off, 0)) { report(V_DEALLOC, st, "deallocate with a pointer that is not the start of " + R.name); continue; }
                if (!st.cs.entailsEq(n.v.i, R.size)) { report(V_DEALLOC, st, "deallocate with size " + n.v.i.str() + " of a block of size " + R.size.str(), {}); continue; }
                bool eq = R.owner == a.v.tok;
                if (!eq) { auto it = st.facts.find("tokeq " + std::to_string(std::min(R.owner, a.v.tok)) + " " + std::to_string(std::max(R.owner, a.v.tok))); eq = it != st.facts.end() && it->second; }
                if (!eq) { report(V_DEALLOC, st, "block of allocator " + tokNames[R.owner] + " released through allocator " + tokNames[a.v.tok] + " which need not compare equal"); continue; }
                compact(st, r);
                bool live = false; for (auto& g : st.regs.at(r).segs) if (g.live) live = true;
                if (live && !R.table)
                {
                    // is some live piece non-empty?
                    report(V_LEAK_ELEM, st, "block " + R.name + " released while elements in it are alive"); continue;
                }
                st.regs.erase(r); st.freed.push_back(r); st.eff |= EF_DEALLOC;
                one(std::move(st), Val());
            }
            return true;
        }
        if (m == "construct" || m == "destroy")
        {
            QualType pt = fd->getParamDecl(1)->getType()->getPointeeType();
            if (!isElem(pt)) 
            {
                return false;
            }
            for (auto& b : bindArgs(std::move(s), fd, args))
            {
                Val p = load(b.s, b.a[1]);
                if (p.k != Val::Ptr) throw Unsupported{"construct at unknown pointer"};
                if (p.lv.k != LV::Cell) throw Unsupported{"construct at object"};
                if (p.lv.reg == 0) { report(V_OOB, b.s, "construct/destroy at a null pointer"); continue; }
                struct Via { Interp& I; ~Via() { I.viaTraits = false; I.viaTok = -1; } } via{*this};
                viaTraits = true; { Val av = load(b.s, b.a[0]); viaTok = av.k == Val::Tok ? av.tok : -1; }
                if (m == "destroy") { for (auto& x : elemDestroy(std::move(b.s), p.lv, "destroy")) one(std::move(x), Val()); continue; }
                std::vector<LV> a(b.a.begin() + 2, b.a.end()); std::vector<bool> rv; std::vector<QualType> tys;
                for (unsigned i = 2; i < fd->getNumParams(); ++i) { QualType t = fd->getParamDecl(i)->getType(); rv.push_back(t->isRValueReferenceType()); tys.push_back(t.getNonReferenceType()); }
                for (auto& x : constructElemFrom(std::move(b.s), p.lv, pt, a, rv, tys, nullptr)) one(std::move(x), Val());
            }
            return true;
        }
    }
    // ---- algorithms
    if (fd->isInStdNamespace() && fd->getPrimaryTemplate())
    {
        std::string m = fd->getNameAsString();
        bool mv = m == "move" && args.size() == 3, cp = m == "copy" && args.size() == 3, mb = m == "move_backward", cb = m == "copy_backward";
        if (mv || cp || mb || cb)
        {
            for (auto& b : bindArgs(std::move(s), fd, args))
            {
                ItInfo f, l, d;
                if (!iterInfo(*this, b.s, b.a[0], f) || !iterInfo(*this, b.s, b.a[1], l) || !iterInfo(*this, b.s, b.a[2], d)) throw Unsupported{"iterators of std::" + m};
                QualType ety; if (b.s.regs.has(d.p.lv.reg)) ety = b.s.regs.at(d.p.lv.reg).ety;
                if (ety.isNull() && b.s.regs.has(f.p.lv.reg)) ety = b.s.regs.at(f.p.lv.reg).ety;
                if (ety.isNull())
                {
                    // both null: only an empty range is possible
                    ety = C.IntTy;
                }
                LV dobj = b.a[2];
                for (auto& r : algCopySeg(std::move(b.s), f.p, f.seg >= 0, l.p, l.seg >= 0, d.p, d.seg >= 0, mv || mb || f.move, mb || cb, ety))
                {
                    if (ret) { copyObj(r.s, ret->obj, dobj.obj); putIter(*this, r.s, ret->obj, r.v); one(std::move(r.s), Val::ref(*ret)); }
                    else one(std::move(r.s), r.v);
                }
            }
            return true;
        }
        if (m == "fill")
        {
            for (auto& b : bindArgs(std::move(s), fd, args))
            {
                ItInfo f, l;
                if (!iterInfo(*this, b.s, b.a[0], f) || !iterInfo(*this, b.s, b.a[1], l) || (f.seg >= 0) != (l.seg >= 0)) throw Unsupported{"iterators of std::fill"}; bool sg = f.seg >= 0;
                QualType ety = b.s.regs.has(f.p.lv.reg) ? b.s.regs.at(f.p.lv.reg).ety : QualType();
                if (ety.isNull()) ety = C.IntTy;
                for (auto& r : sg ? algFillIn(std::move(b.s), f.p, l.p, b.a[2], ety) : algFill(std::move(b.s), f.p, l.p, b.a[2], ety)) one(std::move(r.s), Val());
            }
            return true;
        }
        if (m == "fill_n" || m == "copy_n")
        {
            bool isFill = m == "fill_n";
            for (auto& b : bindArgs(std::move(s), fd, args))
            {
                ItInfo f; Val n = load(b.s, b.a[1]);
                if (!iterInfo(*this, b.s, b.a[0], f) || n.k != Val::Int) throw Unsupported{"iterators of std::" + m};
                std::vector<std::pair<State, bool>> sp; splitGe(std::move(b.s), n.i - Lin(1), sp);
                for (auto& q : sp)
                {
                    if (isFill)
                    {
                        Val l = f.p; if (q.second) l.lv.off = l.lv.off + n.i;
                        QualType ety = q.first.regs.has(f.p.lv.reg) ? q.first.regs.at(f.p.lv.reg).ety : QualType(); if (ety.isNull()) ety = C.IntTy;
                        RS rs; if (q.second) rs = f.seg >= 0 ? algFillIn(std::move(q.first), f.p, l, b.a[2], ety) : algFill(std::move(q.first), f.p, l, b.a[2], ety); else rs.push_back({std::move(q.first), f.p});
                        for (auto& r : rs)
                        {
                            if (ret) { copyObj(r.s, ret->obj, b.a[0].obj); putIter(*this, r.s, ret->obj, r.v); one(std::move(r.s), Val::ref(*ret)); }
                            else one(std::move(r.s), r.v);
                        }
                    }
                    else
                    {
                        ItInfo d; if (!iterInfo(*this, q.first, b.a[2], d)) throw Unsupported{"iterators of std::copy_n"};
                        Val l = f.p; if (q.second) l.lv.off = l.lv.off + n.i;
                        QualType ety = q.first.regs.has(d.p.lv.reg) ? q.first.regs.at(d.p.lv.reg).ety : QualType(); if (ety.isNull()) ety = C.IntTy;
                        RS rs; if (q.second) rs = algCopySeg(std::move(q.first), f.p, f.seg >= 0, l, f.seg >= 0, d.p, d.seg >= 0, f.move, false, ety); else rs.push_back({std::move(q.first), d.p});
                        for (auto& r : rs)
                        {
                            if (ret) { copyObj(r.s, ret->obj, b.a[2].obj); putIter(*this, r.s, ret->obj, r.v); one(std::move(r.s), Val::ref(*ret)); }
                            else one(std::move(r.s), r.v);
                        }
                    }
                }
            }
            return true;
        }
        if (m == "lower_bound" || m == "upper_bound" || m == "equal_range" || m == "binary_search") { if (searchAlg(s, fd, args, ret, out)) return true; }
        if (rangeAlg(s, fd, args, ret, out)) return true;
        if ((m == "swap" || m == "iter_swap") && args.size() == 2 && isElem(args[0]->getType()))
        {
            for (auto& a : eval(std::move(s), args[0])) for (auto& b : eval(std::move(a.s), args[1]))
            {
                LV x = a.v.lv, y = b.v.lv; QualType ety = args[0]->getType();
                if (typeOpThrows(ety, 2) || typeOpThrows(ety, 4))
                    for (auto& p : elemAssign(b.s, x, tUnk(), "swap")) for (auto& q : elemAssign(std::move(p), y, tUnk(), "swap")) throwUser(q, EX_USER, "element swap");
                for (auto& p : readTerm(std::move(b.s), x, "swap")) for (auto& q : readTerm(std::move(p.s), y, "swap"))
                    for (auto& u : elemAssign(std::move(q.s), x, q.t, "swap")) for (auto& w : elemAssign(std::move(u), y, p.t, "swap")) { w.eff |= EF_MOVE; one(std::move(w), Val()); }
            }
            return true;
        }
        if (m == "get" && args.size() == 1 && fd->getTemplateSpecializationArgs() && rec(args[0]->getType()) && rec(args[0]->getType())->getName() == "tuple" && fd->getTemplateSpecializationArgs()->get(0).getKind() == TemplateArgument::Integral)
        {
            unsigned ix = (unsigned)fd->getTemplateSpecializationArgs()->get(0).getAsIntegral().getExtValue();
            for (auto& b : bindArgs(std::move(s), fd, args))
            {
                if (b.a[0].k != LV::Obj) throw Unsupported{"tuple get"};
                std::vector<int> leafs = tupleLeafs(b.s, b.a[0].obj);
                if (ix >= leafs.size()) throw Unsupported{"tuple layout"};
                auto& o = b.s.objs.at(leafs[ix]);
                LV l = o.k == ObjN::RefK ? o.ref : lvOf(b.s, leafs[ix]);
                one(std::move(b.s), Val::ref(l));
            }
            return true;
        }
        if (m == "forward_as_tuple" && ret)
        {
            for (auto& b : bindArgs(std::move(s), fd, args))
            {
                std::vector<int> leafs = tupleLeafs(b.s, ret->obj);
                if (leafs.size() != b.a.size()) throw Unsupported{"tuple layout"};
                for (size_t i = 0; i < leafs.size(); ++i) b.s.objs.mut(leafs[i]).ref = b.a[i];
                one(std::move(b.s), Val::ref(*ret));
            }
            return true;
        }
    }
    return false;
}
