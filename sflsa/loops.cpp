// Loop summarisation: inductive generalisation of two consecutive iterations.
#include "interp.hpp"
#include "spec.hpp"
using namespace clang;

// Enumerates the non-empty intersections of two segmentations.
template <class F>
static void forIntersections(const CS& cs, const std::vector<Seg>& A, const Lin& sa, const std::vector<Seg>& B, const Lin& sb, F f)
{
    for (size_t i = 0; i < A.size(); ++i)
    {
        Lin l0 = A[i].lo, h0 = i + 1 < A.size() ? A[i + 1].lo : sa;
        for (size_t j = 0; j < B.size(); ++j)
        {
            Lin l1 = B[j].lo, h1 = j + 1 < B.size() ? B[j + 1].lo : sb;
            std::vector<Lin> cond = {h0 - l0 - Lin(1), h1 - l1 - Lin(1), h0 - l1 - Lin(1), h1 - l0 - Lin(1)};
            if (!cs.feasible2(cond)) continue;
            CS c2 = cs; for (auto& e : cond) c2.add(e);
            Lin ls[2] = {l0, l1}, hs[2] = {h0, h1};
            bool eqL = c2.entailsEq(l0, l1), eqH = c2.entailsEq(h0, h1);
            for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q)
            {
                if ((eqL && p) || (eqH && q)) continue;
                CS c3 = c2;
                if (!eqL) { if (!c3.feasible(ls[p] - ls[1 - p] - Lin(p))) continue; c3.add(ls[p] - ls[1 - p] - Lin(p)); }
                if (!eqH) { if (!c3.feasible(hs[1 - q] - hs[q] - Lin(q))) continue; c3.add(hs[1 - q] - hs[q] - Lin(q)); }
                if (c3.unsat) continue;
                if (!f(c3, ls[p], hs[q], (int)i, (int)j)) return;
            }
        }
    }
}


// Do pointers of the two states designate different blocks (a transition between storage shapes)?
static bool shapeDiffers(const State& n, const State& g, const std::vector<Exist>& ex)
{
    for (auto& p : g.objs.v)
    {
        auto& y = *p.second;
        if (y.k != ObjN::Scalar || !y.v.isPtrCell() || !n.objs.has(p.first)) continue;
        auto& x = n.objs.at(p.first);
        if (x.k != ObjN::Scalar || !x.v.isPtrCell() || x.v.lv.reg == y.v.lv.reg) continue;
        bool e = false; for (auto& q : ex) if (q.reg == y.v.lv.reg) e = true;
        if (!e || !n.regs.has(x.v.lv.reg) || n.regs.at(x.v.lv.reg).k != Region::Heap) return true;
    }
    return false;
}

static bool sameLV(const CS& cs, const LV& a, const LV& b)
{
    if (a.k != b.k) return false;
    if (a.k == LV::Obj) return a.obj == b.obj;
    if (a.k == LV::Cell) return a.reg == b.reg && a.path == b.path && cs.entailsEq(a.off, b.off);
    return true;
}

// Pointers of `a` that designate a block which the iteration replaced by another one: block of a -> block of b.
static bool blockMap(const State& a, const State& b, std::map<int, int>& m, std::string& why)
{
    for (auto& p : a.objs.v)
    {
        auto& x = *p.second;
        if (x.k != ObjN::Scalar || !x.v.isPtrCell() || !b.objs.has(p.first)) continue;
        auto& y = b.objs.at(p.first);
        if (y.k != ObjN::Scalar || !y.v.isPtrCell() || y.v.lv.reg == x.v.lv.reg) continue;
        int ra = x.v.lv.reg, rb = y.v.lv.reg;
        if (!b.regs.has(rb)) continue; // dangling: its value is forgotten
        if (!a.regs.has(ra)) { why = "pointer region changes"; return false; }
        auto& A = a.regs.at(ra); auto& B = b.regs.at(rb);
        if (A.k != Region::Heap || B.k != Region::Heap || A.owner != B.owner || A.table != B.table) { why = "pointer region changes"; return false; }
        auto it = m.find(ra);
        if (it != m.end()) { if (it->second != rb) { why = "pointer region changes"; return false; } }
        else { for (auto& q : m) if (q.second == rb) { why = "pointer region changes"; return false; } m[ra] = rb; }
    }
    for (auto& q : m) if (b.regs.has(q.first) || a.regs.has(q.second)) { why = "pointer region changes"; return false; }
    return true;
}

bool Interp::generalise(const State& a, const State& b0, int k, State& out, std::string& why, std::vector<Exist>& ex, int choice, int& nAmb)
{
    nAmb = 0;
    // blocks replaced by the iteration: present them under the names they have in `a`
    std::map<int, int> bm; ex.clear();
    if (!blockMap(a, b0, bm, why)) return false;
    State b = b0;
    // pointers into blocks that were released have no usable value (other than being equal to each other)
    auto sameDangling = [&](int id, const ObjN& y) { if (!a.objs.has(id)) return false; auto& x = a.objs.at(id); return x.k == ObjN::Scalar && x.v.isPtrCell() && x.v.lv.reg == y.v.lv.reg && !a.regs.has(x.v.lv.reg) && x.v.lv.off == y.v.lv.off; };
    for (auto& p : b0.objs.v) { auto& y = *p.second; if (y.k == ObjN::Scalar && y.v.isPtrCell() && !b0.regs.has(y.v.lv.reg) && !sameDangling(p.first, y)) b.objs.mut(p.first).v = Val::unk(); }
    for (auto& q : bm) { renameRegion(b, q.second, q.first); }
    if (!bm.empty()) { b.allocs = a.allocs; b.freed = a.freed; }
    out = a;
    Lin K = Lin::sym(k);
    auto interp = [&](const Lin& x, const Lin& y, Lin& r) -> bool
    {
        Lin d = y - x;
        if (!d.isConst())
        {
            if (b.cs.entailsEq(x, y)) { r = x; return true; }
            // try to recognise a constant difference under the constraints
            for (int c : {1, -1}) if (b.cs.entailsEq(d, c)) { r = x + K * c; return true; }
            if (gSegN) for (int c = 2; c <= gSegN + 1; ++c) for (int e : {c, -c}) if (b.cs.entailsEq(d, e)) { r = x + K * e; return true; }
            why = "non-constant step " + d.str(); return false;
        }
        r = x + K * (i64)d.c; return true;
    };
    std::map<int, int> sizeSym;
    for (auto& q : bm)
    {
        const Lin &x = a.regs.at(q.first).size, &y = b.regs.at(q.first).size;
        Exist e; e.reg = q.first; e.init = x; e.sym = b.cs.entailsEq(x, y) ? -1 : newLoopSym("cap" + std::to_string(symNames.size()));
        ex.push_back(e); sizeSym[q.first] = e.sym;
    }
    auto interpOff = [&](int reg, const Lin& x, const Lin& y, Lin& r) -> bool
    {
        if (a.regs.has(reg) && a.regs.at(reg).segN)
        {
            Lin d1, j1, d2, j2, d, j; segDec(x, d1, j1); segDec(y, d2, j2);
            if (!interp(d1, d2, d) || !interp(j1, j2, j)) return false;
            r = segCode(d, j); return true;
        }
        auto it = sizeSym.find(reg);
        if (it != sizeSym.end() && it->second >= 0 && a.cs.entailsEq(x, a.regs.at(reg).size) && b.cs.entailsEq(y, b.regs.at(reg).size))
        {
            // either the end of the block or a position that happens to coincide with it
            Lin d = y - x; bool amb = d.isConst();
            if (!amb || !((choice >> nAmb++) & 1)) { r = Lin::sym(it->second); return true; }
        }
        return interp(x, y, r);
    };
    if (b.allocs.size() != a.allocs.size() || b.freed.size() != a.freed.size()) { why = "allocation inside the loop"; return false; }
    for (auto& p : a.objs.v)
    {
        if (!b.objs.has(p.first)) { out.objs.erase(p.first); continue; }
        auto& x = *p.second; auto& y = b.objs.at(p.first);
        if (x.k != y.k) { why = "object kind"; return false; }
        if (x.k == ObjN::RefK) { if (!sameLV(b.cs, x.ref, y.ref)) { why = "reference changes"; return false; } continue; }
        if (x.k == ObjN::Token) { if (x.v.tok != y.v.tok) { why = "token changes"; return false; } continue; }
        if (x.k != ObjN::Scalar) continue;
        if (x.v.k == Val::Uninit && y.v.k == Val::Uninit) continue;
        if (x.v.k != y.v.k) { if (y.v.k == Val::Unk || x.v.k == Val::Unk) { out.objs.mut(p.first).v = Val::unk(); continue; } why = "value kind"; return false; }
        if (x.v.k == Val::Int)
        {
            Lin r;
            if (!interp(x.v.i, y.v.i, r)) return false;
            if (r != x.v.i) out.objs.mut(p.first).v.i = r;
        }
        else if (x.v.k == Val::Ptr)
        {
            if (x.v.lv.k != y.v.lv.k) { why = "pointer kind"; return false; }
            if (x.v.lv.k == LV::Obj) { if (x.v.lv.obj != y.v.lv.obj) { why = "pointer target"; return false; } }
            else
            {
                if (x.v.lv.reg != y.v.lv.reg) { why = "pointer region changes"; return false; }
                Lin r; if (!interpOff(x.v.lv.reg, x.v.lv.off, y.v.lv.off, r)) return false;
                if (r != x.v.lv.off) out.objs.mut(p.first).v.lv.off = r;
            }
        }
    }
    for (auto& e : a.env)
    {
        auto it = b.env.find(e.first);
        if (it == b.env.end()) { out.env.erase(e.first); continue; }
        if (!sameLV(b.cs, e.second, it->second)) { why = "binding of " + e.first.second->getNameAsString() + " changes"; return false; }
    }
    for (auto& p : b.regs.v) if (!a.regs.has(p.first) && p.second->k == Region::Heap) { why = "allocation inside the loop"; return false; }
    for (auto& p : a.regs.v)
    {
        if (!b.regs.has(p.first)) { if (p.second->k == Region::Heap) { why = "block released inside the loop"; return false; } out.regs.erase(p.first); continue; }
        if (p.second == b.regs.v[b.regs.find(p.first)].second) continue; // shared, unchanged
        State ca = a, cb = b;
        compact(ca, p.first); compact(cb, p.first);
        Region x = ca.regs.at(p.first), y = cb.regs.at(p.first);
        {
            // a replaced block that is exactly full in both: its free tail is empty
            auto it = sizeSym.find(p.first); Lin r;
            bool xl = x.segs.back().live, yl = y.segs.back().live;
            if (it != sizeSym.end() && it->second >= 0 && (xl || yl) && interp(x.size, y.size, r))
            {
                if (xl) { Seg g; g.lo = x.size; x.segs.push_back(g); }
                if (yl) { Seg g; g.lo = y.size; y.segs.push_back(g); }
            }
            else if (it != sizeSym.end() && it->second >= 0 && xl != yl)
            {
                if (xl) { Seg g; g.lo = x.size; x.segs.push_back(g); } else { Seg g; g.lo = y.size; y.segs.push_back(g); }
            }
        }
        if (x.segs.size() != y.segs.size()) { why = "piece structure of " + x.name + " differs (" + std::to_string(x.segs.size()) + " vs " + std::to_string(y.segs.size()) + ")"; return false; }
        Region r = x;
        { auto it = sizeSym.find(p.first); if (it != sizeSym.end() && it->second >= 0) r.size = Lin::sym(it->second); }
        for (size_t i = 0; i < x.segs.size(); ++i)
        {
            if (x.segs[i].live != y.segs[i].live || x.segs[i].freed != y.segs[i].freed) { why = "piece state of " + x.name; return false; }
            if (i && !interp(x.segs[i].lo, y.segs[i].lo, r.segs[i].lo)) return false;
            if (!x.segs[i].live) continue;
            auto& cx = x.segs[i].c; auto& cy = y.segs[i].c;
            if (cx.k == Content::Unk || cy.k == Content::Unk) { r.segs[i].c = Content::unk(); continue; }
            if (cx.k == Content::Seq && cy.k == Content::Seq)
            {
                if (cx.seq != cy.seq) { why = "piece source of " + x.name; return false; }
                if (!interp(cx.shift, cy.shift, r.segs[i].c.shift)) return false;
                continue;
            }
            auto asVal = [&](const Region& R, size_t q, const State& st) -> TermP
            {
                auto& c = R.segs[q].c; if (c.k == Content::Val) return c.term;
                Lin hi = q + 1 < R.segs.size() ? R.segs[q + 1].lo : R.size;
                if (c.k == Content::Seq && st.cs.entailsEq(hi, R.segs[q].lo + Lin(1))) return tElem(c.seq, R.segs[q].lo + c.shift);
                return nullptr;
            };
            TermP tx = asVal(x, i, ca), ty = asVal(y, i, cb);
            if (!tx || !ty) { why = "piece content kind of " + x.name; return false; }
            if (termEq(cb.cs, tx, ty)) { r.segs[i].c = Content::val(tx); continue; }
            if (tx->k == Term::Elem && ty->k == Term::Elem && tx->id == ty->id) { Lin q; if (!interp(tx->idx, ty->idx, q)) return false; r.segs[i].c = Content::val(tElem(tx->id, q)); continue; }
            r.segs[i].c = Content::unk();
        }
        out.regs.put(p.first, r);
    }
    out.eff |= b.eff; out.touched.insert(b.touched.begin(), b.touched.end()); out.readFrom.insert(b.readFrom.begin(), b.readFrom.end());
    for (auto& c : b.cmp) { bool have = false; for (auto& d : out.cmp) if (d.L == c.L) have = true; (void)have; }
    if (b.imprecise) out.blur(b.why);
    for (auto& e : ex) { int id = nextReg++; renameRegion(out, e.reg, id); out.freed.push_back(e.reg); e.reg = id; }
    return true;
}

void Interp::renameRegion(State& s, int from, int to) const
{
    if (from == to) return;
    for (auto& p : s.objs.v)
    {
        auto& o = *p.second;
        if (o.k == ObjN::Scalar && o.v.k == Val::Ptr && o.v.lv.k == LV::Cell && o.v.lv.reg == from) s.objs.mut(p.first).v.lv.reg = to;
        if (o.k == ObjN::RefK && o.ref.k == LV::Cell && o.ref.reg == from) s.objs.mut(p.first).ref.reg = to;
    }
    for (auto& e : s.env) if (e.second.k == LV::Cell && e.second.reg == from) e.second.reg = to;
    Region r = s.regs.at(from); s.regs.erase(from); s.regs.put(to, r);
    if (s.touched.count(from)) s.touched.insert(to);
    if (s.readFrom.count(from)) s.readFrom.insert(to);
}

// Replaces adjacent live pieces by one piece whose content is a named snapshot of them.
bool Interp::snapshot(State& s)
{
    bool any = false;
    std::vector<int> ids; for (auto& p : s.regs.v) ids.push_back(p.first);
    for (int id : ids)
    {
        if (s.regs.at(id).k == Region::Null || s.regs.at(id).table) continue;
        compact(s, id);
        Region R = s.regs.at(id); std::vector<Seg> o; bool ch = false;
        for (size_t i = 0; i < R.segs.size();)
        {
            size_t j = i; while (j < R.segs.size() && R.segs[j].live && R.segs[i].live) ++j;
            if (j <= i + 1) { o.push_back(R.segs[i]); ++i; continue; }
            SeqInfo q; q.name = "snap" + std::to_string(gSeqs.size()); Lin hi = j < R.segs.size() ? R.segs[j].lo : R.size; q.size = hi; gSeqs.push_back(q); int sq = (int)gSeqs.size() - 1;
            s.seqDefs[sq] = {std::vector<Seg>(R.segs.begin() + i, R.segs.begin() + j), hi};
            Seg g = R.segs[i]; g.c = Content::ofSeq(sq, 0); o.push_back(g); ch = true; i = j;
        }
        if (ch) { s.regs.mut(id).segs = o; any = true; }
    }
    return any;
}

static TermP substTerm(TermP t, int k, const Lin& v)
{
    bool ch = t->idx.coef(k) != 0;
    std::vector<TermP> sub; for (auto& x : t->sub) { auto y = substTerm(x, k, v); if (y != x) ch = true; sub.push_back(y); }
    if (!ch) return t;
    return mkTerm(t->k, t->id, t->idx.subst(k, v), sub);
}
State Interp::substSym(const State& g, int k, const Lin& v) const
{
    State s = g;
    for (auto& p : s.objs.v)
    {
        auto& o = *p.second;
        if (o.k == ObjN::Scalar && ((o.v.k == Val::Int && o.v.i.coef(k)) || (o.v.k == Val::Ptr && o.v.lv.k == LV::Cell && o.v.lv.off.coef(k))))
        {
            auto& m = s.objs.mut(p.first);
            if (m.v.k == Val::Int) m.v.i = m.v.i.subst(k, v); else m.v.lv.off = m.v.lv.off.subst(k, v);
        }
    }
    for (auto& p : s.regs.v)
    {
        bool need = false;
        for (auto& g2 : p.second->segs) if (g2.lo.coef(k) || (g2.c.k == Content::Seq && g2.c.shift.coef(k)) || (g2.c.k == Content::Val)) need = true;
        if (!need) continue;
        auto& m = s.regs.mut(p.first);
        for (auto& g2 : m.segs) { g2.lo = g2.lo.subst(k, v); if (g2.c.k == Content::Seq) g2.c.shift = g2.c.shift.subst(k, v); if (g2.c.k == Content::Val) g2.c.term = substTerm(g2.c.term, k, v); }
    }
    return s;
}

// the blocks and sizes of `n` that instantiate the existential blocks of `g`
bool Interp::instantiate(const State& n, const State& g, const std::vector<Exist>& ex, std::map<int, int>& m) const
{
    for (auto& e : ex)
    {
        int found = -1;
        for (auto& p : g.objs.v)
        {
            auto& y = *p.second;
            if (y.k != ObjN::Scalar || !y.v.isPtrCell() || y.v.lv.reg != e.reg || !n.objs.has(p.first)) continue;
            auto& x = n.objs.at(p.first);
            if (x.k != ObjN::Scalar || !x.v.isPtrCell() || (found >= 0 && found != x.v.lv.reg)) return false;
            found = x.v.lv.reg;
        }
        if (found < 0 || !n.regs.has(found)) return false;
        auto& R = n.regs.at(found); auto& Q = g.regs.at(e.reg);
        if (R.k != Q.k || R.owner != Q.owner) return false;
        m[e.reg] = found;
    }
    return true;
}

bool Interp::subsumed(const State& n, const State& g0, int k, const Lin& kval, std::string& why, const std::vector<Exist>& ex) const
{
    State g = k >= 0 ? substSym(g0, k, kval) : g0;
    std::map<int, int> im;
    if (!instantiate(n, g, ex, im)) { why = "no block to match"; return false; }
    for (auto& e : ex)
    {
        int to = im[e.reg];
        if (to != e.reg) { if (g.regs.has(to)) { why = "block clash"; return false; } renameRegion(g, e.reg, to); }
        if (e.sym >= 0) { g = substSym(g, e.sym, n.regs.at(to).size); g.regs.mut(to).size = n.regs.at(to).size; }
        if (!n.cs.entailsEq(g.regs.at(to).size, n.regs.at(to).size)) { why = "block size"; return false; }
    }
    for (auto& p : g.objs.v)
    {
        auto& y = *p.second;
        if (!n.objs.has(p.first)) { why = "object missing"; return false; }
        auto& x = n.objs.at(p.first);
        if (x.k != y.k) { why = "object kind"; return false; }
        if (y.k == ObjN::RefK) { if (!sameLV(n.cs, x.ref, y.ref)) { why = "reference"; return false; } continue; }
        if (y.k == ObjN::Token) { if (x.v.k != y.v.k || x.v.tok != y.v.tok) { why = "token"; return false; } continue; }
        if (y.k != ObjN::Scalar) continue;
        if (y.v.k == Val::Unk || y.v.k == Val::Nondet) continue;
        if (x.v.k != y.v.k) { why = "value kind of obj" + std::to_string(p.first); return false; }
        if (y.v.k == Val::Int && !n.cs.entailsEq(x.v.i, y.v.i)) { why = "obj" + std::to_string(p.first) + ": " + x.v.i.str() + " vs " + y.v.i.str(); return false; }
        if (y.v.k == Val::Ptr && !sameLV(n.cs, x.v.lv, y.v.lv)) { why = "obj" + std::to_string(p.first) + ": " + x.v.str() + " vs " + y.v.str(); return false; }
    }
    for (auto& e : g.env) { auto it = n.env.find(e.first); if (it == n.env.end() || !sameLV(n.cs, it->second, e.second)) { why = "binding"; return false; } }
    for (auto& p : g.regs.v)
    {
        if (!n.regs.has(p.first)) { why = "region missing"; return false; }
        int i = n.regs.find(p.first);
        if (n.regs.v[i].second == p.second) continue;
        auto& x = *n.regs.v[i].second; auto& y = *p.second;
        bool ok = true;
        forIntersections(n.cs, x.segs, x.size, y.segs, y.size, [&](const CS& c, const Lin& lo, const Lin& hi, int a, int b)
        {
            if (x.segs[a].live != y.segs[b].live || x.segs[a].freed != y.segs[b].freed) { ok = false; why = "lifetime pieces of " + x.name + " [" + lo.str() + "," + hi.str() + ")"; return false; }
            if (!x.segs[a].live || y.segs[b].c.k == Content::Unk) return true;
            std::string w;
            if (pieceMismatch(c, n, x.segs[a].c, lo, hi, y.segs[b].c, w)) { ok = false; why = "contents of " + x.name + " " + w; return false; }
            return true;
        });
        if (!ok) return false;
    }
    for (auto& p : n.regs.v) if (!g.regs.has(p.first) && p.second->k == Region::Heap) { why = "extra block"; return false; }
    return true;
}

std::string Interp::fingerprint(const State& s) const { return ""; }
void Interp::dedupe(SS&) {}
void Interp::dedupe(RS&) {}

Flow Interp::execLoop(State s, const Expr* cond, const Expr* inc, const Stmt* body, bool doWhile, const VarDecl* cv)
{
    if (!unroll && !doWhile && usesPublicMembers(body, inc))
    {
        State t = s; SourceLocation l = curLoc; int m = muted; auto* sk = sink; auto* cl = cmpLog; size_t nt = sink ? sink->size() : 0;
        try { return execLoopInv(std::move(t), cond, inc, body); }
        catch (NotSummarised&) { muted = m; sink = sk; cmpLog = cl; curLoc = l; if (sink) sink->resize(nt); }
    }
    State t = s; SourceLocation l = curLoc; int m = muted; auto* sk = sink; auto* cl = cmpLog; size_t nt = sink ? sink->size() : 0;
    try { return execLoop1(std::move(t), cond, inc, body, doWhile, cv); }
    catch (NotSummarised& e)
    {
        muted = m; sink = sk; cmpLog = cl; curLoc = l; if (sink) sink->resize(nt);
        if (getenv("SFLSA_LOOPS")) llvm::errs() << "[loop] retry with snapshots: " << e.what << "\n";
        if (!snapshot(s)) throw Unsupported{e.what};
        try { return execLoop1(std::move(s), cond, inc, body, doWhile, cv); }
        catch (NotSummarised& e2) { throw Unsupported{e2.what}; }
    }
}

Flow Interp::execLoop1(State s, const Expr* cond, const Expr* inc, const Stmt* body, bool doWhile, const VarDecl*)
{
    Flow f;
    ++nLoops;
    SourceLocation loopLoc = curLoc;
    auto mv = [](auto& a, auto& b) { for (auto& x : b) a.push_back(std::move(x)); };
    struct It { SS exits, next, brk; RS ret; std::vector<Thrown> thr; };
    auto test = [&](State st, SS& yes, SS& no)
    {
        if (!cond) { yes.push_back(std::move(st)); return; }
        size_t d = st.scopes.size(); st.scopes.push_back({});
        std::vector<std::pair<State, bool>> c; evalCond(std::move(st), cond, c);
        for (auto& p : c) for (auto& y : popScope(std::move(p.first), d)) (p.second ? yes : no).push_back(std::move(y));
    };
    auto doBody = [&](SS in, It& it, SS& after)
    {
        for (auto& x : in)
        {
            size_t d = x.scopes.size();
            Flow g = exec(std::move(x), body);
            SS nx = std::move(g.next);
            for (auto& c : g.cont) for (auto& y : popScope(std::move(c), d)) nx.push_back(std::move(y));
            for (auto& c : g.brk) for (auto& y : popScope(std::move(c), d)) it.brk.push_back(std::move(y));
            mv(it.ret, g.ret);
            for (auto& y : nx)
            {
                if (!inc) { after.push_back(std::move(y)); continue; }
                size_t d2 = y.scopes.size(); y.scopes.push_back({});
                for (auto& z : evalDiscard(std::move(y), inc)) for (auto& w : popScope(std::move(z), d2)) after.push_back(std::move(w));
            }
        }
    };
    auto iter = [&](State st) -> It
    {
        It it; auto* save = sink; sink = &it.thr;
        try
        {
            SS yes, after;
            if (!doWhile) { test(std::move(st), yes, it.exits); doBody(std::move(yes), it, it.next); }
            else { SS one; one.push_back(std::move(st)); doBody(std::move(one), it, after); for (auto& x : after) test(std::move(x), it.next, it.exits); }
        }
        catch (...) { sink = save; throw; }
        sink = save;
        return it;
    };
    auto emit = [&](It& it)
    {
        mv(f.next, it.exits); mv(f.next, it.brk); mv(f.ret, it.ret);
        if (sink) for (auto& t : it.thr) sink->push_back(std::move(t));
    };
    auto traceDebug = getenv("SFLSA_LOOPS") != nullptr;

    if (unroll)
    {
        // confirmation mode: follow the first iterations exactly, drop longer executions
        SS cur; cur.push_back(std::move(s));
        for (int i = 0; i < unroll && !cur.empty(); ++i)
        {
            SS nx;
            for (auto& x : cur) { It it = iter(std::move(x)); mv(nx, it.next); emit(it); if (tick()) throw Unsupported{"confirmation budget"}; }
            cur = std::move(nx);
        }
        // one more test of the condition lets executions of exactly `unroll` iterations leave
        if (!doWhile) for (auto& x : cur) { It it; auto* save = sink; sink = &it.thr; SS yes; test(std::move(x), yes, it.exits); sink = save; emit(it); }
        return f;
    }
    if (spec && spec->ci.unord)
    {
        // facts about keys that do not change in the loop are stated before it
        int n0 = (int)symNames.size(); unsigned long long mr = mutedReports;
        ++muted; It t; auto* cl = cmpLog; cmpLog = nullptr;
        try { t = iter(s); } catch (...) { --muted; mutedReports = mr; cmpLog = cl; throw; }
        --muted; mutedReports = mr; cmpLog = cl;
        size_t c0 = s.cmp.size(); std::vector<CmpFact> add;
        std::function<bool(const TermP&)> old = [&](const TermP& x) { for (auto& y : x->idx.t) if (y.first >= n0) return false; for (auto& y : x->sub) if (!old(y)) return false; return true; };
        for (auto* v : {&t.next, &t.exits}) for (auto& x : *v) for (size_t i = c0; i < x.cmp.size(); ++i) if (old(x.cmp[i].key)) add.push_back(x.cmp[i]);
        for (auto& a : add) eqFact(s, a.tok, a.key, a.seq);
    }
    It I0 = iter(s);
    if (I0.next.empty()) { emit(I0); return f; }

    bool anyPeeled = false;
    bool covered0 = false;
    std::vector<It> results;
    // handle each successor of the first iteration
    SS work = std::move(I0.next);
    int unrolled = 0, families = 0;
    while (!work.empty())
    {
        State S1 = std::move(work.back()); work.pop_back();
        if (covered0 && false) break;
        // already covered by an accepted generalisation?
        unsigned long long mrS = mutedReports;
        ++muted; It I1; 
        try { I1 = iter(S1); } catch (...) { --muted; throw; }
        --muted; mutedReports = mrS;
        if (I1.next.empty()) { It r = iter(S1); results.push_back(std::move(r)); anyPeeled = true; continue; }
        bool done = false; std::string why; SS extra;
        // successors that replace a block first: their family also contains those that do not
        std::stable_sort(I1.next.begin(), I1.next.end(), [&](const State& x, const State& y)
        {
            auto rep = [&](const State& z) { std::map<int, int> m; std::string w; return blockMap(S1, z, m, w) && !m.empty(); };
            return rep(x) && !rep(y);
        });
        for (size_t c = 0; c < I1.next.size() && !done; ++c) for (int choice = 0, nAmb = 0; !done && choice < (1 << std::min(nAmb, 3)); ++choice)
        {
            int k = newLoopSym("k" + std::to_string(symNames.size()));
            State G; std::vector<Exist> ex;
            if (!generalise(S1, I1.next[c], k, G, why, ex, choice, nAmb)) continue;
            // does the family also contain the loop-entry state (k = -1)?
            bool cov = false; std::string w0;
            {
                State S0 = s;
                if (subsumed(S0, G, k, Lin(-1), w0, ex)) { cov = true; G = substSym(G, k, Lin::sym(k) - Lin(1)); }
            }
            if (traceDebug) llvm::errs() << "[loop " << locStr(loopLoc) << "] generalised, covers entry: " << cov << " " << w0 << "\n";
            CS base = cov ? s.cs : S1.cs;
            base.add(Lin::sym(k));
            // candidate invariants
            std::vector<Lin> log; auto* saveLog = cmpLog; 
            G.cs = base; G.gen = true;
            ++muted; cmpLog = &log;
            It probe;
            try { probe = iter(G); } catch (...) { cmpLog = saveLog; --muted; throw; }
            cmpLog = saveLog; --muted; mutedReports = mrS;
            std::vector<Lin> cand;
            auto addCand = [&](const Lin& e)
            {
                if (e.c > SEG_HI.c / 2 || e.c < -SEG_HI.c / 2) return;
                bool uses = e.coef(k) != 0; Lin e0 = e.subst(k, Lin(0));
                for (auto& x : ex) if (x.sym >= 0 && e.coef(x.sym)) { uses = true; e0 = e0.subst(x.sym, x.init); }
                if (!uses || !base.entails(e0)) return;
                for (auto& x : cand) if (x == e) return;
                cand.push_back(e);
            };
            for (auto& e : log) { addCand(e); addCand(-e); addCand(e + Lin(1)); addCand(-e + Lin(1)); }
            for (auto& x : ex) if (x.sym >= 0)
            {
                Lin c = Lin::sym(x.sym); auto& R = G.regs.at(x.reg);
                addCand(c - Lin(1)); if (maxszSym >= 0 && !R.table) addCand(Lin::sym(maxszSym) - c);
                for (auto& g : R.segs) addCand(c - g.lo);
            }
            if (cand.size() > 60) cand.resize(60);
            const std::vector<Lin> cand0 = cand; std::vector<Lin> guards; bool pieces = false;
            // attempt -1: every successor stays in the family; later attempts: successors for which a condition
            // that decreases with the iterations no longer holds start families of their own
            for (int at = -1; at < (int)guards.size() && !done; ++at)
            {
            cand = cand0; pieces = false;
            auto leaves = [&](const State& n) { if (at < 0) return false; Lin g = guards[at].subst(k, Lin::sym(k) + Lin(1)); return n.cs.entails(-g - Lin(1)); };
            bool stable = false; It fin; bool inductive = false; bool dirty = false; std::vector<size_t> leave;
            for (int round = 0; round < 12 && !stable; ++round)
            {
                G.cs = base; for (auto& e : cand) G.cs.add(e);
                if (traceDebug) { llvm::errs() << "   round " << round << " cands " << cand.size() << ":"; for (auto& e : cand) llvm::errs() << "  " << e.str(); llvm::errs() << "\n"; }
                unsigned long long mr0 = mutedReports;
                ++muted; It t;
                try { t = iter(G); } catch (...) { --muted; throw; }
                --muted; dirty = mutedReports != mr0; mutedReports = mr0;
                std::vector<Lin> keep;
                for (auto& e : cand)
                {
                    Lin e1 = e.subst(k, Lin::sym(k) + Lin(1)); bool ok = true;
                    for (auto& n : t.next)
                    {
                        std::map<int, int> im; Lin e2 = e1;
                        if (leaves(n) || shapeDiffers(n, G, ex) || !instantiate(n, G, ex, im)) continue; // another shape: handled separately
                        for (auto& x : ex) if (x.sym >= 0) e2 = e2.subst(x.sym, n.regs.at(im[x.reg]).size);
                        if (!n.cs.entails(e2)) { ok = false; break; }
                    }
                    if (ok) keep.push_back(e);
                }
                if (keep.size() == cand.size())
                {
                    stable = true; inductive = true; leave.clear();
                    for (size_t q = 0; q < t.next.size(); ++q) if (!subsumed(t.next[q], G, k, Lin::sym(k) + Lin(1), why, ex))
                    {
                        // a successor whose storage has another shape starts a family of its own
                        if (leaves(t.next[q]) || shapeDiffers(t.next[q], G, ex)) { leave.push_back(q); continue; }
                        inductive = false; pieces = why.compare(0, 8, "contents") == 0 || why.compare(0, 8, "lifetime") == 0; break;
                    }
                }
                cand = keep;
            }
            if (!inductive)
            {
                if (traceDebug) llvm::errs() << "[loop " << locStr(loopLoc) << "] not inductive: " << why << "\n";
                if (at < 0 && pieces && gSegN) for (auto& e : cand0) if (e.coef(k) == -1 && e.t.size() >= 2 && guards.size() < 24) guards.push_back(e);
                continue;
            }
            // a family with replaced blocks in which the body fails is a bad guess
            if (!ex.empty() && dirty) { why = "the body fails in the guessed family"; continue; }
            if (!leave.empty() && ++families > 8) { why = "too many storage shapes"; continue; }
            fin = iter(G);
            for (size_t q : leave) if (q < fin.next.size()) extra.push_back(std::move(fin.next[q]));
            results.push_back(std::move(fin));
            if (cov) covered0 = true; else anyPeeled = true;
            done = true;
            if (cov)
            {
                // other successors of the entry state may be members of the family too
                SS rest;
                for (auto& o : work) { std::string w; State G1 = G; if (!subsumed(o, G1, k, Lin(1), w, ex)) rest.push_back(std::move(o)); }
                work = std::move(rest);
            }
            }
        }
        if (done) { for (auto& x : extra) work.push_back(std::move(x)); extra.clear(); }
        if (!done)
        {
            // peel a few iterations: the state shape may settle later
            if (++unrolled <= 6)
            {
                It r = iter(S1);
                SS nx = std::move(r.next); r.next.clear();
                results.push_back(std::move(r)); anyPeeled = true;
                for (auto& x : nx) work.push_back(std::move(x));
                continue;
            }
            throw NotSummarised{"loop at " + locStr(loopLoc) + " not summarised: " + why};
        }
    }
    if (!covered0 || anyPeeled) emit(I0);
    for (auto& r : results) emit(r);
    return f;
}
