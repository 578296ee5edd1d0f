// Loops whose body works on a container through its public members: the container is replaced, at the loop head, by an
// arbitrary valid container, and every iteration is checked to leave a valid one behind.
#include "spec.hpp"
using namespace clang;

namespace
{
struct FindMember
{
    const CXXRecordDecl* rd; bool found = false;
    void walk(const Stmt* st)
    {
        if (!st || found) return;
        const FunctionDecl* fd = nullptr;
        if (auto* ce = dyn_cast<CallExpr>(st)) fd = ce->getDirectCallee();
        if (auto* md = dyn_cast_or_null<CXXMethodDecl>(fd))
            if (!md->isStatic() && !md->isConst() && md->getParent()->getCanonicalDecl() == rd->getCanonicalDecl() && md->getAccess() == AS_public)
            {
                std::string n = md->getNameAsString();
                if (n != "begin" && n != "end" && n != "data" && n != "front" && n != "back" && n != "operator[]" && n != "nth" && n != "at") { found = true; return; }
            }
        for (auto* c : st->children()) walk(c);
    }
};
}

bool Interp::usesPublicMembers(const Stmt* body, const Expr* inc) const
{
    if (!spec) return false;
    FindMember f{spec->ci.rd}; f.walk(body); f.walk(inc);
    return f.found;
}

Flow Interp::execLoopInv(State s, const Expr* cond, const Expr* inc, const Stmt* body)
{
    Flow f; ++nLoops;
    SourceLocation loopLoc = curLoc;
    Spec& S = *spec; const CInfo& ci = S.ci;
    auto mv = [](auto& a, auto& b) { for (auto& x : b) a.push_back(std::move(x)); };
    struct It { SS exits, next, brk; RS ret; std::vector<Thrown> thr; };
    auto test = [&](State st, SS& yes, SS& no)
    {
        if (!cond) { yes.push_back(std::move(st)); return; }
        size_t d = st.scopes.size(); st.scopes.push_back({});
        std::vector<std::pair<State, bool>> c; evalCond(std::move(st), cond, c);
        for (auto& p : c) for (auto& y : popScope(std::move(p.first), d)) (p.second ? yes : no).push_back(std::move(y));
    };
    auto iter = [&](State st) -> It
    {
        It it; auto* save = sink; sink = &it.thr;
        try
        {
            SS yes; test(std::move(st), yes, it.exits);
            for (auto& x : yes)
            {
                size_t d = x.scopes.size();
                Flow g = exec(std::move(x), body);
                SS nx = std::move(g.next);
                for (auto& c : g.cont) for (auto& y : popScope(std::move(c), d)) nx.push_back(std::move(y));
                for (auto& c : g.brk) for (auto& y : popScope(std::move(c), d)) it.brk.push_back(std::move(y));
                mv(it.ret, g.ret);
                for (auto& y : nx)
                {
                    if (!inc) { it.next.push_back(std::move(y)); continue; }
                    size_t d2 = y.scopes.size(); y.scopes.push_back({});
                    for (auto& z : evalDiscard(std::move(y), inc)) for (auto& w : popScope(std::move(z), d2)) it.next.push_back(std::move(w));
                }
            }
        }
        catch (...) { sink = save; throw; }
        sink = save; return it;
    };
    auto emit = [&](It& it)
    {
        mv(f.next, it.exits); mv(f.next, it.brk); mv(f.ret, it.ret);
        if (sink) for (auto& t : it.thr) sink->push_back(std::move(t));
    };
    auto muteGuard = [&](auto fn) { unsigned long long mr = mutedReports; ++muted; try { fn(); } catch (...) { --muted; mutedReports = mr; throw; } --muted; mutedReports = mr; };

    It I0 = iter(s);
    SS first = I0.next; emit(I0);
    if (first.empty()) return f;
    // loops that always stop after the first iteration are followed exactly
    bool stops = true;
    muteGuard([&] { for (auto& x : first) { SS y, n; test(x, y, n); if (!y.empty()) stops = false; } });
    if (stops) { for (auto& x : first) { It it; auto* save = sink; sink = &it.thr; SS y; test(x, y, it.exits); sink = save; emit(it); } return f; }

    auto fail = [&](const std::string& w) { throw Unsupported{"loop at " + locStr(loopLoc) + " not summarised: " + w}; };
    // the container the body works on
    int obj = -1;
    for (auto& p : s.objs.v)
    {
        if (p.second->k != ObjN::Record || p.second->rd->getCanonicalDecl() != ci.rd->getCanonicalDecl()) continue;
        bool changed = false; View v0; 
        int data = fieldByName(s, p.first, "data_"); int l = data >= 0 ? fieldByName(s, data, "last_") : -1; if (l < 0 || s.objs.at(l).v.k == Val::Uninit) continue;
        muteGuard([&] { if (!S.view(s, p.first, v0, "container", false)) fail("container not valid before the loop"); });
        for (auto& x : first)
        {
            View v1; bool ok = true; muteGuard([&] { ok = S.view(x, p.first, v1, "container", false); }); if (!ok) fail("container not valid after one iteration");
            if (v1.k != v0.k || v1.reg != v0.reg || !x.cs.entailsEq(v1.f, v0.f) || !x.cs.entailsEq(v1.l, v0.l) || x.touched.count(v0.reg)) changed = true;
        }
        if (!changed) continue;
        if (obj >= 0) fail("two containers change");
        obj = p.first;
    }
    if (obj < 0) throw NotSummarised{"no container changes"};
    View V0; muteGuard([&] { S.view(s, obj, V0, "container", false); });
    int tk = ci.hasAlloc ? S.tokenOf(s, obj, "alloc") : -1, cp = ci.keyed ? S.tokenOf(s, obj, "comp") : -1;
    int data = fieldByName(s, obj, "data_"); std::set<int> inside; { std::vector<int> todo = {data}; while (!todo.empty()) { int o = todo.back(); todo.pop_back(); inside.insert(o); for (int y : s.objs.at(o).subs) todo.push_back(y); } }
    int inlReg = -1; for (int o : inside) if (s.objs.at(o).k == ObjN::ElemBox) inlReg = s.objs.at(o).reg;
    std::vector<View> V1; for (auto& x : first) { View v; muteGuard([&] { S.view(x, obj, v, "container", false); }); V1.push_back(v); }
    // how the other values change
    enum How { Same, Step, Posn, IntAny, Forget };
    std::map<int, std::pair<How, i64>> how;
    bool replaced = false; for (auto& v : V1) if (v.reg != V0.reg) replaced = true;
    for (auto& p : s.objs.v)
    {
        if (inside.count(p.first) || p.second->k != ObjN::Scalar) continue;
        auto& x = p.second->v; How h = Same; i64 step = 0;
        bool inC0 = x.isPtrCell() && x.lv.reg == V0.reg && V0.k != View::Null;
        bool allC1 = true, allEq = true, lin = true, have = false; 
        for (size_t i = 0; i < first.size(); ++i)
        {
            if (!first[i].objs.has(p.first)) { h = Forget; continue; }
            auto& y = first[i].objs.at(p.first).v; have = true;
            bool inC1 = y.isPtrCell() && y.lv.reg == V1[i].reg;
            if (!inC1) allC1 = false;
            bool eq = x.k == y.k;
            if (eq && x.k == Val::Int) { eq = first[i].cs.entailsEq(x.i, y.i); }
            else if (eq && x.k == Val::Ptr) eq = x.lv.k == y.lv.k && (x.lv.k == LV::Obj ? x.lv.obj == y.lv.obj : x.lv.reg == y.lv.reg && x.lv.path == y.lv.path && first[i].cs.entailsEq(x.lv.off, y.lv.off));
            else if (eq && x.k != Val::Uninit && x.k != Val::Fn && x.k != Val::Unk && x.k != Val::Nondet) eq = false;
            if (!eq) allEq = false;
            Lin d; bool dk = false;
            if (x.k == Val::Int && y.k == Val::Int) { d = y.i - x.i; dk = true; }
            else if (x.isPtrCell() && y.isPtrCell() && x.lv.reg == y.lv.reg) { d = y.lv.off - x.lv.off; dk = true; }
            if (!dk || !d.isConst()) lin = false; else { if (i && step != (i64)d.c) lin = false; step = (i64)d.c; }
        }
        if (!have) h = Forget;
        if (h != Forget)
        {
            bool inC = inC0 || (x.isPtrCell() && V0.k == View::Null && x.lv.reg == 0 && !allEq);
            if (allEq && !(inC0 && (replaced))) h = Same;
            else if (inC && allC1) h = Posn;
            else if (inC) h = Forget;
            else if (lin) h = Step;
            else if (x.k == Val::Int) h = IntAny;
            else h = Forget;
        }
        how[p.first] = {h, step};
    }
    // single-pass ranges: every iteration consumes the next element
    std::map<int, std::pair<Lin, Content>> consumed;
    for (auto& p : s.regs.v)
    {
        if (p.first == V0.reg || p.first == inlReg) continue;
        State a = s; compact(a, p.first); auto& A = a.regs.at(p.first).segs; bool ok = A.back().live && A.back().c.k == Content::Seq && (A.size() == 1 || (A.size() == 2 && !A[0].live)); bool any = false;
        for (auto& x : first)
        {
            if (!ok || !x.regs.has(p.first)) { ok = false; break; }
            State b = x; compact(b, p.first); auto& B = b.regs.at(p.first).segs;
            if (B.size() == 2 && !B[0].live && B[1].live && x.cs.entailsEq(B[1].lo, A.back().lo + Lin(1)) && contentEq(b, A.back().c, B[1].c)) any = true; else if (!(B.size() == 1 && !B[0].live && x.cs.entailsEq(b.regs.at(p.first).size, A.back().lo + Lin(1)))) ok = false;
        }
        if (ok && any) consumed[p.first] = {A.back().lo, A.back().c};
    }
    struct Fam { State H; View v; Lin n; int seq; int k; std::map<int, Lin> pos; };
    auto build = [&](int shape, Fam& F) -> bool
    {
        State H = s; F.k = newLoopSym("k" + std::to_string(symNames.size())); Lin K = Lin::sym(F.k);
        H.cs.add(K); H.gen = true;
        // forget the old storage
        if (V0.k == View::Heap) { H.regs.erase(V0.reg); }
        if (inlReg >= 0) { Region& R = H.regs.mut(inlReg); R.segs.clear(); R.segs.push_back(Seg()); }
        S.fillContainer(H, obj, "c'", shape, tk, cp, F.v, F.seq, F.n);
        if (V0.k == View::Heap && shape == View::Heap && !replaced) { renameRegion(H, F.v.reg, V0.reg); F.v.reg = V0.reg; }
        for (auto& q : how)
        {
            auto& o = H.objs.mut(q.first);
            switch (q.second.first)
            {
            case Same: break;
            case Step: { Lin d = K * q.second.second; if (o.v.k == Val::Int) o.v.i = o.v.i + d; else o.v.lv.off = o.v.lv.off + d; break; }
            case Posn: { if (shape == View::Null) { o.v = Val::ptr(0, 0); break; } Lin p = Lin::sym(newLoopSym("at")); H.cs.add(p); H.cs.add(F.n - p); F.pos[q.first] = p; o.v = Val::ptr(F.v.reg, F.v.f + p); break; }
            case IntAny: { Lin p = Lin::sym(newLoopSym("int")); H.cs.add(p); H.cs.add(Lin((((I128)1) << 64) - 1) - p); o.v = Val::integer(p); break; }
            case Forget: o.v = Val::unk(); break;
            }
        }
        // other storage whose elements change
        for (auto& p : s.regs.v)
        {
            if (p.first == V0.reg || p.first == inlReg || !H.regs.has(p.first)) continue;
            bool ch = false; for (auto& x : first) { if (!x.regs.has(p.first)) { ch = true; continue; } if (x.regs.v[x.regs.find(p.first)].second == p.second) continue; State a = s, b = x; compact(a, p.first); compact(b, p.first); auto &A = a.regs.at(p.first).segs, &B = b.regs.at(p.first).segs; bool eq = A.size() == B.size(); for (size_t i = 0; eq && i < A.size(); ++i) eq = x.cs.entailsEq(A[i].lo, B[i].lo) && A[i].live == B[i].live && (!A[i].live || contentEq(b, A[i].c, B[i].c)); if (!eq) ch = true; }
            if (!ch) continue;
            if (consumed.count(p.first)) { Region& R = H.regs.mut(p.first); R.segs.clear(); R.segs.push_back(Seg()); Seg g; g.live = true; g.lo = consumed[p.first].first + K; g.c = consumed[p.first].second; R.segs.push_back(g); continue; }
            bool allLive = true; for (auto& g : p.second->segs) if (!g.live) allLive = false;
            if (!allLive) { fail("other storage changes"); return false; }
            Region& R = H.regs.mut(p.first); R.segs.clear(); Seg g; g.live = true; g.c = Content::unk(); R.segs.push_back(g);
        }
        for (auto& x : first) { H.eff |= x.eff; H.touched.insert(x.touched.begin(), x.touched.end()); H.readFrom.insert(x.readFrom.begin(), x.readFrom.end()); }
        H.touched.insert(F.v.reg);
        F.H = std::move(H); return F.H.cs.feasible2({});
    };
    std::set<int> todo, doneSh; todo.insert(V0.k); for (auto& v : V1) todo.insert(v.k);
    // invariants relate the size to the number of iterations; they are shared by all shapes
    Lin n0 = V0.n();
    std::vector<bool> rel(4, true); // n' <= n0+k, n' >= n0, n' <= n0, n' >= n0-k
    auto relOf = [&](int i, const Lin& n, const Lin& K) { return i == 0 ? n0 + K - n : i == 1 ? n - n0 : i == 2 ? n0 - n : n - n0 + K; };
    std::map<int, std::vector<Lin>> cands; // per shape, over symbol k of that family
    std::map<int, Fam> fams;
    for (int round = 0; ; ++round)
    {
        if (round > 14) fail("invariants do not settle");
        bool again = false;
        std::set<int> work = todo;
        for (int sh : work)
        {
            if (!fams.count(sh))
            {
                Fam F; if (!build(sh, F)) { todo.erase(sh); continue; }
                // candidate relations from the comparisons of one iteration
                std::vector<Lin> log; auto* saveLog = cmpLog; cmpLog = &log;
                State P = F.H;
                for (int i = 0; i < 4; ++i) if (rel[i]) P.cs.add(relOf(i, F.n, Lin::sym(F.k)));
                std::vector<Lin> c;
                auto collect = [&]
                {
                    for (auto& e0 : log) for (Lin e : {e0, -e0, e0 + Lin(1), -e0 + Lin(1)})
                    {
                        if (!e.coef(F.k)) continue;
                        bool own = false; for (auto& q : e.t) if (q.first > F.k) own = true; // mentions symbols of this family
                        if (own || !s.cs.entails(e.subst(F.k, Lin(0)))) continue;
                        bool have = false; for (auto& x : c) if (x == e) have = true; if (!have) c.push_back(e);
                    }
                };
                try
                {
                    muteGuard([&] { SS y, n; test(P, y, n); }); collect();
                    for (auto& e : c) P.cs.add(e);
                    muteGuard([&] { iter(P); }); collect();
                }
                catch (...) { cmpLog = saveLog; throw; }
                cmpLog = saveLog;
                if (c.size() > 30) c.resize(30);
                cands[sh] = c; fams[sh] = std::move(F); again = true;
            }
            Fam& F = fams[sh]; State G = F.H; Lin K = Lin::sym(F.k);
            for (int i = 0; i < 4; ++i) if (rel[i]) G.cs.add(relOf(i, F.n, K));
            for (auto& e : cands[sh]) G.cs.add(e);
            if (!G.cs.feasible2({})) continue;
            It t; muteGuard([&] { t = iter(G); });
            for (auto& n : t.next)
            {
                if (n.cs.unsat) continue;
                View v; bool ok = true; muteGuard([&] { ok = S.view(n, obj, v, "container", false); if (ok && ci.keyed) ok = S.checkOrder(n, v, cp, "container", true); });
                if (!ok && getenv("SFLSA_LOOPS")) llvm::errs() << "[inv] invalid after iteration: " << dump(n) << "\n";
                if (!ok) fail("an iteration does not leave a valid container");
                if (!todo.count(v.k)) { todo.insert(v.k); again = true; }
                if (ci.hasAlloc && S.tokenOf(n, obj, "alloc") != tk) fail("allocator changes");
                if (ci.keyed && S.tokenOf(n, obj, "comp") != cp) fail("comparison object changes");
                for (int i = 0; i < 4; ++i) if (rel[i] && !n.cs.entails(relOf(i, v.n(), K + Lin(1)))) { rel[i] = false; again = true; }
                std::vector<Lin> keep; for (auto& e : cands[sh]) { if (n.cs.entails(e.subst(F.k, K + Lin(1)))) keep.push_back(e); else again = true; }
                cands[sh] = keep;
                for (auto& p : n.regs.v) if (p.second->k == Region::Heap && p.first != v.reg && !G.regs.has(p.first)) fail("memory is lost in an iteration");
                for (auto& q : consumed)
                {
                    if (!n.regs.has(q.first)) fail("range vanishes");
                    State b = n; compact(b, q.first); auto& B = b.regs.at(q.first).segs; Lin want = q.second.first + K + Lin(1);
                    bool ok2 = B.size() == 2 && !B[0].live && B[1].live && n.cs.entailsEq(B[1].lo, want) && contentEq(b, q.second.second, B[1].c);
                    if (B.size() == 1 && !B[0].live && n.cs.entailsEq(b.regs.at(q.first).size, want)) ok2 = true;
                    if (!ok2) fail("range is not consumed element by element");
                }
                // the other values follow the pattern
                for (auto& q : how)
                {
                    if (q.second.first == Forget || !n.objs.has(q.first)) continue;
                    auto& x = n.objs.at(q.first).v; auto& g = G.objs.at(q.first).v;
                    switch (q.second.first)
                    {
                    case IntAny: if (x.k != Val::Int) fail("value kind"); break;
                    case Posn:
                        if (!x.isPtrCell() || x.lv.reg != v.reg) fail("iterator leaves the container");
                        if (v.k != View::Null && (!n.cs.entails(x.lv.off - v.f) || !n.cs.entails(v.l - x.lv.off))) fail("iterator leaves the container");
                        break;
                    default:
                        if (x.k != g.k) fail("value kind");
                        Lin d = K * 0; if (q.second.first == Step) d = Lin(q.second.second);
                        if (x.k == Val::Int && !n.cs.entailsEq(x.i, g.i + d)) fail("value step");
                        if (x.k == Val::Ptr)
                        {
                            if (x.lv.k != g.lv.k) fail("pointer kind");
                            if (x.lv.k == LV::Obj ? x.lv.obj != g.lv.obj : x.lv.reg != g.lv.reg || x.lv.path != g.lv.path || !n.cs.entailsEq(x.lv.off, g.lv.off + d)) { if (!(x.lv.k == LV::Cell && g.lv.reg == F.v.reg)) fail("pointer step"); }
                        }
                    }
                }
            }
        }
        if (getenv("SFLSA_LOOPS")) { llvm::errs() << "[inv " << locStr(loopLoc) << "] round " << round << " shapes " << todo.size() << " rel " << rel[0] << rel[1] << rel[2] << rel[3]; for (auto& c : cands) { llvm::errs() << " |"; for (auto& e : c.second) llvm::errs() << " " << e.str(); } llvm::errs() << "\n"; }
        if (!again) break;
    }
    for (int sh : todo)
    {
        if (!fams.count(sh)) continue;
        Fam& F = fams[sh]; State G = F.H; Lin K = Lin::sym(F.k);
        for (int i = 0; i < 4; ++i) if (rel[i]) G.cs.add(relOf(i, F.n, K));
        for (auto& e : cands[sh]) G.cs.add(e);
        if (!G.cs.feasible2({})) continue;
        It t = iter(G); emit(t);
    }
    return f;
}
