// Contracts of std:: algorithms over whole ranges: comparison of ranges and stable removal.
#include "interp.hpp"
using namespace clang;

int leafPtr(const State& s, int obj)
{
    auto& o = s.objs.at(obj);
    if (o.k == ObjN::Scalar) return obj;
    if (o.k != ObjN::Record) return -1;
    int found = -1;
    for (int x : o.subs) { int y = leafPtr(s, x); if (y >= 0) { if (found >= 0) return -1; found = y; } }
    return found;
}

std::map<std::pair<std::string, std::string>, std::pair<int, Lin>> gFilters;

// The elements of a run the predicate does not hold for, in their order.
std::pair<int, Lin> filterSeq(State& s, const std::string& run, const std::string& pred, const Lin& n, const SeqInfo* from)
{
    auto& f = gFilters[{run, pred}];
    if (!f.first)
    {
        SeqInfo q; q.name = "kept(" + run + "," + pred + ")"; f.second = Lin::sym(newSym("kept")); q.size = f.second;
        if (from) { q.keyTok = from->keyTok; q.unique = from->unique; q.mapLike = from->mapLike; q.sorted = from->sorted; }
        gSeqs.push_back(q); f.first = (int)gSeqs.size() - 1;
    }
    s.cs.add(f.second); s.cs.add(n - f.second);
    return f;
}

bool Interp::rangeAlg(State s0, const FunctionDecl* fd, const std::vector<const Expr*>& args, const LV* ret, RS& out)
{
    std::string m = fd->getNameAsString(); size_t na = args.size();
    bool eq = m == "equal", perm = m == "is_permutation", lex = m == "lexicographical_compare", rem = m == "remove" || m == "remove_if";
    if (!eq && !perm && !lex && !rem) return false;
    for (auto& b : bindArgs(std::move(s0), fd, args))
    {
        State& st = b.s;
        auto iter = [&](const LV& a) -> Val
        {
            if (a.k != LV::Obj) throw Unsupported{"iterators of std::" + m};
            int si = segItObj(st, a.obj);
            if (si >= 0) { Val v; if (!segItGet(st, si, v) || !v.isPtrCell()) throw Unsupported{"iterators of std::" + m}; return v; }
            int l = leafPtr(st, a.obj); if (l < 0) throw Unsupported{"iterators of std::" + m};
            Val v = load(st, LV::ofObj(l)); if (!v.isPtrCell()) throw Unsupported{"iterators of std::" + m};
            return v;
        };
        // the elements of cells [f, l): one run of a sequence; cells must be alive
        auto run = [&](State& t, int reg, const Lin& f, const Lin& l, int& seq, Lin& shift) -> int
        {
            if (!t.regs.has(reg)) { report(V_OOB, t, "range in a released block"); return 0; }
            const Region& R = t.regs.at(reg); int n = (int)R.segs.size(); seq = -1; bool odd = false;
            if (!R.segN) { require(t, f, V_OOB, "range begins before the block " + R.name); if (t.cs.unsat) return 0;
            require(t, R.size - l, V_OOB, "range extends beyond the block " + R.name); if (t.cs.unsat) return 0; }
            for (int i = 0; i < n; ++i)
            {
                Lin lo = R.segs[i].lo, hi = i + 1 < n ? R.segs[i + 1].lo : R.size;
                std::vector<Lin> c = {hi - lo - Lin(1), hi - f - Lin(1), l - lo - Lin(1), l - f - Lin(1)};
                if (!t.cs.feasible2(c)) continue;
                ++nObligations;
                if (!R.segs[i].live) { report(V_LIFE, t, "std::" + m + " over cells that hold no live element", c); return 0; }
                const Content& ct = R.segs[i].c;
                if (ct.k == Content::Seq && seq < 0 && !odd) { seq = ct.seq; shift = ct.shift; }
                else if (ct.k == Content::Seq && ct.seq == seq && t.cs.entailsEq(ct.shift, shift)) {}
                else odd = true;
            }
            return odd || seq < 0 ? -1 : 1;
        };
        auto name = [&](const State& t, int seq, const Lin& f, const Lin& l)
        {
            std::string r = "S" + std::to_string(seq);
            if (t.cs.entailsEq(f, 0) && t.cs.entailsEq(l, gSeqs[seq].size)) return r;
            return r + "[" + f.str() + "," + l.str() + ")";
        };
        Val f1 = iter(b.a[0]), l1 = iter(b.a[1]);
        if (f1.lv.reg != l1.lv.reg) { report(V_OOB, st, "range whose ends lie in different blocks"); continue; }
        Lin n1 = l1.lv.off - f1.lv.off;
        require(st, n1, V_OOB, "std::" + m + " over a reversed range"); if (st.cs.unsat) continue;
        if (rem)
        {
            std::vector<std::pair<State, bool>> sp; splitEq(std::move(st), n1, sp);
            auto result = [&](State x, const Lin& off)
            {
                Val v = f1; v.lv.off = off;
                if (ret) { copyObj(x, ret->obj, b.a[0].obj); { int si = segItObj(x, ret->obj); if (si >= 0) segItSet(x, si, v); else store(x, LV::ofObj(leafPtr(x, ret->obj)), v); } out.push_back({std::move(x), Val::ref(*ret)}); }
                else out.push_back({std::move(x), v});
            };
            for (auto& q : sp)
            {
                State& t = q.first;
                if (q.second) { result(std::move(t), f1.lv.off); continue; }
                int seq = -1; Lin sh; int k = run(t, f1.lv.reg, f1.lv.off, l1.lv.off, seq, sh);
                if (!k || t.cs.unsat) continue;
                if (k < 0) throw Unsupported{"std::" + m + " over contents that are not one run"};
                std::string rn = name(t, seq, f1.lv.off + sh, l1.lv.off + sh), pd; int tok = -1;
                if (m == "remove_if")
                {
                    if (b.a[2].k != LV::Obj) throw Unsupported{"predicate of std::remove_if"};
                    auto& po = t.objs.at(b.a[2].obj); if (po.k != ObjN::Token || po.v.k != Val::Tok) throw Unsupported{"predicate of std::remove_if"};
                    tok = po.v.tok; pd = "p" + std::to_string(tok);
                }
                else { auto ts = readTerm(t, b.a[2], "value"); if (ts.size() != 1) throw Unsupported{"value of std::remove"}; pd = "= " + ts[0].t->str(); }
                throwUser(t, EX_USER, m == "remove" ? "element comparison" : "predicate");
                QualType ety = t.regs.at(f1.lv.reg).ety;
                auto apply = [&](State x, std::vector<Seg> pcs) -> SS
                {
                    SS r;
                    for (auto& a : isolateRange(std::move(x), f1.lv.reg, f1.lv.off, l1.lv.off, "range"))
                    {
                        Region& R = a.s.regs.mut(f1.lv.reg);
                        R.segs.erase(R.segs.begin() + a.i, R.segs.begin() + a.j); R.segs.insert(R.segs.begin() + a.i, pcs.begin(), pcs.end());
                        a.s.touched.insert(f1.lv.reg); a.s.eff |= EF_ASSIGN | EF_MOVE; r.push_back(std::move(a.s));
                    }
                    return r;
                };
                auto seg = [&](const Lin& lo, Content c) { Seg g; g.lo = lo; g.live = true; g.c = c; return g; };
                if (typeOpThrows(ety, 4)) for (auto& x : apply(t, {seg(f1.lv.off, Content::unk())})) throwUser(x, EX_USER, "element assignment in std::" + m);
                // few elements whose predicate values are known
                const EqMask* em = nullptr; for (auto& e : t.eqMask) if (e.tok == tok && e.seq == seq && !e.key && rn == "S" + std::to_string(seq)) em = &e;
                if (em)
                {
                    std::vector<Seg> pcs; int kk = 0;
                    for (int i = 0; i < em->n; ++i) if (!(em->mask >> i & 1)) { pcs.push_back(seg(f1.lv.off + Lin(kk), Content::ofSeq(seq, Lin(i - kk) - f1.lv.off))); ++kk; }
                    if (kk < em->n) pcs.push_back(seg(f1.lv.off + Lin(kk), Content::unk()));
                    for (auto& x : apply(std::move(t), pcs)) result(std::move(x), f1.lv.off + Lin(kk));
                    continue;
                }
                auto fl = filterSeq(t, rn, pd, n1, &gSeqs[seq]); if (t.cs.unsat) continue;
                Lin mid = f1.lv.off + fl.second;
                // nothing removed, everything removed, or some
                for (int c = 0; c < 3; ++c)
                {
                    State x = t;
                    if (c == 0) x.cs.addEq(fl.second, n1); else if (c == 1) x.cs.addEq(fl.second, 0); else { x.cs.add(fl.second - Lin(1)); x.cs.add(n1 - fl.second - Lin(1)); }
                    if (x.cs.unsat || !x.cs.feasible2({})) continue;
                    std::vector<Seg> pcs;
                    if (c != 1) pcs.push_back(seg(f1.lv.off, Content::ofSeq(fl.first, -f1.lv.off)));
                    if (c != 0) pcs.push_back(seg(mid, Content::unk()));
                    for (auto& y : apply(std::move(x), pcs)) result(std::move(y), mid);
                }
            }
            continue;
        }
        Val f2 = iter(b.a[2]); bool four = false; Val l2;
        if (na >= 4) { QualType t3 = fd->getParamDecl(3)->getType().getNonReferenceType(), t2 = fd->getParamDecl(2)->getType().getNonReferenceType(); four = C.hasSameUnqualifiedType(t2, t3); }
        std::string with;
        if (na > (four ? 4u : 3u)) { auto& a = b.a[four ? 4 : 3]; if (a.k != LV::Obj || st.objs.at(a.obj).k != ObjN::Token) throw Unsupported{"predicate of std::" + m}; with = "@" + std::to_string(st.objs.at(a.obj).v.tok) + " "; }
        Lin n2 = n1;
        if (four) { l2 = iter(b.a[3]); if (f2.lv.reg != l2.lv.reg) { report(V_OOB, st, "range whose ends lie in different blocks"); continue; } n2 = l2.lv.off - f2.lv.off; require(st, n2, V_OOB, "std::" + m + " over a reversed range"); if (st.cs.unsat) continue; }
        auto done = [&](State x, bool v) { out.push_back({std::move(x), Val::integer(Lin(v ? 1 : 0))}); };
        std::vector<std::pair<State, bool>> sp;
        if (!lex && four)
        {
            std::vector<std::pair<State, bool>> q; splitEq(std::move(st), n1 - n2, q);
            for (auto& x : q) if (!x.second) done(std::move(x.first), false); else sp.push_back({std::move(x.first), true});
        }
        else sp.push_back({std::move(st), true});
        for (auto& p0 : sp)
        {
            std::vector<std::pair<State, bool>> e1; splitEq(std::move(p0.first), n1, e1);
            for (auto& p1 : e1)
            {
                if (!lex && p1.second) { done(std::move(p1.first), true); continue; }
                std::vector<std::pair<State, bool>> e2; if (lex) splitEq(std::move(p1.first), n2, e2); else e2.push_back({std::move(p1.first), false});
                for (auto& p2 : e2)
                {
                    State& t = p2.first;
                    if (p2.second) { done(std::move(t), false); continue; }          // second range empty
                    if (lex && p1.second) { done(std::move(t), true); continue; }    // first range empty
                    int s1 = -1, s2 = -1; Lin h1, h2;
                    int k1 = run(t, f1.lv.reg, f1.lv.off, l1.lv.off, s1, h1); if (!k1 || t.cs.unsat) continue;
                    int k2 = run(t, f2.lv.reg, f2.lv.off, f2.lv.off + n2, s2, h2); if (!k2 || t.cs.unsat) continue;
                    if (k1 < 0 || k2 < 0) throw Unsupported{"std::" + m + " over contents that are not one run"};
                    throwUser(t, EX_USER, "element comparison");
                    t.eff |= EF_CMP;
                    std::string A = name(t, s1, f1.lv.off + h1, l1.lv.off + h1), B = name(t, s2, f2.lv.off + h2, f2.lv.off + n2 + h2);
                    if (A == B) { done(std::move(t), !lex); continue; }
                    if (!lex && B < A) std::swap(A, B);
                    std::string key = (eq ? "equal " : perm ? "perm " : "lex ") + with + A + " " + B;
                    auto it = t.facts.find(key);
                    if (it != t.facts.end()) { bool v = it->second; done(std::move(t), v); continue; }
                    State u = t; u.facts[key] = true; t.facts[key] = false;
                    if (lex) u.facts["lex " + with + B + " " + A] = false;
                    u.note(here() + ": " + key); t.note(here() + ": not " + key);
                    done(std::move(u), true); done(std::move(t), false);
                }
            }
        }
    }
    return true;
}
