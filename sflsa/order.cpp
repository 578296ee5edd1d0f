// Order and equality of keys: comparator / equality tokens, and the binary search contracts.
#include "interp.hpp"
using namespace clang;

bool Interp::ownKey(const State&, const TermP& t, int tok, int& seq, Lin& i) const
{
    TermP e = t;
    if (e->k == Term::Proj && e->id == 0) e = e->sub[0];
    if (e->k != Term::Elem) return false;
    auto& q = gSeqs[e->id];
    if (q.keyTok != tok || q.mapLike != (t->k == Term::Proj)) return false;
    seq = e->id; i = e->idx; return true;
}

// Position of a key in a sequence ordered by (or with keys distinguished by) tok.
CmpFact Interp::cmpFact(State& s, int tok, TermP key, int seq)
{
    for (auto& f : s.cmp) if (f.tok == tok && f.seq == seq && termEq(s.cs, f.key, key)) return f;
    auto& q = gSeqs[seq];
    CmpFact f; f.tok = tok; f.key = key; f.seq = seq;
    int sq; Lin j; bool own = ownKey(s, key, tok, sq, j) && sq == seq;
    if (own && q.unique) { f.L = j; f.U = j + Lin(1); }
    else
    {
        std::string nm = std::to_string(s.cmp.size());
        f.L = Lin::sym(newSym("lower" + nm)); f.U = Lin::sym(newSym("upper" + nm));
        s.cs.add(f.L); s.cs.add(f.U - f.L); s.cs.add(q.size - f.U);
        if (q.unique) s.cs.add(f.L + Lin(1) - f.U);
        if (own) { s.cs.add(j - f.L); s.cs.add(f.U - j - Lin(1)); }
    }
    s.cmp.push_back(f); return f;
}

void Interp::lessThan(State s, int tok, TermP a, TermP b, std::vector<std::pair<State, bool>>& out)
{
    a = normTerm(s, a); b = normTerm(s, b);
    if (a->k == Term::Moved || b->k == Term::Moved || a->k == Term::Unk || b->k == Term::Unk)
    {
        State t = s; out.push_back({std::move(t), true}); out.push_back({std::move(s), false}); return;
    }
    if (termEq(s.cs, a, b)) { out.push_back({std::move(s), false}); return; }
    int sa, sb; Lin ia, ib; bool oa = ownKey(s, a, tok, sa, ia), ob = ownKey(s, b, tok, sb, ib);
    if (oa && ob && sa == sb && gSeqs[sa].unique) { splitGe(std::move(s), ib - ia - Lin(1), out); return; }
    if (oa && ob && sa == sb)
    {
        auto known = [&](const TermP& t) { for (auto& f : s.cmp) if (f.tok == tok && f.seq == sa && termEq(s.cs, f.key, t)) return true; return false; };
        if (!known(b) && known(a)) { CmpFact f = cmpFact(s, tok, a, sa); splitGe(std::move(s), ib - f.U, out); return; }
    }
    if (oa && (!ob || sa == sb)) { CmpFact f = cmpFact(s, tok, b, sa); splitGe(std::move(s), f.L - ia - Lin(1), out); return; }
    if (ob) { CmpFact f = cmpFact(s, tok, a, sb); splitGe(std::move(s), ib - f.U, out); return; }
    std::string k = "lt " + std::to_string(tok) + " " + a->str() + " < " + b->str(), r = "lt " + std::to_string(tok) + " " + b->str() + " < " + a->str();
    auto it = s.facts.find(k);
    if (it != s.facts.end()) { bool v = it->second; out.push_back({std::move(s), v}); return; }
    State t = s; t.facts[k] = true; t.facts[r] = false; t.note(here() + ": comp(" + a->str() + ", " + b->str() + ")");
    s.facts[k] = false; s.note(here() + ": !comp(" + a->str() + ", " + b->str() + ")");
    out.push_back({std::move(t), true}); out.push_back({std::move(s), false});
}

// keys equal under the equality token: in sequences with unique keys at most one element (index L when U == L+1)
void Interp::keyEqual(State s, int tok, TermP a, TermP b, std::vector<std::pair<State, bool>>& out)
{
    a = normTerm(s, a); b = normTerm(s, b);
    if (a->k == Term::Moved || b->k == Term::Moved || a->k == Term::Unk || b->k == Term::Unk)
    {
        State t = s; out.push_back({std::move(t), true}); out.push_back({std::move(s), false}); return;
    }
    if (termEq(s.cs, a, b)) { out.push_back({std::move(s), true}); return; }
    int sa, sb; Lin ia, ib; bool oa = ownKey(s, a, tok, sa, ia), ob = ownKey(s, b, tok, sb, ib);
    if (!oa && ob) { std::swap(a, b); std::swap(sa, sb); std::swap(ia, ib); std::swap(oa, ob); }
    if (oa && ob && sa == sb && gSeqs[sa].unique) { splitEq(std::move(s), ib - ia, out); return; }
    if (oa && (!ob || sa == sb)) for (auto& m : s.eqMask)
    {
        if (m.tok != tok || m.seq != sa) continue;
        auto bit = [&](const Lin& x) { for (int i = 0; i < m.n; ++i) if (s.cs.entailsEq(x, Lin(i))) return m.mask >> i & 1; return -1; };
        int p = bit(ia), q = termEq(s.cs, b, m.key) ? 1 : ob ? bit(ib) : -1;
        if (p < 0 || q < 0 || (!p && !q)) continue;
        out.push_back({std::move(s), p && q}); return;
    }
    if (oa && (!ob || sa == sb))
    {
        // L: first element with an equal key; U: size when there is none ... L == U == size
        CmpFact f = eqFact(s, tok, b, sa);
        if (gSeqs[sa].unique)
        {
            // equal iff ia == L  (L == size: absent)
            splitEq(std::move(s), ia - f.L, out); return;
        }
        std::vector<std::pair<State, bool>> q; splitEq(std::move(s), ia - f.L, q);
        for (auto& x : q)
        {
            if (x.second) { out.push_back(std::move(x)); continue; }
            std::vector<std::pair<State, bool>> r; splitGe(std::move(x.first), ia - f.L - Lin(1), r);
            for (auto& y : r)
            {
                if (!y.second) { out.push_back({std::move(y.first), false}); continue; }
                State t = y.first; out.push_back({std::move(t), true}); out.push_back({std::move(y.first), false});
            }
        }
        return;
    }
    std::string A = a->str(), B = b->str(); if (B < A) std::swap(A, B);
    std::string k = "eq " + std::to_string(tok) + " " + A + " == " + B;
    auto it = s.facts.find(k);
    if (it != s.facts.end()) { bool v = it->second; out.push_back({std::move(s), v}); return; }
    State t = s; t.facts[k] = true; t.note(here() + ": equal(" + A + ", " + B + ")");
    s.facts[k] = false; s.note(here() + ": !equal(" + A + ", " + B + ")");
    out.push_back({std::move(t), true}); out.push_back({std::move(s), false});
}

// first element with a key equal to key: index L, or L == size when there is none
CmpFact Interp::eqFact(State& s, int tok, TermP key, int seq)
{
    for (auto& f : s.cmp) if (f.tok == tok && f.seq == seq && termEq(s.cs, f.key, key)) return f;
    auto& q = gSeqs[seq];
    CmpFact f; f.tok = tok; f.key = key; f.seq = seq;
    int sq; Lin j; bool own = ownKey(s, key, tok, sq, j) && sq == seq;
    if (own && q.unique) f.L = j;
    else
    {
        f.L = Lin::sym(newSym("first" + std::to_string(s.cmp.size())));
        s.cs.add(f.L); s.cs.add(q.size - f.L);
        if (own) s.cs.add(j - f.L);
    }
    f.U = f.L;
    s.cmp.push_back(f); return f;
}

// call of a comparator or equality token
bool Interp::callToken(State& s, const FunctionDecl* fd, const LV& self, const std::vector<LV>& a, RS& out)
{
    if (a.size() == 1 && s.objs.at(self.obj).rd->getName().starts_with("P_"))
    {
        auto& o = s.objs.at(self.obj); if (o.v.k != Val::Tok) throw Unsupported{"function object"};
        int tok = o.v.tok; ++nObligations;
        if (mayThrow(fd)) throwUser(s, EX_USER, "predicate");
        for (auto& t : argTerms(std::move(s), a, {false}, {fd->getParamDecl(0)->getType()}))
        {
            TermP x = normTerm(t.s, t.t[0]); int hit = -1;
            if (x->k == Term::Elem) for (auto& m : t.s.eqMask) if (m.tok == tok && m.seq == x->id) for (int i = 0; i < m.n; ++i) if (t.s.cs.entailsEq(x->idx, Lin(i))) hit = m.mask >> i & 1;
            std::string k = "pred " + std::to_string(tok) + " " + x->str();
            auto it = t.s.facts.find(k); if (hit < 0 && it != t.s.facts.end()) hit = it->second;
            if (hit >= 0) { out.push_back({std::move(t.s), Val::integer(Lin(hit))}); continue; }
            State u = t.s; if (x->k != Term::Moved && x->k != Term::Unk) { u.facts[k] = true; t.s.facts[k] = false; }
            out.push_back({std::move(u), Val::integer(Lin(1))}); out.push_back({std::move(t.s), Val::integer(Lin(0))});
        }
        return true;
    }
    if (a.size() != 2) return false;
    auto& o = s.objs.at(self.obj);
    bool eq = o.rd->getName().starts_with("Q_");
    if (o.v.k != Val::Tok) { if (o.v.k == Val::Uninit) report(V_UNINIT, s, "use of an uninitialised function object"); throw Unsupported{"function object"}; }
    int tok = o.v.tok;
    s.eff |= EF_CMP; ++nObligations;
    if (mayThrow(fd)) throwUser(s, EX_USER, eq ? "key equality" : "comparison");
    std::vector<bool> rv(2, false); std::vector<QualType> ty;
    for (unsigned i = 0; i < 2; ++i) ty.push_back(fd->getParamDecl(i)->getType());
    for (auto& t : argTerms(std::move(s), a, rv, ty))
    {
        std::vector<std::pair<State, bool>> r;
        if (eq) keyEqual(std::move(t.s), tok, t.t[0], t.t[1], r); else lessThan(std::move(t.s), tok, t.t[0], t.t[1], r);
        for (auto& x : r) if (!x.first.cs.unsat) out.push_back({std::move(x.first), Val::integer(Lin(x.second ? 1 : 0))});
    }
    return true;
}

// the call operators used by a binary search body, reached from the std:: entry point
namespace
{
struct FindOps
{
    std::vector<const CXXMethodDecl*> ops; std::set<const FunctionDecl*> seen;
    void walk(const Stmt* st, int depth)
    {
        if (!st) return;
        if (auto* oc = dyn_cast<CXXOperatorCallExpr>(st))
            if (oc->getOperator() == OO_Call) if (auto* md = dyn_cast_or_null<CXXMethodDecl>(oc->getDirectCallee()))
                if (std::find(ops.begin(), ops.end(), md) == ops.end()) ops.push_back(md);
        if (auto* ce = dyn_cast<CallExpr>(st)) if (auto* fd = ce->getDirectCallee()) if (!isa<CXXMethodDecl>(fd) && fd->isInStdNamespace() && depth < 4) fn(fd, depth + 1);
        for (auto* c : st->children()) walk(c, depth);
    }
    void fn(const FunctionDecl* fd, int depth)
    {
        if (!seen.insert(fd->getCanonicalDecl()).second) return;
        const FunctionDecl* def = nullptr; if (fd->isDefined(def)) walk(def->getBody(), depth);
    }
};
}

// std::lower_bound / upper_bound / equal_range / binary_search over a run of an ordered sequence.
// The predicate actually used is probed at a generic position of the range.
bool Interp::searchAlg(State s0, const FunctionDecl* fd, const std::vector<const Expr*>& args, const LV* ret, RS& out)
{
    std::string m = fd->getNameAsString();
    if (args.size() != 4 && args.size() != 3) return false;
    FindOps fo; fo.fn(fd, 0);
    if (args.size() != 4) throw Unsupported{"std::" + m + " with operator<"};
    for (auto& b : bindArgs(std::move(s0), fd, args))
    {
        State st = b.s;
        auto leafOf = [&](int obj) { std::function<int(int)> go = [&](int o) -> int { auto& x = st.objs.at(o); if (x.k == ObjN::Scalar) return o; if (x.k != ObjN::Record) return -1; for (int y : x.subs) { int z = go(y); if (z >= 0) return z; } return -1; }; return go(obj); };
        if (b.a[0].k != LV::Obj || b.a[1].k != LV::Obj) throw Unsupported{"iterators of std::" + m};
        int lf = leafOf(b.a[0].obj), ll = leafOf(b.a[1].obj); if (lf < 0 || ll < 0) throw Unsupported{"iterators of std::" + m};
        Val f = load(st, LV::ofObj(lf)), l = load(st, LV::ofObj(ll));
        if (!f.isPtrCell() || !l.isPtrCell()) throw Unsupported{"iterators of std::" + m};
        if (f.lv.reg != l.lv.reg) { report(V_OOB, st, "range whose ends lie in different blocks"); continue; }
        std::vector<std::pair<State, bool>> sp; splitEq(std::move(st), l.lv.off - f.lv.off, sp);
        auto result = [&](State x, const Lin& lo, const Lin& hi)
        {
            auto put = [&](int obj, const Lin& off) { std::function<int(int)> go = [&](int o) -> int { auto& y = x.objs.at(o); if (y.k == ObjN::Scalar) return o; if (y.k != ObjN::Record) return -1; for (int z : y.subs) { int w = go(z); if (w >= 0) return w; } return -1; }; copyObj(x, obj, b.a[0].obj); Val v = f; v.lv.off = off; store(x, LV::ofObj(go(obj)), v); };
            if (m == "equal_range")
            {
                if (!ret) throw Unsupported{"equal_range result"};
                int p1 = fieldByName(x, ret->obj, "first"), p2 = fieldByName(x, ret->obj, "second"); if (p1 < 0 || p2 < 0) throw Unsupported{"equal_range result"};
                put(p1, lo); put(p2, hi); out.push_back({std::move(x), Val::ref(*ret)});
            }
            else if (m == "binary_search") throw Unsupported{"binary_search"};
            else
            {
                Lin off = m == "lower_bound" ? lo : hi;
                if (ret) { put(ret->obj, off); out.push_back({std::move(x), Val::ref(*ret)}); }
                else { Val v = f; v.lv.off = off; out.push_back({std::move(x), v}); }
            }
        };
        for (auto& q : sp)
        {
            if (q.second) { result(std::move(q.first), f.lv.off, f.lv.off); continue; }
            State& t = q.first;
            require(t, l.lv.off - f.lv.off, V_OOB, "search over a reversed range"); if (t.cs.unsat) continue;
            // a generic element of the range
            Lin g = Lin::sym(newSym("probe"));
            State pr = t; pr.cs.add(g - f.lv.off); pr.cs.add(l.lv.off - g - Lin(1));
            if (!pr.cs.feasible2({})) throw Unsupported{"probe"};
            // the cells of the range: one run of an ordered sequence
            int seq = -1; Lin shift; bool okRun = true;
            {
                const Region& R = t.regs.at(f.lv.reg); int n = (int)R.segs.size();
                for (int i = 0; i < n; ++i)
                {
                    Lin lo = R.segs[i].lo, hi = i + 1 < n ? R.segs[i + 1].lo : R.size;
                    std::vector<Lin> c = {hi - lo - Lin(1), hi - f.lv.off - Lin(1), l.lv.off - lo - Lin(1), l.lv.off - f.lv.off - Lin(1)};
                    if (!t.cs.feasible2(c)) continue;
                    if (!R.segs[i].live) { report(V_LIFE, t, "search over cells that hold no live element", c); okRun = false; break; }
                    const Content& ct = R.segs[i].c;
                    if (ct.k == Content::Seq && seq < 0) { seq = ct.seq; shift = ct.shift; }
                    else if (ct.k == Content::Seq && ct.seq == seq && t.cs.entailsEq(ct.shift, shift)) {}
                    else if (ct.k == Content::Val && ct.term->k == Term::Elem && seq >= 0 && ct.term->id == seq && [&] { CS c2 = t.cs; for (auto& e : c) c2.add(e); return c2.entailsEq(lo + shift, ct.term->idx); }()) {}
                    else { okRun = false; seq = -2; break; }
                }
            }
            if (seq == -2) throw Unsupported{"std::" + m + " over contents that are not one ordered run"};
            if (!okRun || seq < 0) continue;
            bool asc = m != "upper_bound", desc = m != "lower_bound";
            Lin lo = f.lv.off, hi = f.lv.off; bool have = false, bad = false;
            struct Mute { int& m; Mute(int& x) : m(x) {} } ;
            for (int dir = 0; dir < 2; ++dir)
            {
                if (dir == 0 ? !asc : !desc) continue;
                // functor type of this direction: __comp(it, val) or __comp(val, it)
                const CXXMethodDecl* op = nullptr; bool itFirst = false;
                for (auto* x : fo.ops)
                {
                    if (x->getNumParams() != 2) continue;
                    bool f0 = C.hasSameUnqualifiedType(x->getParamDecl(0)->getType().getNonReferenceType(), fd->getParamDecl(0)->getType().getNonReferenceType());
                    bool f1 = C.hasSameUnqualifiedType(x->getParamDecl(1)->getType().getNonReferenceType(), fd->getParamDecl(0)->getType().getNonReferenceType());
                    if (f0 == f1) continue;
                    if ((dir == 0) == f0) { op = x; itFirst = f0; }
                }
                if (!op) throw Unsupported{"comparison used by std::" + m};
                State p = pr;
                int fo2 = newObj(p, C.getRecordType(op->getParent())); int fcomp = fieldByName(p, fo2, "_M_comp"); if (fcomp < 0) throw Unsupported{"comparison functor of std::" + m};
                if (b.a[3].k != LV::Obj) throw Unsupported{"comparison object"};
                copyObj(p, fcomp, b.a[3].obj);
                int it = newObj(p, fd->getParamDecl(0)->getType().getNonReferenceType()); copyObj(p, it, b.a[0].obj);
                { std::function<int(int)> go = [&](int o) -> int { auto& y = p.objs.at(o); if (y.k == ObjN::Scalar) return o; if (y.k != ObjN::Record) return -1; for (int z : y.subs) { int w = go(z); if (w >= 0) return w; } return -1; }; Val v = f; v.lv.off = g; store(p, LV::ofObj(go(it)), v); }
                LV self = LV::ofObj(fo2);
                std::vector<Thrown>* ss = sink; std::vector<Thrown> th; sink = &th;
                size_t nf = t.cmp.size();
                RS rs = callFn(std::move(p), op, &self, itFirst ? std::vector<LV>{LV::ofObj(it), b.a[2]} : std::vector<LV>{b.a[2], LV::ofObj(it)}, nullptr);
                sink = ss;
                if (!th.empty()) { throwUser(t, EX_USER, "comparison"); }
                // the position at which the predicate changes, in sequence coordinates
                CmpFact fact; bool fok = false;
                for (auto& r : rs) { for (size_t i = 0; i < r.s.cmp.size(); ++i) if (r.s.cmp[i].seq == seq && (i >= nf || true)) { if (i >= nf) { fact = r.s.cmp[i]; fok = true; } } }
                auto holds = [&](const Lin& bound, bool ascending) // ascending: true iff index < bound ; else true iff index >= bound
                {
                    for (auto& r : rs)
                    {
                        if (r.v.k != Val::Int || !r.v.i.isConst()) return false;
                        bool v = r.v.i.c != 0; Lin idx = g + shift;
                        if (!r.s.cs.entails(v == ascending ? bound - idx - Lin(1) : idx - bound)) return false;
                    }
                    return !rs.empty();
                };
                std::vector<CmpFact> cands; if (fok) cands.push_back(fact); for (auto& x : t.cmp) if (x.seq == seq) cands.push_back(x);
                bool found = false, rev = false;
                for (auto& cnd : cands)
                {
                    const Lin& bnd = dir == 0 ? cnd.L : cnd.U;
                    if (holds(bnd, dir == 0))
                    {
                        found = true;
                        bool inT = false; for (auto& x : t.cmp) if (x.tok == cnd.tok && x.seq == cnd.seq && termEq(t.cs, x.key, cnd.key)) inT = true;
                        if (!inT)
                        {
                            // the constraints that come with the fact
                            t.cmp.push_back(cnd);
                            auto& Q = gSeqs[seq];
                            t.cs.add(cnd.L); t.cs.add(cnd.U - cnd.L); t.cs.add(Q.size - cnd.U); if (Q.unique) t.cs.add(cnd.L + Lin(1) - cnd.U);
                            int sq; Lin j; if (ownKey(t, cnd.key, cnd.tok, sq, j) && sq == seq) { t.cs.add(j - cnd.L); t.cs.add(cnd.U - j - Lin(1)); }
                        }
                        if (dir == 0) lo = bnd - shift; else hi = bnd - shift;
                        have = true; break;
                    }
                    if (holds(cnd.U, false) && dir == 0) rev = true;
                    if (holds(cnd.L, true) && dir == 1) rev = true;
                }
                if (!found)
                {
                    if (rev) { report(V_LOOKUP, t, "std::" + m + " with a predicate that does not partition the elements (comparison arguments reversed)"); bad = true; break; }
                    if (unroll && asc != desc && t.cs.entailsEq(l.lv.off - f.lv.off, Lin(1)))
                    {
                        // a single element: either outcome of the predicate
                        bool all = !rs.empty(); for (auto& r : rs) if (r.v.k != Val::Int || !r.v.i.isConst()) all = false;
                        if (all)
                        {
                            for (auto& r : rs) { bool v = r.v.i.c != 0; r.s.cs.addEq(g, f.lv.off); if (r.s.cs.unsat) continue; Lin x = v == (dir == 0) ? l.lv.off : f.lv.off; result(std::move(r.s), x, x); }
                            have = false; bad = true; break;
                        }
                    }
                    if (getenv("SFLSA_ORD")) { llvm::errs() << "[ord] seq " << seq << " shift " << shift.str() << " g " << g.str() << " dir " << dir << " cands " << cands.size() << " results " << rs.size() << "\n"; for (auto& r : rs) llvm::errs() << r.v.str() << "\n" << dump(r.s) << "\n"; }
                    throw Unsupported{"predicate of std::" + m};
                }
                pr = t; pr.cs.add(g - f.lv.off); pr.cs.add(l.lv.off - g - Lin(1));
            }
            if (bad || !have) continue;
            if (!asc) lo = hi; if (!desc) hi = lo;
            // clamp to the range searched
            std::vector<std::pair<State, Lin>> cur; cur.push_back({std::move(t), lo});
            auto clamp = [&](std::vector<std::pair<State, Lin>> in, const Lin& x)
            {
                std::vector<std::pair<State, Lin>> r;
                for (auto& y : in)
                {
                    std::vector<std::pair<State, bool>> q1; splitGe(std::move(y.first), x - f.lv.off, q1);
                    for (auto& z : q1)
                    {
                        if (!z.second) { r.push_back({std::move(z.first), f.lv.off}); continue; }
                        std::vector<std::pair<State, bool>> q2; splitGe(std::move(z.first), l.lv.off - x, q2);
                        for (auto& w : q2) r.push_back({std::move(w.first), w.second ? x : l.lv.off});
                    }
                }
                return r;
            };
            for (auto& c1 : clamp(std::move(cur), lo))
            {
                if (m != "equal_range") { result(std::move(c1.first), c1.second, c1.second); continue; }
                std::vector<std::pair<State, Lin>> one; Lin lo1 = c1.second; one.push_back({std::move(c1.first), Lin(0)});
                for (auto& c2 : clamp(std::move(one), hi)) result(std::move(c2.first), lo1, c2.second);
            }
        }
    }
    return true;
}
