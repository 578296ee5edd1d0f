// Values, regions, element primitives.
#include "interp.hpp"
#include <sstream>
using namespace clang;

int gUnk = 0;
std::vector<SeqInfo> gSeqs;
const char* vkName[] = {"out-of-bounds","lifetime","element-leak","memory-leak","deallocate","uninitialised","invariant","strong-guarantee","contents","alias","length-error","out-of-range","assert-fails","assert-missing","noexcept-escape","propagation","allocation","sorted","unique","lookup","stability","const-write","observer","comparison-op","terminate","forwarding","range","growth","overlap","throw"};

TermP mkTerm(Term::K k, int id, Lin idx, std::vector<TermP> sub)
{
    auto t = std::make_shared<Term>(); t->k = k; t->id = id; t->idx = idx; t->sub = std::move(sub); return t;
}
TermP tProj(int i, TermP t)
{
    if (t->k == Term::Pair) return t->sub[i];
    if (t->k == Term::Moved || t->k == Term::Unk) return t;
    return mkTerm(Term::Proj, i, 0, {t});
}
TermP tPair(TermP a, TermP b)
{
    if (a->k == Term::Proj && b->k == Term::Proj && a->id == 0 && b->id == 1 && a->sub[0] == b->sub[0]) return a->sub[0];
    return mkTerm(Term::Pair, 0, 0, {a, b});
}
std::string Term::str() const
{
    switch (k)
    {
    case Ext: return "v" + std::to_string(id);
    case Elem: return gSeqs[id].name + "[" + idx.str() + "]";
    case Default: return "T()";
    case Moved: return "<moved-from>";
    case Unk: return "?";
    case Proj: return sub[0]->str() + (id ? ".second" : ".first");
    case Pair: return "{" + sub[0]->str() + "," + sub[1]->str() + "}";
    case Ctor: { std::string s = "T("; for (size_t i = 0; i < sub.size(); ++i) s += (i ? "," : "") + sub[i]->str() + ((id >> i & 1) ? "&&" : ""); return s + ")"; }
    }
    return "?";
}
std::string Content::str() const
{
    if (k == Seq) { std::string s = gSeqs[seq].name; if (!shift.isConst() || shift.c != 0) s += "@" + shift.str(); return s; }
    if (k == Val) return "=" + term->str();
    return "?";
}
std::string LV::str() const { if (k == Obj) return "obj" + std::to_string(obj); if (k == Cell) return "r" + std::to_string(reg) + "[" + off.str() + "]"; return "none"; }
std::string Val::str() const
{
    switch (k) { case Void: return "void"; case Uninit: return "uninit"; case Unk: return "?"; case Nondet: return "nondet"; case Int: return i.str(); case Ptr: return "&" + lv.str(); case Ref: return "ref " + lv.str(); case Tok: return "tok" + std::to_string(tok); case Fn: return "fn"; }
    return "";
}

Interp::Interp(ASTContext& c) : C(c)
{
    nextReg = 1;
}

std::string Interp::locStr(SourceLocation l) const
{
    if (l.isInvalid()) return "?";
    auto& sm = C.getSourceManager();
    auto pl = sm.getPresumedLoc(sm.getExpansionLoc(l));
    if (pl.isInvalid()) return "?";
    std::string f = pl.getFilename();
    auto p = f.find("include/sfl/"); if (p != std::string::npos) f = f.substr(p);
    return f + ":" + std::to_string(pl.getLine());
}

std::string Interp::dump(const State& s) const
{
    std::ostringstream o;
    for (auto& p : s.regs.v)
    {
        auto& R = *p.second;
        if (R.k == Region::Null) continue;
        o << "  r" << p.first << " " << R.name << " size=" << R.size.str() << " :";
        for (auto& g : R.segs) o << " [" << g.lo.str() << ": " << (g.live ? "live " + g.c.str() : "raw") << "]";
        o << "\n";
    }
    for (auto& p : s.objs.v)
        if (p.second->k == ObjN::Scalar && p.second->v.k != Val::Uninit) o << "  obj" << p.first << "=" << p.second->v.str();
    o << "\n  cs:";
    for (auto& e : s.cs.ge) o << " " << e.str() << ">=0;";
    if (s.imprecise) o << "\n  imprecise: " << s.why;
    return o.str();
}

void Interp::report(VK k, const State& s, const std::string& msg, const std::vector<Lin>& extra)
{
    if (muted) { ++mutedReports; if (getenv("SFLSA_LOOPS")) llvm::errs() << "   (muted) " << here() << " " << msg << "\n"; return; }
    Report r; r.gen = s.gen; r.kind = allowAssert ? V_NOASSERT : k; r.method = curMethod; r.entry = curEntry; r.where = here(); r.msg = allowAssert && k != V_NOASSERT ? "a call that violates the precondition is not stopped by an assertion: " + msg : msg; r.definite = !s.imprecise; r.exceptional = s.thrown != 0; r.alias = curAlias;
    if (s.imprecise) r.msg += " (imprecise: " + s.why + ")";
    r.path = s.path;
    if (s.thrown) r.path.push_back("exception injected at " + s.thrownAt);
    if (allowAssert && s.thrown) return;
    for (auto& x : reports) if (x.kind == r.kind && x.method == r.method && x.where == r.where && x.exceptional == r.exceptional && x.definite == r.definite && x.alias == r.alias && x.entry == r.entry) return;
    std::map<int, I128> m;
    int im = s.cs.intModel(extra, m);
    if (im == 0) return;                       // the path is not feasible over the integers
    if (im < 0) { r.definite = false; r.msg += " (integer feasibility not decided)"; }
    for (auto& p : m) r.model += (r.model.empty() ? "" : ", ") + symNames[p.first] + "=" + i128s(p.second);
    r.state = dump(s);
    reports.push_back(r);
}

bool Interp::require(State& s, const Lin& e, VK k, const std::string& msg)
{
    ++nObligations;
    logCmp(e);
    if (s.cs.entails(e)) return true;
    report(k, s, msg + "  [not implied: " + e.str() + " >= 0]", {-e - Lin(1)});
    s.cs.add(e);
    if (s.cs.unsat || !s.cs.feasible(e)) { s.cs.unsat = true; return false; }
    return false;
}

const CXXRecordDecl* Interp::rec(QualType t) const
{
    t = t.getNonReferenceType().getCanonicalType();
    return t->getAsCXXRecordDecl();
}
static bool inArch(const CXXRecordDecl* rd)
{
    auto* ns = dyn_cast_or_null<NamespaceDecl>(rd->getDeclContext());
    return ns && ns->getName() == "arch";
}
bool Interp::isElem(QualType t) const
{
    t = t.getNonReferenceType().getCanonicalType();
    if (t->isArrayType()) return isElem(C.getBaseElementType(t));
    auto* rd = t->getAsCXXRecordDecl(); if (!rd) return false;
    if (inArch(rd)) return rd->getName().starts_with("E_");
    if (rd->getName() == "pair" && rd->isInStdNamespace())
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
        {
            QualType a = sp->getTemplateArgs()[0].getAsType();
            if (a->isReferenceType()) return false;
            return isElem(a);
        }
    return false;
}
bool Interp::isTokenClass(const CXXRecordDecl* rd) const { return rd && inArch(rd) && (rd->getName().starts_with("A_") || rd->getName().starts_with("C_") || rd->getName().starts_with("Q_") || rd->getName().starts_with("P_")); }

int Interp::newRegion(State& s, Region::K k, const std::string& name, Lin size, bool live, Content c, QualType ety)
{
    Region r; r.k = k; r.name = name; r.size = size; Seg g; g.lo = 0; g.live = live; g.c = c; r.segs.push_back(g); r.ety = ety;
    int id = nextReg++;
    s.regs.put(id, r);
    return id;
}

int Interp::newObj(State& s, QualType t, bool uninit)
{
    t = t.getCanonicalType();
    ObjN o; o.ty = t;
    int id = nextId++;
    if (t->isReferenceType()) { o.k = ObjN::RefK; s.objs.put(id, o); return id; }
    if (isElem(t))
    {
        o.k = ObjN::ElemBox;
        Lin n = 1;
        QualType e = t;
        bool arr = C.getAsConstantArrayType(t) != nullptr;
        if (auto* at = C.getAsConstantArrayType(t)) { n = Lin((I128)at->getSize().getZExtValue()); e = at->getElementType(); }
        o.reg = newRegion(s, Region::Inline, "obj", n, false, Content::unk(), e);
        s.regs.mut(o.reg).array = arr;
        s.objs.put(id, o); return id;
    }
    if (auto* rd = t->getAsCXXRecordDecl())
    {
        o.rd = rd;
        if (isTokenClass(rd)) { o.k = ObjN::Token; o.v = Val::uninit(); s.objs.put(id, o); return id; }
        o.k = ObjN::Record;
        if (!rd->hasDefinition()) throw Unsupported{"incomplete record " + rd->getNameAsString()};
        std::vector<int> subs;
        for (auto& b : rd->bases()) subs.push_back(newObj(s, b.getType()));
        o.nbases = (int)subs.size();
        for (auto* f : rd->fields()) subs.push_back(newObj(s, f->getType()));
        o.subs = subs; s.objs.put(id, o); return id;
    }
    if (t->isArrayType())
    {
        // arrays of scalars are only handled as unknown
        o.k = ObjN::Scalar; o.v = Val::unk(); s.objs.put(id, o); return id;
    }
    o.k = ObjN::Scalar; o.v = uninit ? Val::uninit() : Val::unk();
    s.objs.put(id, o); return id;
}

LV Interp::lvOf(State& s, int obj)
{
    auto& o = s.objs.at(obj);
    if (o.k == ObjN::ElemBox) return LV::cell(o.reg, 0);
    if (o.k == ObjN::RefK) return o.ref;
    return LV::ofObj(obj);
}

int Interp::fieldObj(const State& s, int obj, const FieldDecl* f) const
{
    auto& o = s.objs.at(obj);
    if (o.k != ObjN::Record) throw Unsupported{"field of non-record"};
    const CXXRecordDecl* rd = dyn_cast<CXXRecordDecl>(f->getParent());
    if (o.rd->getCanonicalDecl() == rd->getCanonicalDecl()) return o.subs[o.nbases + f->getFieldIndex()];
    // anonymous struct/union members are reached through IndirectField MemberExprs (one level at a time),
    // base fields through explicit casts; be lenient and search bases.
    for (int i = 0; i < o.nbases; ++i)
    {
        auto& b = s.objs.at(o.subs[i]);
        if (b.k == ObjN::Record) { int r = -1; try { r = fieldObj(s, o.subs[i], f); } catch (Unsupported&) {} if (r >= 0) return r; }
    }
    { std::string cs; for (auto* c : callStack) cs += " > " + c->getNameAsString(); throw Unsupported{"field not found " + f->getNameAsString() + " in " + (o.rd ? o.rd->getNameAsString() : "?") + cs}; }
}

int Interp::baseObj(const State& s, int obj, const CXXRecordDecl* b) const
{
    auto& o = s.objs.at(obj);
    const CXXRecordDecl* r = o.rd;
    if (r && r->getCanonicalDecl() == b->getCanonicalDecl()) return obj;
    if (o.k != ObjN::Record) return -1;
    for (int i = 0; i < o.nbases; ++i) { int x = baseObj(s, o.subs[i], b); if (x >= 0) return x; }
    return -1;
}

int Interp::fieldByName(const State& s, int obj, const std::string& n) const
{
    auto& o = s.objs.at(obj);
    if (o.k != ObjN::Record) return -1;
    int i = 0;
    for (auto* f : o.rd->fields()) { if (f->getName() == n) return o.subs[o.nbases + i]; ++i; }
    for (int b = 0; b < o.nbases; ++b) { int x = fieldByName(s, o.subs[b], n); if (x >= 0) return x; }
    i = 0;
    for (auto* f : o.rd->fields()) { if (f->isAnonymousStructOrUnion()) { int x = fieldByName(s, o.subs[o.nbases + i], n); if (x >= 0) return x; } ++i; }
    return -1;
}

void Interp::killObj(State& s, int obj)
{
    if (!s.objs.has(obj)) return;
    ObjN o = s.objs.at(obj);
    for (int x : o.subs) killObj(s, x);
    if (o.k == ObjN::ElemBox) s.regs.erase(o.reg);
    s.objs.erase(obj);
}

Val Interp::load(State& s, const LV& lv)
{
    if (lv.k == LV::Obj)
    {
        if (!s.objs.has(lv.obj)) { report(V_OOB, s, "access to an object after its lifetime"); throw Unsupported{"dead object"}; }
        auto& o = s.objs.at(lv.obj);
        if (o.k == ObjN::Scalar || o.k == ObjN::Token)
        {
            if (o.v.k == Val::Uninit) { report(V_UNINIT, s, "read of an uninitialised value"); return Val::unk(); }
            return o.v;
        }
        if (o.k == ObjN::RefK) return load(s, o.ref);
        return Val::ref(lv);
    }
    if (lv.k == LV::Cell)
    {
        if (!s.regs.has(lv.reg)) throw Unsupported{"dead region"};
        return Val::ref(lv);
    }
    throw Unsupported{"load of unknown lvalue"};
}

void Interp::store(State& s, const LV& lv, const Val& v)
{
    if (lv.k == LV::Obj)
    {
        if (!s.objs.has(lv.obj)) throw Unsupported{"dead object"};
        auto& o = s.objs.mut(lv.obj);
        if (o.k == ObjN::RefK) { LV r = o.ref; store(s, r, v); return; }
        if (o.k != ObjN::Scalar && o.k != ObjN::Token) throw Unsupported{"store to aggregate"};
        o.v = v; return;
    }
    throw Unsupported{"store to cell"};
}

void Interp::copyObj(State& s, int dst, int src)
{
    ObjN a = s.objs.at(src);
    ObjN d = s.objs.at(dst);
    if (a.k == ObjN::Scalar || a.k == ObjN::Token) { auto& m = s.objs.mut(dst); m.v = a.v; return; }
    if (a.k == ObjN::RefK) { auto& m = s.objs.mut(dst); m.ref = a.ref; return; }
    if (a.k == ObjN::Record)
    {
        if (d.subs.size() != a.subs.size()) throw Unsupported{"memberwise copy of different shapes"};
        for (size_t i = 0; i < a.subs.size(); ++i) copyObj(s, d.subs[i], a.subs[i]);
        return;
    }
    throw Unsupported{"memberwise copy of element"};
}

// ---- numeric splits ----------------------------------------------------------
void Interp::splitGe(State&& s, const Lin& e, std::vector<std::pair<State, bool>>& out)
{
    logCmp(e);
    if (s.cs.entails(e)) { out.push_back({std::move(s), true}); return; }
    Lin ne = -e - Lin(1);
    if (s.cs.entails(ne)) { out.push_back({std::move(s), false}); return; }
    State t = s;
    t.cs.add(e); t.note(here() + ": " + e.str() + ">=0");
    s.cs.add(ne); s.note(here() + ": " + e.str() + "<0");
    ++nStates;
    out.push_back({std::move(t), true});
    out.push_back({std::move(s), false});
}
void Interp::splitEq(State&& s, const Lin& d, std::vector<std::pair<State, bool>>& out)
{
    logCmp(d); logCmp(-d);
    if (d.isConst()) { bool z = d.c == 0; out.push_back({std::move(s), z}); return; }
    bool ge = s.cs.entails(d), le = s.cs.entails(-d);
    if (ge && le) { out.push_back({std::move(s), true}); return; }
    bool canGt = !le && s.cs.feasible(d - Lin(1)), canLt = !ge && s.cs.feasible(-d - Lin(1));
    bool canEq = s.cs.feasible2({d, -d});
    ++nStates;
    if (canEq) { State t = s; t.cs.addEq(d, 0); t.note(here() + ": " + d.str() + "==0"); out.push_back({std::move(t), true}); }
    if (canGt) { State t = s; t.cs.add(d - Lin(1)); t.note(here() + ": " + d.str() + ">0"); out.push_back({std::move(t), false}); }
    if (canLt) { State t = s; t.cs.add(-d - Lin(1)); t.note(here() + ": " + d.str() + "<0"); out.push_back({std::move(t), false}); }
}

// ---- regions -------------------------------------------------------------------
bool Interp::termEq(const CS& cs, const TermP& a, const TermP& b, int depth) const
{
    if (a == b) return true;
    if (a->k == Term::Pair && b->k != Term::Pair && b->k != Term::Unk && b->k != Term::Moved) return termEq(cs, a->sub[0], tProj(0, b)) && termEq(cs, a->sub[1], tProj(1, b));
    if (b->k == Term::Pair && a->k != Term::Pair && a->k != Term::Unk && a->k != Term::Moved) return termEq(cs, b, a);
    if (a->k != b->k) return false;
    switch (a->k)
    {
    case Term::Ext: return a->id == b->id;
    case Term::Elem: return a->id == b->id && cs.entailsEq(a->idx, b->idx);
    case Term::Default: case Term::Moved: return true;
    case Term::Unk: return a->id == b->id;
    default:
        if (a->id != b->id || a->sub.size() != b->sub.size()) return false;
        for (size_t i = 0; i < a->sub.size(); ++i) if (!termEq(cs, a->sub[i], b->sub[i])) return false;
        return true;
    }
}
bool Interp::contentEq(const State& s, const Content& a, const Content& b) const
{
    if (a.k != b.k) return false;
    if (a.k == Content::Seq) return a.seq == b.seq && s.cs.entailsEq(a.shift, b.shift);
    if (a.k == Content::Val) return termEq(s.cs, a.term, b.term);
    return true;
}

void Interp::compact(State& s, int reg)
{
    if (s.regs.at(reg).segs.size() < 2) return;
    Region R = s.regs.at(reg);
    std::vector<Seg> o;
    bool changed = false;
    for (size_t i = 0; i < R.segs.size(); ++i)
    {
        Lin hi = i + 1 < R.segs.size() ? R.segs[i + 1].lo : R.size;
        if (s.cs.entails(R.segs[i].lo - hi)) { changed = true; continue; } // empty
        Seg g = R.segs[i];
        if (!o.empty() && o.back().live == g.live && o.back().freed == g.freed)
        {
            if (!g.live) { changed = true; continue; }
            if (contentEq(s, o.back().c, g.c)) { changed = true; continue; }
            // runs of one and the same term (a fill): cells of a sequence whose terms coincide
            Seg& pb = o.back();
            bool one2 = s.cs.entailsEq(hi, g.lo + Lin(1)), one1 = s.cs.entailsEq(g.lo, pb.lo + Lin(1));
            TermP t1 = pb.c.k == Content::Val ? pb.c.term : one1 && pb.c.k == Content::Seq ? tElem(pb.c.seq, pb.lo + pb.c.shift) : nullptr;
            TermP t2 = g.c.k == Content::Val ? g.c.term : one2 && g.c.k == Content::Seq ? tElem(g.c.seq, g.lo + g.c.shift) : nullptr;
            if (t1 && t2 && termEq(s.cs, t1, t2)) { pb.c = Content::val(t1); changed = true; continue; }
        }
        o.push_back(g);
    }
    if (o.empty()) { Seg g; g.lo = 0; o.push_back(g); changed = true; }
    o[0].lo = R.segN ? SEG_LO : Lin(0); if (R.segN && o.size() == 1 && changed) o[0].freed = R.segs[0].freed;
    if (changed) s.regs.mut(reg).segs = o;
}

// ---- segments of segmented containers ---------------------------------------------
int gSegN = 0;
static I128 pw(int n) { I128 x = 1; while (n--) x *= 2; return x; }
const Lin SEG_LO = Lin(-pw(66)), SEG_HI = Lin(pw(66));

// A pointer into segments is (number d of the cell, number j of the segment it was derived from), kept as d + SEG_M * j;
// it is at most N cells away from the start of segment j, d - N*j == N being the end of the segment.
const i64 SEG_M = (i64)1 << 24;
void segDec(const Lin& off, Lin& d, Lin& j)
{
    d = Lin(0); j = Lin(0);
    auto fl = [](I128 x) { I128 q = x / SEG_M; if (q * SEG_M > x) --q; return q; };
    for (auto& t : off.t)
    {
        i64 q = (i64)fl((I128)t.second + SEG_M / 2), r = t.second - q * SEG_M;
        if (q) j = j + Lin::sym(t.first) * q;
        if (r) d = d + Lin::sym(t.first) * r;
    }
    I128 q = fl(off.c + SEG_M / 2); j.c += q; d.c += off.c - q * SEG_M;
}
Lin segCode(const Lin& d, const Lin& j) { return d + j * SEG_M; }
void Interp::segPos(const State& s, int reg, const Lin& off, Lin& seg, Lin& r) const
{
    Lin d; segDec(off, d, seg); r = d - seg * s.regs.at(reg).segN;
}
Lin Interp::ptrDiff(const State& s, int reg, const Lin& a, const Lin& b) const
{
    Lin e = a - b;
    if (!s.regs.has(reg) || !s.regs.at(reg).segN) return e;
    Lin d, j; segDec(e, d, j); return d;
}
// the pointer to the cell with number d: the segment is floor(d / N)
Lin Interp::segEnc(int reg, State& s, const Lin& d)
{
    int N = s.regs.at(reg).segN; if (!N) return d;
    Lin rest = d, j(0); I128 m = rest.c % N; if (m < 0) m += N; j.c = (rest.c - m) / N; rest.c = m;
    for (auto& t : d.t)
    {
        i64 q = t.second / N; if (q * N > t.second) --q;
        if (q) { j = j + Lin::sym(t.first) * q; rest = rest - Lin::sym(t.first) * (q * N); }
    }
    if (rest.t.empty()) return segCode(d, j);
    // floor(rest / N) is a function of rest: one symbol per expression; the ones known already may fit
    auto fits = [&](const Lin& q) { return s.cs.entails(rest - q * N) && s.cs.entails(q * N + Lin(N - 1) - rest); };
    auto it = segQuot.find(rest.str());
    if (it == segQuot.end())
    {
        for (auto& e : segQuot) for (int c = -1; c <= 1; ++c) { Lin q = Lin::sym(e.second) + Lin(c); if (fits(q)) return segCode(d, j + q); }
        it = segQuot.emplace(rest.str(), newSym("seg" + std::to_string(symNames.size()))).first;
    }
    Lin q = Lin::sym(it->second);
    if (!fits(q)) { s.cs.add(rest - q * N); s.cs.add(q * N + Lin(N - 1) - rest); }
    return segCode(d, j + q);
}
// number of the cell a pointer points to; range: one past the end of the segment allowed
Lin Interp::dense(State& s, int reg, const Lin& off, bool range, const char* what, bool* ok)
{
    if (ok) *ok = true;
    if (!s.regs.has(reg)) return off;
    int N = s.regs.at(reg).segN; if (!N) return off;
    Lin x, r; segPos(s, reg, off, x, r);
    if (!range) { require(s, Lin(N - 1) - r, V_OOB, std::string(what) + " at the end of a segment of " + s.regs.at(reg).name); if (s.cs.unsat && ok) *ok = false; }
    return x * N + r;
}
std::vector<std::pair<State, int>> Interp::isolateAt(State s, const LV& lv, const char* what)
{
    bool ok = true; Lin d = dense(s, lv.reg, lv.off, false, what, &ok);
    if (!ok) return {};
    return isolateCell(std::move(s), lv.reg, d, what);
}
int Interp::segRegion(const State& s, int vseq) const
{
    for (auto& p : s.regs.v) if (p.second->segN && p.second->vseq == vseq) return p.first;
    return -1;
}

int Interp::segItObj(const State& s, int obj)
{
    auto& o = s.objs.at(obj);
    if (o.k != ObjN::Record) return -1;
    if (o.rd->getName() == "segmented_iterator") return obj;
    int found = -1;
    for (int x : o.subs) { int y = segItObj(s, x); if (y >= 0) { if (found >= 0) return -1; found = y; } }
    return found;
}
void Interp::segItSet(State& s, int si, const Val& p)
{
    int a = fieldByName(s, si, "segment_"), b = fieldByName(s, si, "local_"); if (a < 0 || b < 0) throw Unsupported{"iterator layout"};
    if (p.lv.reg == 0) { s.objs.mut(a).v = p; s.objs.mut(b).v = p; return; }
    int V = p.lv.reg; Lin x, r; LV l = p.lv;
    if (!s.regs.at(V).segN) throw Unsupported{"iterator of a segmented container"};
    l.off = segEnc(V, s, p.lv.off); segPos(s, V, l.off, x, r);
    for (auto& q : s.regs.v) if (q.second->table)
    {
        auto& G = q.second->segs;
        for (size_t i = 0; i < G.size(); ++i)
        {
            auto& g = G[i]; if (!g.live || g.c.k != Content::Seq || g.c.seq != s.regs.at(V).vseq) continue;
            int T = q.first; Lin t = x - g.c.shift;
            s.objs.mut(b).v = Val::ptr(l); s.objs.mut(a).v = Val::ptr(T, t); return;
        }
    }
    throw Unsupported{"iterator without a table"};
}
bool Interp::segItGet(State& s, int si, Val& p)
{
    int a = fieldByName(s, si, "segment_"), b = fieldByName(s, si, "local_"); if (a < 0 || b < 0) return false;
    Val sg = s.objs.at(a).v; p = s.objs.at(b).v; ++nObligations;
    if (sg.k == Val::Uninit || p.k == Val::Uninit) { report(V_INV, s, "iterator left uninitialised"); return false; }
    if (!p.isPtrCell() || !sg.isPtrCell()) return true;
    if (p.lv.reg == 0 && sg.lv.reg == 0) return true;
    if (!s.regs.has(sg.lv.reg) || !s.regs.has(p.lv.reg)) { report(V_INV, s, "iterator into storage that has been released"); return false; }
    if (!s.regs.at(sg.lv.reg).table || !s.regs.at(p.lv.reg).segN) { report(V_INV, s, "iterator whose segment and position do not belong together"); return false; }
    Lin x, r; int V = p.lv.reg, N = s.regs.at(V).segN; segPos(s, V, p.lv.off, x, r);
    if (!s.cs.entails(Lin(N - 1) - r)) { report(V_INV, s, "iterator at the end of a segment instead of the start of the next one", {r - Lin(N)}); return false; }
    if (!s.cs.entails(r)) { report(V_INV, s, "iterator before its segment", {-r - Lin(1)}); return false; }
    Lin sh; bool have = false;
    for (auto& g : s.regs.at(sg.lv.reg).segs) if (g.live && g.c.k == Content::Seq && g.c.seq == s.regs.at(V).vseq) { sh = g.c.shift; have = true; break; }
    if (!have) { report(V_INV, s, "iterator whose segment and position do not belong together"); return false; }
    Lin d = sg.lv.off + sh - x;
    for (int q = 0; q < 2; ++q) if (!s.cs.entails(q ? d : -d)) { report(V_INV, s, "iterator whose segment and position do not belong together", {(q ? -d : d) - Lin(1)}); return false; }
    p.lv.off = x * N + r;
    return true;
}

// entries of a table
RS Interp::loadCell(State s, const LV& lv)
{
    RS out; ++nObligations;
    for (auto& c : isolateCell(std::move(s), lv.reg, lv.off, "read of a table entry"))
    {
        State& t = c.first; const Region& R = t.regs.at(lv.reg); const Seg& g = R.segs[c.second];
        if (!g.live) { report(V_UNINIT, t, "read of a table entry that was never assigned"); continue; }
        if (g.c.k != Content::Seq) throw Unsupported{"unknown table entry"};
        int v = segRegion(t, g.c.seq);
        if (v < 0) throw Unsupported{"segments of a table"};
        Lin sj = lv.off + g.c.shift, o = segCode(sj * t.regs.at(v).segN, sj);
        out.push_back({std::move(t), Val::ptr(v, o)});
    }
    return out;
}
RS Interp::loadR(State s, const LV& lv)
{
    if (lv.k == LV::Cell && s.regs.has(lv.reg) && s.regs.at(lv.reg).table) return loadCell(std::move(s), lv);
    if (lv.k == LV::Cell && !s.regs.has(lv.reg) && deadRegion(s, lv.reg, "read of a table entry")) return {};
    Val v = load(s, lv); RS out; out.push_back({std::move(s), v}); return out;
}
SS Interp::storeR(State s, const LV& lv, const Val& v0)
{
    SS out;
    if (lv.k != LV::Cell) { store(s, lv, v0); out.push_back(std::move(s)); return out; }
    if (deadRegion(s, lv.reg, "write of a table entry")) return out;
    if (!s.regs.at(lv.reg).table) throw Unsupported{"store to cell"};
    ++nObligations;
    for (auto& c : isolateCell(std::move(s), lv.reg, lv.off, "write of a table entry"))
    {
        State& t = c.first; Val v = v0;
        if (!v.isPtrCell() || !t.regs.has(v.lv.reg)) throw Unsupported{"table entry"};
        if (!t.regs.at(v.lv.reg).segN)
        {
            // a new segment: becomes part of the region of segments of this table
            const Region F = t.regs.at(v.lv.reg);
            if (F.k != Region::Heap || F.table || !gSegN || !t.cs.entailsEq(F.size, Lin(gSegN)) || F.segs.size() != 1 || F.segs[0].live || !t.cs.entailsEq(v.lv.off, 0)) throw Unsupported{"table entry"};
            const Region& T = t.regs.at(lv.reg);
            int V = -1; Lin x; bool any = false;
            for (auto& g : T.segs) if (g.live) { if (g.c.k != Content::Seq) throw Unsupported{"unknown table entry"}; V = segRegion(t, g.c.seq); x = lv.off + g.c.shift; any = true; break; }
            if (!any) { V = T.vreg; x = lv.off; }
            if (V < 0 || !t.regs.has(V)) throw Unsupported{"segments of a table"};
            int N = t.regs.at(V).segN;
            if (t.regs.at(V).owner < 0) t.regs.mut(V).owner = F.owner;
            else if (t.regs.at(V).owner != F.owner)
            {
                int a = t.regs.at(V).owner, b = F.owner;
                auto it = t.facts.find("tokeq " + std::to_string(std::min(a, b)) + " " + std::to_string(std::max(a, b)));
                bool all = true; for (auto& g : t.regs.at(V).segs) if (!g.freed) all = false;
                if (all) t.regs.mut(V).owner = b;
                else if (it == t.facts.end() || !it->second) { report(V_DEALLOC, t, "segments obtained from allocators that need not compare equal in one table"); continue; }
            }
            auto rg = isolateRange(std::move(t), V, x * N, x * N + Lin(N), "new segment");
            for (auto& q : rg)
            {
                Region& W = q.s.regs.mut(V);
                bool over = false;
                for (int i = q.i; i < q.j; ++i) { if (!W.segs[i].freed) over = true; else W.segs[i].freed = false; }
                // in a trial iteration of a loop: a path that its invariants may still exclude
                if (over) { if (muted) { ++mutedReports; continue; } throw Unsupported{"a table entry is overwritten"}; }
                compact(q.s, V);
                int from = v.lv.reg;
                auto mv = [&](LV& l) { if (l.k == LV::Cell && l.reg == from) { l.reg = V; l.off = segCode(x * N + l.off, x); } };
                for (auto& p : q.s.objs.v)
                {
                    auto& o = *p.second;
                    if (o.k == ObjN::Scalar && o.v.k == Val::Ptr && o.v.lv.k == LV::Cell && o.v.lv.reg == from) mv(q.s.objs.mut(p.first).v.lv);
                    if (o.k == ObjN::RefK && o.ref.k == LV::Cell && o.ref.reg == from) mv(q.s.objs.mut(p.first).ref);
                }
                for (auto& e : q.s.env) mv(e.second);
                q.s.regs.erase(from);
                for (auto& y : isolateCell(std::move(q.s), lv.reg, lv.off, "write of a table entry"))
                {
                    Seg& g = y.first.regs.mut(lv.reg).segs[y.second];
                    g.live = true; g.c = Content::ofSeq(y.first.regs.at(V).vseq, x - lv.off);
                    compact(y.first, lv.reg); y.first.eff |= EF_WRITE; out.push_back(std::move(y.first));
                }
            }
            continue;
        }
        Lin x, r; segPos(t, v.lv.reg, v.lv.off, x, r);
        require(t, r, V_INV, "table entry that is not the start of a segment"); if (t.cs.unsat) continue;
        require(t, -r, V_INV, "table entry that is not the start of a segment"); if (t.cs.unsat) continue;
        Seg& g = t.regs.mut(lv.reg).segs[c.second];
        g.live = true; g.c = Content::ofSeq(t.regs.at(v.lv.reg).vseq, x - lv.off);
        t.regs.mut(lv.reg).vreg = v.lv.reg;
        compact(t, lv.reg); out.push_back(std::move(t));
    }
    return out;
}

bool Interp::deadRegion(const State& s, int reg, const char* what)
{
    if (s.regs.has(reg)) return false;
    for (int r : s.freed) if (r == reg) { report(V_OOB, s, std::string(what) + ": access to storage that has been released"); return true; }
    throw Unsupported{"dead region"};
}

std::vector<std::pair<State, int>> Interp::splitAt(State s, int reg, Lin off, const char* what, bool keep)
{
    std::vector<std::pair<State, int>> out;
    if (deadRegion(s, reg, what)) return out;
    {
        const Region& R = s.regs.at(reg);
        if (!R.segN) require(s, off, V_OOB, std::string(what) + " before the start of " + R.name);
        if (s.cs.unsat) return out;
        Lin sz = R.size; if (R.segN) sz = off;
        require(s, sz - off, V_OOB, std::string(what) + " beyond the end of " + R.name);
        if (s.cs.unsat) return out;
    }
    if (!keep) compact(s, reg);
    const Region R = s.regs.at(reg);
    int n = (int)R.segs.size();
    auto bnd = [&](int i) { return i < n ? R.segs[i].lo : R.size; };
    auto lowInf = [&](int i) { return R.segN && i == 0; }; auto highInf = [&](int i) { return R.segN && i == n - 1; };
    for (int i = 0; i <= n; ++i) if (s.cs.entailsEq(bnd(i), off)) { out.push_back({std::move(s), i}); return out; }
    auto put = [&](State t, int i)
    {
        // off strictly inside or at start of segment i
        if (t.cs.entailsEq(bnd(i), off)) { out.push_back({std::move(t), i}); return; }
        Region& M = t.regs.mut(reg);
        Seg g = M.segs[i]; g.lo = off;
        M.segs.insert(M.segs.begin() + i + 1, g);
        out.push_back({std::move(t), i + 1});
    };
    for (int i = 0; i < n; ++i)
    {
        logCmp(off - bnd(i)); logCmp(bnd(i + 1) - off);
        if ((lowInf(i) || s.cs.entails(off - bnd(i))) && (highInf(i) || s.cs.entails(bnd(i + 1) - off))) { put(std::move(s), i); return out; }
    }
    // undecided: partition
    for (int i = 0; i <= n; ++i)
    {
        if (i == n && R.segN) continue;
        State t = s;
        if (i < n && (lowInf(i) || highInf(i)))
        {
            std::vector<Lin> c; if (!lowInf(i)) c.push_back(off - bnd(i)); if (!highInf(i)) c.push_back(bnd(i + 1) - off - Lin(1));
            for (auto& e : c) t.cs.add(e);
            if (t.cs.unsat || (!c.empty() && !s.cs.feasible2(c))) continue;
        }
        else if (i < n) { t.cs.add(off - bnd(i)); t.cs.add(bnd(i + 1) - off - Lin(1)); if (t.cs.unsat || !s.cs.feasible2({off - bnd(i), bnd(i + 1) - off - Lin(1)})) continue; }
        else { if (!s.cs.feasible2({off - R.size, R.size - off})) continue; t.cs.addEq(off, R.size); if (t.cs.unsat) continue; }
        ++nStates;
        t.note(here() + ": " + what + " in piece " + std::to_string(i) + " of " + R.name);
        if (i == n) out.push_back({std::move(t), n}); else put(std::move(t), i);
    }
    return out;
}

std::vector<Interp::RangeIx> Interp::isolateRange(State s, int reg, Lin lo, Lin hi, const char* what)
{
    std::vector<RangeIx> out;
    for (auto& a : splitAt(std::move(s), reg, lo, what))
        for (auto& b : splitAt(std::move(a.first), reg, hi, what, true))
        {
            State& t = b.first;
            // re-find lo (compact may have moved indices)
            const Region& R = t.regs.at(reg);
            int n = (int)R.segs.size(), i0 = -1;
            for (int i = 0; i <= n; ++i) if (t.cs.entailsEq(i < n ? R.segs[i].lo : R.size, lo)) i0 = i; // last one: skip empty pieces
            int j0 = -1;
            for (int i = 0; i <= n; ++i) if (t.cs.entailsEq(i < n ? R.segs[i].lo : R.size, hi)) { j0 = i; break; }
            if (i0 < 0) 
            {
                // compact merged the boundary away: split again
                for (auto& c : splitAt(std::move(t), reg, lo, what))
                {
                    State& u = c.first; const Region& Q = u.regs.at(reg); int m = (int)Q.segs.size(); int i1 = -1, j1 = -1;
                    for (int i = 0; i <= m; ++i) if (u.cs.entailsEq(i < m ? Q.segs[i].lo : Q.size, lo)) i1 = i;
                    for (int i = 0; i <= m; ++i) if (u.cs.entailsEq(i < m ? Q.segs[i].lo : Q.size, hi)) { j1 = i; break; }
                    if (i1 < 0 || j1 < 0) throw Unsupported{"range isolation"};
                    if (j1 < i1) i1 = j1;
                    out.push_back({std::move(u), i1, j1});
                }
                continue;
            }
            if (j0 < i0) i0 = j0;
            out.push_back({std::move(t), i0, j0});
        }
    return out;
}

std::vector<std::pair<State, int>> Interp::isolateCell(State s, int reg, Lin off, const char* what)
{
    std::vector<std::pair<State, int>> out;
    if (deadRegion(s, reg, what)) return out;
    {
        const Region& R = s.regs.at(reg);
        if (R.k == Region::Null) { report(V_OOB, s, std::string(what) + " through a null pointer"); return out; }
        if (!R.segN) require(s, off, V_OOB, std::string(what) + " before the start of " + R.name);
        if (s.cs.unsat) return out;
        if (!R.segN) require(s, R.size - off - Lin(1), V_OOB, std::string(what) + " at or beyond the end of " + R.name);
        if (s.cs.unsat) return out;
    }
    compact(s, reg);
    const Region R = s.regs.at(reg);
    int n = (int)R.segs.size();
    auto bnd = [&](int i) { return i < n ? R.segs[i].lo : R.size; };
    auto lowInf = [&](int i) { return R.segN && i == 0; }; auto highInf = [&](int i) { return R.segN && i == n - 1; };
    auto put = [&](State t, int i)
    {
        Region& M = t.regs.mut(reg);
        int k = i;
        if (!t.cs.entailsEq(bnd(i), off)) { Seg g = M.segs[i]; g.lo = off; M.segs.insert(M.segs.begin() + i + 1, g); k = i + 1; }
        if (!t.cs.entailsEq(bnd(i + 1), off + Lin(1))) { Seg g = M.segs[k]; g.lo = off + Lin(1); M.segs.insert(M.segs.begin() + k + 1, g); }
        out.push_back({std::move(t), k});
    };
    for (int i = 0; i < n; ++i)
    {
        logCmp(off - bnd(i)); logCmp(bnd(i + 1) - off);
        if ((lowInf(i) || s.cs.entails(off - bnd(i))) && (highInf(i) || s.cs.entails(bnd(i + 1) - off - Lin(1)))) { put(std::move(s), i); return out; }
    }
    for (int i = 0; i < n; ++i)
    {
        std::vector<Lin> c; if (!lowInf(i)) c.push_back(off - bnd(i)); if (!highInf(i)) c.push_back(bnd(i + 1) - off - Lin(1));
        if (!c.empty() && !s.cs.feasible2(c)) continue;
        State t = s; for (auto& e : c) t.cs.add(e);
        ++nStates;
        t.note(here() + ": " + what + " in piece " + std::to_string(i) + " of " + R.name);
        put(std::move(t), i);
    }
    return out;
}

TermP Interp::normTerm(const State& s, TermP t) const
{
    for (int guard = 0; guard < 20; ++guard)
    {
        if (t->k == Term::Proj) { TermP in = normTerm(s, t->sub[0]); return tProj(t->id, in); }
        if (t->k != Term::Elem) return t;
        auto it = s.seqDefs.find(t->id); if (it == s.seqDefs.end()) return t;
        auto& segs = it->second.first; bool ok = false;
        for (size_t i = 0; i < segs.size(); ++i)
        {
            Lin hi = i + 1 < segs.size() ? segs[i + 1].lo : it->second.second;
            if (s.cs.entails(t->idx - segs[i].lo) && s.cs.entails(hi - t->idx - Lin(1)))
            {
                auto& c = segs[i].c;
                if (c.k == Content::Seq) { t = tElem(c.seq, t->idx + c.shift); ok = true; }
                else if (c.k == Content::Val) { t = c.term; ok = true; }
                break;
            }
        }
        if (!ok) return t;
    }
    return t;
}

TermP Interp::cellTermAt(const Region& R, int i, const Lin& off) const
{
    auto& c = R.segs[i].c;
    if (c.k == Content::Seq) return tElem(c.seq, off + c.shift);
    if (c.k == Content::Val) return c.term;
    return tUnk();
}
TermP Interp::cellTerm(const State& s, int reg, int i) const
{
    const Region& R = s.regs.at(reg);
    return normTerm(s, cellTermAt(R, i, R.segs[i].lo));
}
void Interp::setCell(State& s, int reg, int i, bool live, TermP t)
{
    Region& R = s.regs.mut(reg);
    R.segs[i].live = live;
    if (!live) R.segs[i].c = Content::unk();
    else if (t->k == Term::Elem) R.segs[i].c = Content::ofSeq(t->id, t->idx - R.segs[i].lo);
    else if (t->k == Term::Unk) R.segs[i].c = Content::unk();
    else R.segs[i].c = Content::val(t);
}

// Compares two contents over the region interval [lo,hi); both are functions of the region coordinate.
bool Interp::pieceMismatch(const CS& cs, const State& s, const Content& a, const Lin& lo, const Lin& hi, const Content& b, std::string& why, int depth) const
{
    if (cs.unsat) return false;
    if (a.k == Content::Seq && b.k == Content::Seq && a.seq == b.seq && cs.entailsEq(a.shift, b.shift)) return false;
    if (a.k == Content::Val && b.k == Content::Val && termEq(cs, a.term, b.term)) return false;
    if (depth < 12)
        for (int side = 0; side < 2; ++side)
        {
            const Content& x = side ? b : a; const Content& y = side ? a : b;
            if (x.k != Content::Seq) continue;
            auto it = s.seqDefs.find(x.seq);
            if (it == s.seqDefs.end()) continue;
            auto& segs = it->second.first;
            for (size_t i = 0; i < segs.size(); ++i)
            {
                Lin l = segs[i].lo - x.shift, h = (i + 1 < segs.size() ? segs[i + 1].lo : it->second.second) - x.shift;
                // region coordinates of definition piece i, intersected with [lo,hi)
                std::vector<Lin> cond = {h - l - Lin(1), h - lo - Lin(1), hi - l - Lin(1), hi - lo - Lin(1)};
                if (!cs.feasible2(cond)) continue;
                CS c2 = cs; for (auto& e : cond) c2.add(e);
                Content d = segs[i].c;
                if (d.k == Content::Seq) d.shift = d.shift + x.shift;
                // choose the tightest representable interval: need max(lo,l), min(hi,h): split
                Lin los[2] = {lo, l}, his[2] = {hi, h};
                for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q)
                {
                    CS c3 = c2; Lin LO = los[p], HI = his[q];
                    c3.add(LO - los[1 - p] - Lin(p)); // LO is the max
                    c3.add(his[1 - q] - HI - Lin(q));
                    if (c3.unsat || !c2.feasible2({LO - los[1 - p] - Lin(p), his[1 - q] - HI - Lin(q), HI - LO - Lin(1)})) continue;
                    c3.add(HI - LO - Lin(1));
                    if (pieceMismatch(c3, s, d, LO, HI, y, why, depth + 1)) return true;
                }
            }
            return false;
        }
    // a one-cell interval may relate a term and a sequence
    if (cs.entailsEq(hi, lo + Lin(1)))
    {
        auto term = [&](const Content& x) { return x.k == Content::Seq ? tElem(x.seq, lo + x.shift) : x.k == Content::Val ? x.term : tUnk(); };
        if (termEq(cs, term(a), term(b))) return false;
    }
    else if (a.k == Content::Val && b.k == Content::Seq)
    {
        // equal only if the interval has at most one cell
        Lin len = hi - lo;
        if (!cs.feasible(len - Lin(2))) { CS c2 = cs; c2.addEq(len, 1); if (!c2.unsat) return pieceMismatch(c2, s, a, lo, lo + Lin(1), b, why, depth + 1); }
    }
    else if (b.k == Content::Val && a.k == Content::Seq)
    {
        Lin len = hi - lo;
        if (!cs.feasible(len - Lin(2))) { CS c2 = cs; c2.addEq(len, 1); if (!c2.unsat) return pieceMismatch(c2, s, a, lo, lo + Lin(1), b, why, depth + 1); }
    }
    why = "at [" + lo.str() + "," + hi.str() + "): " + a.str() + " vs expected " + b.str();
    return true;
}

// ---- element primitives -----------------------------------------------------------
bool Interp::mayThrow(const FunctionDecl* fd) const
{
    auto* pt = fd->getType()->getAs<FunctionProtoType>();
    if (!pt) return true;
    auto est = pt->getExceptionSpecType();
    if (est == EST_Unevaluated || est == EST_Uninstantiated || est == EST_Unparsed)
    {
        if (auto* md = dyn_cast<CXXMethodDecl>(fd)) { if (isa<CXXDestructorDecl>(md)) return false; }
        if (est == EST_Unevaluated) return false;
        return true;
    }
    return pt->canThrow() != CT_Cannot;
}

bool Interp::typeOpThrows(QualType t, int op)
{
    bool isConst = t.getNonReferenceType().isConstQualified();
    auto* rd = rec(t); if (!rd) return false;
    if (rd->getName() == "pair")
    {
        auto* sp = cast<ClassTemplateSpecializationDecl>(rd);
        for (int i = 0; i < 2; ++i)
        {
            QualType a = sp->getTemplateArgs()[i].getAsType();
            if (typeOpThrows(a, op)) return true;
        }
        return false;
    }
    if (isConst && op == 2) op = 1;
    const FunctionDecl* best = nullptr;
    if (op <= 2)
    {
        for (auto* c : rd->ctors())
        {
            if (c->isDeleted()) continue;
            if (op == 0 && c->isDefaultConstructor()) best = c;
            if (op == 1 && c->isCopyConstructor()) best = c;
            if (op == 2 && (c->isMoveConstructor() || (!best && c->isCopyConstructor()))) best = c;
        }
    }
    else
        for (auto* m : rd->methods())
        {
            if (m->isDeleted()) continue;
            if (op == 3 && m->isCopyAssignmentOperator()) best = m;
            if (op == 4 && (m->isMoveAssignmentOperator() || (!best && m->isCopyAssignmentOperator()))) best = m;
        }
    if (!best) return true;
    return mayThrow(best);
}

void Interp::throwUser(const State& s0, int kind, const std::string& what)
{
    if ((noThrowUser || gNoExc) && (kind == EX_USER || kind == EX_ALLOC)) return;
    if (!sink) return;
    State s = s0;
    if (!s.thrown) { s.thrown = kind; s.thrownAt = here() + " (" + what + ")"; }
    sink->push_back({std::move(s), kind});
}

// elements in the storage of an allocator-aware container: made and destroyed by its allocator only
void Interp::checkTraits(const State& s, int reg, const char* what)
{
    if (!aware || !s.regs.has(reg)) return;
    const Region& R = s.regs.at(reg); if (R.k != Region::Heap && !(R.k == Region::Inline && R.array)) return;
    ++nObligations;
    if (!viaTraits) { report(V_FORWARD, s, std::string(what) + " of an element in " + R.name + " bypasses allocator_traits"); return; }
    if (R.k != Region::Heap || viaTok < 0 || R.owner < 0 || R.owner == viaTok) return;
    auto it = s.facts.find("tokeq " + std::to_string(std::min(R.owner, viaTok)) + " " + std::to_string(std::max(R.owner, viaTok)));
    if (it == s.facts.end() || !it->second) report(V_FORWARD, s, std::string(what) + " of an element in " + R.name + " through an allocator that is not the container's");
}

SS Interp::elemConstruct(State s, const LV& dst, TermP term, bool thr, const char* what)
{
    SS out;
    if (dst.k != LV::Cell) throw Unsupported{"element construction in a non-cell"};
    if (!dst.path.empty()) throw Unsupported{"construction of a pair member"};
    for (auto& c : isolateAt(std::move(s), dst, what))
    {
        State& t = c.first;
        ++nObligations;
        if (t.regs.at(dst.reg).segs[c.second].freed) { report(V_OOB, t, std::string(what) + " in a segment that is not allocated"); continue; }
        if (t.regs.at(dst.reg).segs[c.second].live) { report(V_LIFE, t, std::string(what) + ": element constructed over a live element in " + t.regs.at(dst.reg).name); continue; }
        checkTraits(t, dst.reg, "construction");
        if (thr) throwUser(t, EX_USER, what);
        setCell(t, dst.reg, c.second, true, term);
        t.eff |= EF_CTOR; t.touched.insert(dst.reg);
        out.push_back(std::move(t));
    }
    return out;
}

std::vector<Interp::TS> Interp::readTerm(State s, const LV& src, const char* what)
{
    std::vector<TS> out;
    if (src.k != LV::Cell) throw Unsupported{"element read from a non-cell"};
    for (auto& c : isolateAt(std::move(s), src, what))
    {
        State& t = c.first;
        ++nObligations;
        if (!t.regs.at(src.reg).segs[c.second].live) { report(t.regs.at(src.reg).name == "range" ? V_ITER : V_LIFE, t, std::string(what) + ": use of a destroyed or never constructed element in " + t.regs.at(src.reg).name); continue; }
        TermP v = cellTerm(t, src.reg, c.second);
        for (int p : src.path) v = tProj(p, v);
        out.push_back({std::move(t), v});
    }
    return out;
}

static TermP updPath(TermP old, const std::vector<int>& path, size_t i, TermP nv)
{
    if (i == path.size()) return nv;
    TermP a = tProj(0, old), b = tProj(1, old);
    if (path[i] == 0) a = updPath(a, path, i + 1, nv); else b = updPath(b, path, i + 1, nv);
    if (a->k == Term::Moved && b->k == Term::Moved) return a;
    return mkTerm(Term::Pair, 0, 0, {a, b});
}

SS Interp::markMoved(State s, const LV& src)
{
    SS out;
    for (auto& c : isolateAt(std::move(s), src, "move from"))
    {
        State& t = c.first;
        if (!t.regs.at(src.reg).segs[c.second].live) continue;
        ++nObligations;
        if (t.regs.at(src.reg).k == Region::Ext) report(V_FORWARD, t, "an argument that is not an rvalue is moved from (" + t.regs.at(src.reg).name + ")");
        TermP old = cellTerm(t, src.reg, c.second);
        TermP nt = updPath(old, src.path, 0, tMoved());
        setCell(t, src.reg, c.second, true, nt);
        t.eff |= EF_MOVE; t.touched.insert(src.reg);
        out.push_back(std::move(t));
    }
    return out;
}

SS Interp::elemAssign(State s, const LV& dst, TermP term, const char* what)
{
    SS out;
    if (dst.k != LV::Cell) throw Unsupported{"element assignment to a non-cell"};
    for (auto& c : isolateAt(std::move(s), dst, what))
    {
        State& t = c.first;
        ++nObligations;
        if (!t.regs.at(dst.reg).segs[c.second].live) { report(V_LIFE, t, std::string(what) + ": assignment to a destroyed or never constructed element in " + t.regs.at(dst.reg).name); continue; }
        if (t.regs.at(dst.reg).k == Region::Ext) report(V_CONST, t, "write to an element that is not the container's");
        TermP old = cellTerm(t, dst.reg, c.second);
        TermP nt = dst.path.empty() ? term : updPath(old, dst.path, 0, term);
        setCell(t, dst.reg, c.second, true, nt);
        t.eff |= EF_ASSIGN; t.touched.insert(dst.reg);
        out.push_back(std::move(t));
    }
    return out;
}

SS Interp::elemDestroy(State s, const LV& lv, const char* what)
{
    SS out;
    if (lv.k != LV::Cell) throw Unsupported{"element destruction of a non-cell"};
    for (auto& c : isolateAt(std::move(s), lv, what))
    {
        State& t = c.first;
        ++nObligations;
        if (!t.regs.at(lv.reg).segs[c.second].live) { report(V_LIFE, t, std::string(what) + ": destruction of an element that is not alive in " + t.regs.at(lv.reg).name); continue; }
        checkTraits(t, lv.reg, "destruction");
        setCell(t, lv.reg, c.second, false, nullptr);
        t.eff |= EF_DESTROY; t.touched.insert(lv.reg);
        out.push_back(std::move(t));
    }
    return out;
}
