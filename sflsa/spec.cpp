#include "spec.hpp"
using namespace clang;

bool makeCInfo(Interp& I, QualType t, CInfo& ci)
{
    t = t.getCanonicalType();
    auto* sp = dyn_cast_or_null<ClassTemplateSpecializationDecl>(t->getAsCXXRecordDecl());
    if (!sp) return false;
    ci.type = t; ci.rd = sp; ci.name = sp->getNameAsString();
    auto has = [&](const char* x) { return ci.name.find(x) != std::string::npos; };
    ci.stat = has("static_"); ci.small = has("small_"); ci.seg = has("segmented_"); ci.de = has("devector"); ci.compact = has("compact_");
    ci.seq = has("vector"); ci.unord = has("unordered"); ci.map = has("map"); ci.multi = has("multi"); ci.sorted = !ci.seq && !ci.unord; ci.keyed = !ci.seq;
    auto& a = sp->getTemplateArgs();
    for (unsigned i = 0; i < a.size(); ++i)
    {
        if (a[i].getKind() == TemplateArgument::Integral) ci.N = (long)a[i].getAsIntegral().getExtValue();
        if (a[i].getKind() == TemplateArgument::Type)
        {
            auto* rd = a[i].getAsType()->getAsCXXRecordDecl();
            if (rd && rd->getName() == "A_alloc")
            {
                ci.hasAlloc = true;
                auto& b = cast<ClassTemplateSpecializationDecl>(rd)->getTemplateArgs();
                ci.aflags = (int)b[1].getAsIntegral().getExtValue();
            }
        }
    }
    for (auto* d : sp->decls()) if (auto* td = dyn_cast<TypedefNameDecl>(d))
    {
        if (td->getName() == "value_type") ci.T = td->getUnderlyingType().getCanonicalType();
        if (td->getName() == "key_type") ci.key = td->getUnderlyingType().getCanonicalType();
        if (td->getName() == "mapped_type") ci.mapped = td->getUnderlyingType().getCanonicalType();
    }
    if (ci.T.isNull()) return false;
    if (auto* e = ci.T->getAsCXXRecordDecl()) for (auto* c : e->ctors())
    {
        if (c->isCopyConstructor() && !c->isDeleted()) ci.strongElem = true;
        if (c->isMoveConstructor() && !c->isDeleted() && !I.mayThrow(c)) ci.strongElem = true;
    }
    return true;
}

std::string Spec::methodName(const FunctionDecl* fd)
{
    std::string s = fd->getNameAsString();
    if (isa<CXXConstructorDecl>(fd)) s = ci.name;
    if (isa<CXXDestructorDecl>(fd)) s = "~" + ci.name;
    s += "(";
    for (unsigned i = 0; i < fd->getNumParams(); ++i)
    {
        QualType t = fd->getParamDecl(i)->getType();
        std::string p;
        switch (classify(t))
        {
        case P_SIZE: p = "size"; break; case P_POS: p = "pos"; break; case P_VCL: p = "const T&"; break; case P_VRR: p = "T&&"; break; case P_VL: p = "T&"; break;
        case P_RANGE1: { std::string n = I.rec(t) ? I.rec(t)->getNameAsString() : "pointer"; p = n; break; }
        case P_ILIST: p = "initializer_list"; break; case P_CCL: p = "const C&"; break; case P_CRR: p = "C&&"; break; case P_CL: p = "C&"; break;
        case P_ALLOC: p = "alloc"; break; case P_COMP: p = "comp"; break; case P_PRED: p = "pred"; break; case P_ARG: p = t->isRValueReferenceType() ? "Arg&&" : "Arg&"; break; case P_TAG: p = "tag"; break;
        case P_KEY: p = I.rec(t) && I.rec(t)->getName() == "Het" ? (t->isRValueReferenceType() ? "Het&&" : "Het&") : t->isRValueReferenceType() ? "Key&&" : "const Key&"; break;
        case P_MAPPED: p = t->isRValueReferenceType() ? "M&&" : "M&"; break;
        default: p = t.getAsString();
        }
        s += (i ? ", " : "") + p;
    }
    s += ")";
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) if (md->isConst()) s += " const";
    return s;
}

PK Spec::classify(QualType t0) const
{
    QualType t = t0.getNonReferenceType().getCanonicalType();
    QualType u = t.getUnqualifiedType();
    bool rv = t0->isRValueReferenceType(), lv = t0->isLValueReferenceType();
    if (C.hasSameType(u, ci.T.getUnqualifiedType())) return rv ? P_VRR : lv ? (t.isConstQualified() ? P_VCL : P_VL) : P_VRR;
    if (C.hasSameType(u, ci.type.getUnqualifiedType())) return rv ? P_CRR : lv ? (t.isConstQualified() ? P_CCL : P_CL) : P_CRR;
    if (u->isIntegerType() && !u->isBooleanType()) return P_SIZE;
    if (!ci.key.isNull() && C.hasSameType(u, ci.key.getUnqualifiedType())) return P_KEY;
    if (!ci.mapped.isNull() && C.hasSameType(u, ci.mapped.getUnqualifiedType())) return P_MAPPED;
    if (u->isPointerType() && C.hasSameUnqualifiedType(u->getPointeeType(), ci.T)) return P_RANGE1;
    if (auto* rd = u->getAsCXXRecordDecl())
    {
        StringRef n = rd->getName();
        if (n == "normal_iterator" || n == "segmented_iterator") return P_POS;
        if (n.starts_with("It_") || n == "move_iterator") return P_RANGE1;
        if (n == "initializer_list") return P_ILIST;
        if (n.starts_with("A_")) return P_ALLOC;
        if (n.starts_with("C_") || n.starts_with("Q_")) return P_COMP;
        if (n.starts_with("P_")) return P_PRED;
        if (n == "Arg") return P_ARG;
        if (n == "Het") return P_KEY;
        if (rd->isEmpty()) return P_TAG;
    }
    return P_OTHER;
}

static bool isIterOp(const FunctionDecl* fd) { return fd->getDeclName().isIdentifier() && fd->getName().starts_with("it_"); }
State Spec::baseState()
{
    State s;
    Region nl; nl.k = Region::Null; nl.name = "null"; nl.size = 0; nl.segs.push_back(Seg()); s.regs.put(0, nl);
    s.scopes.push_back({});
    return s;
}

std::vector<int> Spec::shapes() const
{
    if (ci.stat) return {View::Inl};
    if (ci.seg) return {View::Heap};
    if (ci.small && ci.N > 0) return {View::Inl, View::Heap, View::Null};
    return {View::Null, View::Heap};
}
const char* Spec::shapeName(int sh) const { return sh == View::Inl ? "internal" : sh == View::Heap ? "heap" : "null"; }

static void setTokens(Interp& I, State& s, int obj, std::function<int(const CXXRecordDecl*)> f)
{
    auto o = s.objs.at(obj);
    if (o.k == ObjN::Token) { s.objs.mut(obj).v = Val::token(f(o.rd)); return; }
    if (o.k == ObjN::Record) for (int x : o.subs) setTokens(I, s, x, f);
}
static void findTokens(const State& s, int obj, std::vector<int>& out)
{
    auto& o = s.objs.at(obj);
    if (o.k == ObjN::Token) { out.push_back(obj); return; }
    if (o.k == ObjN::Record) for (int x : o.subs) findTokens(s, x, out);
}

static int newSeq(const std::string& nm, Lin size);
static void keySeq(const CInfo& ci, int seq, int tok) { if (!ci.keyed) return; auto& q = gSeqs[seq]; q.keyTok = tok; q.unique = !ci.multi; q.mapLike = ci.map; q.sorted = ci.sorted; }
static int newSeq(const std::string& nm, Lin size) { SeqInfo q; q.name = nm; q.size = size; gSeqs.push_back(q); return (int)gSeqs.size() - 1; }

int Spec::makeContainer(State& s, const std::string& nm, int shape, View& v, int& seq, Lin& n, int& tok, int& comp, bool uninit)
{
    int obj = I.newObj(s, ci.type);
    // name the inline storage
    int data = I.fieldByName(s, obj, "data_");
    if (data < 0) throw Unsupported{"container layout: no data_"};
    int inl = I.fieldByName(s, data, "internal_storage_");
    int f = I.fieldByName(s, data, "first_"), l = I.fieldByName(s, data, "last_"), e = I.fieldByName(s, data, "eos_"), b = I.fieldByName(s, data, "bos_");
    if (f < 0 || l < 0) throw Unsupported{"container layout: no first_/last_"};
    if (s.objs.at(f).k == ObjN::ElemBox) { inl = f; f = -1; }
    int inlReg = -1;
    if (inl >= 0) { inlReg = s.objs.at(inl).reg; s.regs.mut(inlReg).name = nm + ".internal"; }
    if (uninit) return obj;
    int tk = I.nextTok++; I.tokNames[tk] = nm + ".alloc"; tok = tk;
    int cp = I.nextTok++; I.tokNames[cp] = nm + ".comp"; comp = cp;
    setTokens(I, s, data, [&](const CXXRecordDecl* rd) { return rd->getName().starts_with("A_") ? tk : cp; });
    fillContainer(s, obj, nm, shape, tk, cp, v, seq, n);
    return obj;
}

// gives the storage of a container an arbitrary valid state of the given shape
void Spec::fillContainer(State& s, int obj, const std::string& nm, int shape, int tk, int cp, View& v, int& seq, Lin& n)
{
    int data = I.fieldByName(s, obj, "data_");
    int inl = I.fieldByName(s, data, "internal_storage_");
    int f = I.fieldByName(s, data, "first_"), l = I.fieldByName(s, data, "last_"), e = I.fieldByName(s, data, "eos_"), b = I.fieldByName(s, data, "bos_");
    if (ci.seg)
    {
        // segments [0, g) of the table entries [tf, tf+g); elements [fo, fo+n) of the cells [0, N*g)
        int tf = I.fieldByName(s, data, "table_first_"), tl = I.fieldByName(s, data, "table_last_"), te = I.fieldByName(s, data, "table_eos_"), tb = I.fieldByName(s, data, "table_bos_");
        if (tf < 0 || tl < 0 || te < 0 || e < 0) throw Unsupported{"container layout: no table"};
        v.k = View::Heap; int N = (int)ci.N;
        Lin n0 = Lin::sym(newSym("size(" + nm + ")")), g = Lin::sym(newSym("segments(" + nm + ")")), tc = Lin::sym(newSym("table(" + nm + ")")), t0 = 0, fo = 0; n = n0;
        s.cs.add(n0); s.cs.add(g - Lin(1)); seq = newSeq(nm, n0); keySeq(ci, seq, cp);
        if (tb >= 0) { t0 = Lin::sym(newSym("tfirst(" + nm + ")")); s.cs.add(t0); }
        if (b >= 0) { fo = Lin::sym(newSym("front(" + nm + ")")); s.cs.add(fo); }
        s.cs.add(tc - t0 - g); s.cs.add(g * N - Lin(1) - fo - n0);
        if (I.maxszSym >= 0) { s.cs.add(Lin::sym(I.maxszSym) - g * N + Lin(1)); s.cs.add(Lin::sym(I.maxszSym) - tc); }
        SeqInfo q; q.name = "segments of " + nm; gSeqs.push_back(q); int vs = (int)gSeqs.size() - 1;
        int T = I.newRegion(s, Region::Heap, nm + ".table", tc, false, Content::unk(), C.getPointerType(ci.T));
        int V = I.newRegion(s, Region::Heap, nm + ".segments", SEG_HI, false, Content::unk(), ci.T);
        Region& RT = s.regs.mut(T); RT.owner = tk; RT.table = true; RT.vreg = V; RT.segs.clear();
        if (tb >= 0) RT.segs.push_back(Seg());
        Seg a; a.lo = t0; a.live = true; a.c = Content::ofSeq(vs, -t0); RT.segs.push_back(a);
        Seg z; z.lo = t0 + g; RT.segs.push_back(z);
        Region& RV = s.regs.mut(V); RV.owner = tk; RV.segN = N; RV.vseq = vs; RV.segs.clear();
        auto put = [&](Lin lo, bool live, bool fr) { Seg x; x.lo = lo; x.live = live; x.freed = fr; if (live) x.c = Content::ofSeq(seq, -lo); RV.segs.push_back(x); };
        put(SEG_LO, false, true); if (b >= 0) put(0, false, false); put(fo, true, false); put(fo + n0, false, false); put(g * N, false, true);
        auto sp = [&](int o, Lin off) { s.objs.mut(o).v = Val::ptr(T, off); };
        sp(tf, t0); sp(tl, t0 + g); sp(te, tc); if (tb >= 0) sp(tb, 0);
        setIter(s, f, Val::ptr(V, fo)); setIter(s, l, Val::ptr(V, fo + n0)); setIter(s, e, Val::ptr(V, g * N - Lin(1))); if (b >= 0) setIter(s, b, Val::ptr(V, 0));
        v.reg = V; v.tab = T; v.f = fo; v.l = fo + n0; v.cap = g * N - Lin(1); v.b = 0;
        return;
    }
    if (s.objs.at(f).k == ObjN::ElemBox) { inl = f; f = -1; }
    int inlReg = inl >= 0 ? s.objs.at(inl).reg : -1;
    v.k = (View::K)shape;
    auto putp = [&](int o, int reg, Lin off) { if (o >= 0) { if (s.objs.at(o).k != ObjN::Scalar) throw Unsupported{"container layout: pointer member"}; s.objs.mut(o).v = Val::ptr(reg, off); } };
    if (shape == View::Null)
    {
        n = 0; seq = newSeq(nm, 0); keySeq(ci, seq, cp); v.reg = 0; v.f = v.l = v.cap = 0;
        putp(f, 0, 0); putp(l, 0, 0); putp(e, 0, 0); putp(b, 0, 0);
        return;
    }
    Lin N = Lin::sym(newSym("size(" + nm + ")")); n = N;
    s.cs.add(N);
    seq = newSeq(nm, N); keySeq(ci, seq, cp);
    int reg; Lin cap, fo = 0;
    if (shape == View::Inl) { reg = inlReg; cap = Lin((I128)ci.N); if (reg < 0) throw Unsupported{"container layout: no internal storage"}; }
    else
    {
        if (ci.compact) cap = N; else cap = Lin::sym(newSym("cap(" + nm + ")"));
        reg = I.newRegion(s, Region::Heap, nm + ".heap", cap, false, Content::unk(), ci.T);
        s.regs.mut(reg).owner = tk;
        s.cs.add(cap - Lin(1));
        if (I.maxszSym >= 0) s.cs.add(Lin::sym(I.maxszSym) - cap);
        if (ci.de) { fo = Lin::sym(newSym("front(" + nm + ")")); s.cs.add(fo); }
    }
    s.cs.add(cap - fo - N);
    Region& R = s.regs.mut(reg);
    R.segs.clear();
    Seg g0; g0.lo = 0; g0.live = false; 
    if (!(fo.isConst() && fo.c == 0)) R.segs.push_back(g0);
    Seg g1; g1.lo = fo; g1.live = true; g1.c = Content::ofSeq(seq, -fo); R.segs.push_back(g1);
    if (!ci.compact) { Seg g2; g2.lo = fo + N; R.segs.push_back(g2); }
    putp(f, reg, fo); putp(l, reg, fo + N); putp(e, reg, cap); putp(b, reg, 0);
    v.reg = reg; v.f = fo; v.l = fo + N; v.cap = cap;
}

static int ptrLeaf(const State& s, int obj)
{
    auto& o = s.objs.at(obj);
    if (o.k == ObjN::Scalar) return obj;
    if (o.k != ObjN::Record) return -1;
    int found = -1;
    for (int x : o.subs) { int y = ptrLeaf(s, x); if (y >= 0) { if (found >= 0) return -1; found = y; } }
    return found;
}
int Spec::segIter(const State& s, int obj) const { return Interp::segItObj(s, obj); }
bool Spec::denseLV(State& s, LV& l)
{
    if (l.k != LV::Cell) return true;
    bool ok = true; l.off = I.dense(s, l.reg, l.off, false, "result", &ok); return ok;
}
void Spec::setIter(State& s, int obj, Val p)
{
    int si = segIter(s, obj); if (si >= 0) { I.segItSet(s, si, p); return; }
    int l = ptrLeaf(s, obj); if (l < 0) throw Unsupported{"iterator layout"};
    s.objs.mut(l).v = p;
}
bool Spec::getIter(State& s, int obj, Val& p)
{
    int si = segIter(s, obj); if (si >= 0) return I.segItGet(s, si, p);
    int l = ptrLeaf(s, obj); if (l < 0) return false;
    p = s.objs.at(l).v; return true;
}

int Spec::tokenOf(State& s, int obj, const char* which)
{
    std::vector<int> ts; findTokens(s, obj, ts);
    for (int t : ts) { auto& o = s.objs.at(t); bool al = o.rd->getName().starts_with("A_"); if (al == (which[0] == 'a')) return o.v.k == Val::Tok ? o.v.tok : -1; }
    return -2;
}

// Adds parameter i to every entry; returns false when the parameter kind is not modelled.
bool Spec::addParam(std::vector<Entry>& es, const FunctionDecl* fd, unsigned i, const std::vector<QualType>& tys, bool& two)
{
    QualType t = tys[i]; PK k = classify(t); two = false;
    std::vector<Entry> out;
    std::string fn = fd->getNameAsString();
    for (auto& e : es)
    {
        PA p; p.k = k; p.rval = t->isRValueReferenceType();
        std::string id = std::to_string(i);
        switch (k)
        {
        case P_SIZE:
        {
            Lin x = Lin::sym(newSym("n" + id));
            if (t->isSignedIntegerType()) { e.s.cs.add(x + Lin((I128)1 << 62)); e.s.cs.add(Lin((I128)1 << 62) - x); }
            else { e.s.cs.add(x); e.s.cs.add(Lin(((I128)1 << 64) - 1) - x); }
            int o = I.newObj(e.s, t.getNonReferenceType()); e.s.objs.mut(o).v = Val::integer(x);
            p.v = x; p.obj = o; e.args.push_back(LV::ofObj(o)); e.pa.push_back(p); out.push_back(std::move(e)); break;
        }
        case P_POS:
        {
            if (fn.find("it_range") == 0 && e.pa.size() > 1 && !gNeg)
            {
                PA* oc = nullptr; for (auto& q : e.pa) if (q.k == P_CCL) oc = &q;
                if (oc)
                {
                    // a position in the other container
                    View ov = oc->view; Lin x = ov.k == View::Null ? Lin(0) : Lin::sym(newSym("q" + id));
                    if (ov.k != View::Null) { e.s.cs.add(x); e.s.cs.add(oc->len - x); if (e.pa.back().k == P_POS) e.s.cs.add(x - e.pa.back().v); }
                    int o = I.newObj(e.s, t.getNonReferenceType()); setIter(e.s, o, ov.k == View::Null ? Val::ptr(0, 0) : Val::ptr(ov.reg, ov.f + x));
                    p.v = x; p.obj = o; e.args.push_back(LV::ofObj(o)); e.pa.push_back(p); out.push_back(std::move(e)); break;
                }
            }
            Lin x = e.v.k == View::Null ? Lin(0) : Lin::sym(newSym("p" + id));
            if (e.v.k != View::Null && gNeg) { e.s.cs.add(e.v.f + x); e.s.cs.add(e.v.cap - e.v.f - x); }
            else if (e.v.k != View::Null) { e.s.cs.add(x); e.s.cs.add(e.n - x); }
            // second position of a range is not before the first one
            if (!gNeg && !isIterOp(fd)) for (auto& q : e.pa) if (q.k == P_POS && &q == &e.pa.back()) e.s.cs.add(x - q.v);
            int o = I.newObj(e.s, t.getNonReferenceType()); setIter(e.s, o, e.v.k == View::Null ? Val::ptr(0, 0) : Val::ptr(e.v.reg, e.v.f + x));
            p.v = x; p.obj = o; e.args.push_back(LV::ofObj(o)); e.pa.push_back(p); out.push_back(std::move(e)); break;
        }
        case P_VCL: case P_KEY:
        {
            if (k == P_KEY && I.rec(t) && I.rec(t)->getName() == "Het")
            {
                int o = I.newObj(e.s, t.getNonReferenceType()); p.obj = o; p.term = tExt(1000000 + o);
                e.args.push_back(LV::ofObj(o)); p.lv = LV::ofObj(o); e.pa.push_back(p); out.push_back(std::move(e)); break;
            }
            if (k == P_KEY && p.rval)
            {
                p.term = tExt(100 + (int)i);
                int r = I.newRegion(e.s, Region::Local, "argument", 1, true, Content::val(p.term), t.getNonReferenceType());
                e.args.push_back(LV::cell(r, 0)); p.lv = e.args.back(); e.pa.push_back(p); out.push_back(std::move(e)); break;
            }
            {
                Entry f = e; PA q = p;
                int vid = 100 + (int)i; q.term = tExt(vid);
                int r = I.newRegion(f.s, Region::Ext, "argument", 1, true, Content::val(q.term), t.getNonReferenceType());
                f.args.push_back(LV::cell(r, 0)); q.lv = f.args.back(); f.pa.push_back(q); out.push_back(std::move(f));
            }
            // (assign requires, as any SequenceContainer, that the value is not an element of the container)
            if (!e.ctor && e.v.k != View::Null && fn != "assign" && !freeFn)
            {
                Entry f = e; PA q = p;
                Lin x = Lin::sym(newSym("alias")); f.s.cs.add(x); f.s.cs.add(f.n - x - Lin(1));
                if (f.s.cs.unsat || !f.s.cs.feasible(x)) break;
                q.term = tElem(f.seq, x); if (k == P_KEY) q.term = tProj(0, q.term); q.selfAlias = true; q.aliasIdx = x; f.alias = true; f.desc += " value refers to own element";
                f.args.push_back(LV::cell(f.v.reg, cellOff(f.s, f.v.reg, f.v.f + x))); if (k == P_KEY) f.args.back().path.push_back(0); q.lv = f.args.back(); f.pa.push_back(q); out.push_back(std::move(f));
            }
            break;
        }
        case P_VRR: case P_VL: case P_MAPPED:
        {
            int vid = 100 + (int)i; p.term = tExt(vid);
            int r = I.newRegion(e.s, k == P_MAPPED && !p.rval ? Region::Ext : Region::Local, "argument", 1, true, Content::val(p.term), t.getNonReferenceType());
            e.args.push_back(LV::cell(r, 0)); p.lv = e.args.back(); e.pa.push_back(p); out.push_back(std::move(e)); break;
        }
        case P_RANGE1:
        {
            if (i + 1 >= tys.size() || !sameType(tys[i + 1], t)) return false;
            two = true;
            Lin m = Lin::sym(newSym("m")); e.s.cs.add(m); e.s.cs.add(Lin(((I128)1 << 62)) - m);
            int sq = newSeq("range", m);
            auto* rd = I.rec(t); bool in = rd && (rd->getName() == "It_in" || rd->getName() == "move_iterator");
            QualType et = ci.T;
            int r = I.newRegion(e.s, in ? Region::Local : Region::Ext, "range", m, true, Content::ofSeq(sq, 0), et);
            for (int j = 0; j < 2; ++j)
            {
                int o = I.newObj(e.s, t.getNonReferenceType()); setIter(e.s, o, Val::ptr(r, j ? m : Lin(0)));
                PA q = p; q.singlePass = rd && rd->getName() == "It_in"; q.moveIt = rd && rd->getName() == "move_iterator"; q.k = j ? P_RANGE2 : P_RANGE1; q.seq = sq; q.len = m; q.obj = o; e.args.push_back(LV::ofObj(o)); e.pa.push_back(q);
            }
            out.push_back(std::move(e)); break;
        }
        case P_ILIST:
        {
            Lin m = Lin::sym(newSym("m")); e.s.cs.add(m); e.s.cs.add(Lin(((I128)1 << 62)) - m);
            int sq = newSeq("list", m);
            int r = I.newRegion(e.s, Region::Ext, "initializer_list", m, true, Content::ofSeq(sq, 0), ci.T);
            int o = I.newObj(e.s, t.getNonReferenceType());
            int a = I.fieldByName(e.s, o, "_M_array"), b = I.fieldByName(e.s, o, "_M_len"); if (a < 0 || b < 0) return false;
            e.s.objs.mut(a).v = Val::ptr(r, 0); e.s.objs.mut(b).v = Val::integer(m);
            p.seq = sq; p.len = m; p.obj = o; e.args.push_back(LV::ofObj(o)); e.pa.push_back(p); out.push_back(std::move(e)); break;
        }
        case P_CCL: case P_CRR: case P_CL:
        {
            bool firstContainer = e.self < 0;
            for (int sh : shapes())
            {
                Entry f = e; PA q = p; int o; int cp, tk; Lin n; int sq; View v;
                o = makeContainer(f.s, firstContainer ? "c" : "other", sh, v, sq, n, tk, cp, false);
                q.obj = o; q.seq = sq; q.len = n; q.tok = tk; q.view = v; q.comp = cp; q.lv = LV::ofObj(o);
                f.desc += std::string(firstContainer ? "" : " other=") + shapeName(sh);
                if (firstContainer) { f.self = o; f.v = v; f.seq = sq; f.n = n; f.tok = tk; f.comp = cp; f.selfLV = LV::ofObj(o); }
                if ((ci.aflags & 8) && !firstContainer && f.tok >= 0) f.s.facts["tokeq " + std::to_string(std::min(f.tok, tk)) + " " + std::to_string(std::max(f.tok, tk))] = true;
                f.args.push_back(LV::ofObj(o)); f.pa.push_back(q); out.push_back(std::move(f));
            }
            // (self-move assignment of inline elements is the element type's own business)
            if (!e.ctor && e.self >= 0 && (fn == "swap" || (fn == "operator=" && !(k == P_CRR && e.v.k == View::Inl))))
            {
                Entry f = e; PA q = p; q.obj = f.self; q.selfAlias = true; q.seq = f.seq; q.len = f.n; q.tok = f.tok; q.view = f.v; q.lv = LV::ofObj(f.self); q.comp = f.comp;
                f.desc += " other=itself"; f.args.push_back(LV::ofObj(f.self)); f.pa.push_back(q); out.push_back(std::move(f));
            }
            break;
        }
        case P_ALLOC: case P_COMP: case P_PRED:
        {
            int o = I.newObj(e.s, t.getNonReferenceType()); int tk = I.nextTok++; I.tokNames[tk] = k == P_ALLOC ? "given allocator" : k == P_COMP ? "given comparator" : "predicate";
            e.s.objs.mut(o).v = Val::token(tk); p.tok = tk; p.obj = o; p.lv = LV::ofObj(o);
            if ((ci.aflags & 8) && k == P_ALLOC) for (auto& q : e.pa) if (q.tok >= 0) e.s.facts["tokeq " + std::to_string(std::min(q.tok, tk)) + " " + std::to_string(std::max(q.tok, tk))] = true;
            e.args.push_back(LV::ofObj(o)); e.pa.push_back(p); out.push_back(std::move(e)); break;
        }
        case P_ARG:
        {
            int o = I.newObj(e.s, t.getNonReferenceType()); p.obj = o; p.term = tExt(1000000 + o);
            e.args.push_back(LV::ofObj(o)); p.lv = LV::ofObj(o); e.pa.push_back(p); out.push_back(std::move(e)); break;
        }
        case P_TAG:
        {
            int o = I.newObj(e.s, t.getNonReferenceType()); e.args.push_back(LV::ofObj(o)); e.pa.push_back(p); out.push_back(std::move(e)); break;
        }
        default: return false;
        }
    }
    es = std::move(out);
    return true;
}

// ---- views -------------------------------------------------------------------------
bool Spec::viewSeg(State& s, int obj, View& v, const std::string& what)
{
    int data = I.fieldByName(s, obj, "data_"); if (data < 0) throw Unsupported{"container layout"};
    auto fld = [&](const char* n) { return I.fieldByName(s, data, n); };
    int f = fld("first_"), l = fld("last_"), e = fld("eos_"), b = fld("bos_"), tf = fld("table_first_"), tl = fld("table_last_"), te = fld("table_eos_"), tb = fld("table_bos_");
    if (f < 0 || l < 0 || e < 0 || tf < 0 || tl < 0 || te < 0) throw Unsupported{"container layout"};
    auto bad = [&](const std::string& m, std::vector<Lin> ex = {}) { I.report(V_INV, s, what + ": " + m, ex); return false; };
    auto need = [&](const Lin& x, const std::string& m) { ++I.nObligations; if (s.cs.entails(x)) return true; return bad(m + " [" + x.str() + ">=0 not implied]", {-x - Lin(1)}); };
    auto needEq = [&](const Lin& x, const Lin& y, const std::string& m) { return need(x - y, m) && need(y - x, m); };
    ++I.nObligations;
    Val t[4]; int ti[4] = {tf, tl, te, tb};
    for (int i = 0; i < 4; ++i) if (ti[i] >= 0)
    {
        t[i] = s.objs.at(ti[i]).v;
        if (t[i].k == Val::Uninit) return bad("table pointers are left uninitialised");
        if (!t[i].isPtrCell()) throw Unsupported{"unknown table pointers"};
        if (t[i].lv.reg != t[0].lv.reg) return bad("table pointers designate different tables");
    }
    int T = t[0].lv.reg;
    if (T == 0) return bad("no storage");
    if (!s.regs.has(T)) return bad("the table has been released");
    I.compact(s, T);
    const Region RT = s.regs.at(T); Lin a = t[0].lv.off, z = t[1].lv.off;
    if (tb >= 0) { if (!needEq(t[3].lv.off, 0, "table_bos_ is not the start of the table") || !need(a, "table_first_ before the table")) return false; }
    else if (!needEq(a, 0, "table_first_ is not the start of the table")) return false;
    if (!needEq(t[2].lv.off, RT.size, "table_eos_ is not the end of the table") || !need(RT.size - z, "table_last_ beyond the table") || !need(z - a - Lin(1), "no segment")) return false;
    int vs = -1; Lin sh; int n = (int)RT.segs.size();
    for (int i = 0; i < n; ++i)
    {
        Lin lo = RT.segs[i].lo, hi = i + 1 < n ? RT.segs[i + 1].lo : RT.size;
        std::vector<Lin> c = {hi - lo - Lin(1), hi - a - Lin(1), z - lo - Lin(1)};
        ++I.nObligations; if (!s.cs.feasible2(c)) continue;
        if (!RT.segs[i].live) return bad("table entry that was never assigned", c);
        if (RT.segs[i].c.k != Content::Seq) throw Unsupported{"unknown table entries"};
        if (vs < 0) { vs = RT.segs[i].c.seq; sh = RT.segs[i].c.shift; }
        else if (vs != RT.segs[i].c.seq || !s.cs.entailsEq(sh, RT.segs[i].c.shift)) return bad("table entries designate segments out of order", c);
    }
    int V = vs < 0 ? -1 : I.segRegion(s, vs);
    if (V < 0) throw Unsupported{"segments of a table"};
    I.compact(s, V);
    const Region R = s.regs.at(V); int N = R.segN;
    Lin b0 = (a + sh) * N, e0 = (z + sh) * N; n = (int)R.segs.size();
    for (int i = 0; i < n; ++i)
    {
        bool lowInf = i == 0, highInf = i == n - 1; Lin lo = R.segs[i].lo, hi = highInf ? R.size : R.segs[i + 1].lo; ++I.nObligations;
        if (R.segs[i].freed)
        {
            std::vector<Lin> c; if (!lowInf && !highInf) c.push_back(hi - lo - Lin(1)); if (!highInf) c.push_back(hi - b0 - Lin(1)); if (!lowInf) c.push_back(e0 - lo - Lin(1));
            if (s.cs.feasible2(c)) return bad("table entry of a segment that has been released", c);
        }
        else
        {
            if (lowInf || highInf) throw Unsupported{"segments of a table"};
            std::vector<Lin> c = {hi - lo - Lin(1), b0 - lo - Lin(1)}, d = {hi - lo - Lin(1), hi - e0 - Lin(1)};
            for (auto& q : {c, d}) if (s.cs.feasible2(q)) { I.report(V_LEAK_MEM, s, what + ": a segment outside of [table_first_, table_last_) is lost", q); return false; }
        }
    }
    Val p[4]; int pi[4] = {f, l, e, b};
    for (int i = 0; i < 4; ++i) if (pi[i] >= 0)
    {
        if (!getIter(s, pi[i], p[i])) return false;
        if (!p[i].isPtrCell()) throw Unsupported{"unknown storage pointers"};
        if (p[i].lv.reg != V) return bad("an iterator does not point into the segments of the table");
        int so = I.fieldByName(s, segIter(s, pi[i]), "segment_");
        if (so < 0 || !s.objs.at(so).v.isPtrCell() || s.objs.at(so).v.lv.reg != T) return bad("an iterator does not point into the table");
    }
    v.k = View::Heap; v.reg = V; v.tab = T; v.f = p[0].lv.off; v.l = p[1].lv.off; v.cap = p[2].lv.off; v.b = b >= 0 ? p[3].lv.off : v.f;
    if (b >= 0) { if (!needEq(v.b, b0, "bos_ is not the start of the first segment") || !need(v.f - v.b, "first_ before bos_")) return false; }
    else if (!needEq(v.f, b0, "first_ is not the start of the first segment")) return false;
    if (!need(v.l - v.f, "last_ before first_") || !needEq(v.cap, e0 - Lin(1), "eos_ is not the last cell of the last segment") || !need(v.cap - v.l, "last_ beyond eos_")) return false;
    for (int i = 0; i < n; ++i)
    {
        Lin lo = R.segs[i].lo, hi = i + 1 < n ? R.segs[i + 1].lo : R.size; ++I.nObligations;
        if (R.segs[i].live)
        {
            std::vector<Lin> c1 = {hi - lo - Lin(1), v.f - lo - Lin(1)}, c2 = {hi - lo - Lin(1), hi - v.l - Lin(1)};
            if (s.cs.feasible2(c1)) { I.report(V_LEAK_ELEM, s, what + ": live elements before first_", c1); return false; }
            if (s.cs.feasible2(c2)) { I.report(V_LEAK_ELEM, s, what + ": live elements beyond last_", c2); return false; }
        }
        else
        {
            std::vector<Lin> c = {v.l - v.f - Lin(1)}; if (i + 1 < n) c.push_back(hi - v.f - Lin(1)); if (i) c.push_back(v.l - lo - Lin(1)); if (i && i + 1 < n) c.push_back(hi - lo - Lin(1));
            if (s.cs.feasible2(c)) { I.report(V_LIFE, s, what + ": cells between first_ and last_ hold no live element", c); return false; }
        }
    }
    int tk = tokenOf(s, obj, "alloc"); ++I.nObligations;
    for (int ow : {RT.owner, R.owner}) if (tk >= 0 && ow >= 0 && tk != ow)
    {
        auto it = s.facts.find("tokeq " + std::to_string(std::min(tk, ow)) + " " + std::to_string(std::max(tk, ow)));
        if (it == s.facts.end() || !it->second) { I.report(V_DEALLOC, s, what + ": holds a block of " + I.tokNames[ow] + " but its allocator is " + I.tokNames[tk] + ", which need not compare equal"); return false; }
    }
    return true;
}

bool Spec::view(State& s, int obj, View& v, const std::string& what, bool inExc)
{
    (void)inExc;
    if (!s.objs.has(obj)) { I.report(V_INV, s, what + " vanished"); return false; }
    if (ci.seg) return viewSeg(s, obj, v, what);
    int data = I.fieldByName(s, obj, "data_"); if (data < 0) throw Unsupported{"container layout"};
    int f = I.fieldByName(s, data, "first_"), l = I.fieldByName(s, data, "last_"), e = I.fieldByName(s, data, "eos_"), b = I.fieldByName(s, data, "bos_"), inl = I.fieldByName(s, data, "internal_storage_");
    if (f < 0 || l < 0) throw Unsupported{"container layout"};
    auto get = [&](int o) { return s.objs.at(o).v; };
    int inlReg = -1; Val vf;
    if (s.objs.at(f).k == ObjN::ElemBox) { inlReg = s.objs.at(f).reg; vf = Val::ptr(inlReg, 0); }
    else { vf = get(f); if (inl >= 0) inlReg = s.objs.at(inl).reg; }
    Val vl = get(l), ve = e >= 0 ? get(e) : Val(), vb = b >= 0 ? get(b) : Val();
    ++I.nObligations;
    auto bad = [&](const std::string& m, std::vector<Lin> ex = {}) { I.report(V_INV, s, what + ": " + m, ex); return false; };
    auto isP = [&](const Val& x) { return x.isPtrCell(); };
    if (vf.k == Val::Uninit || vl.k == Val::Uninit || (e >= 0 && ve.k == Val::Uninit) || (b >= 0 && vb.k == Val::Uninit)) return bad("storage pointers are left uninitialised");
    if (!isP(vf) || !isP(vl) || (e >= 0 && !isP(ve)) || (b >= 0 && !isP(vb))) throw Unsupported{"unknown storage pointers"};
    int reg = vf.lv.reg;
    if (vl.lv.reg != reg || (e >= 0 && ve.lv.reg != reg) || (b >= 0 && vb.lv.reg != reg)) return bad("storage pointers designate different blocks");
    v.reg = reg;
    if (!s.regs.has(reg)) return bad("storage pointers designate a block that has been released");
    I.compact(s, reg);
    const Region& R = s.regs.at(reg);
    v.f = vf.lv.off; v.l = vl.lv.off; v.cap = R.size;
    if (R.k == Region::Null) { v.k = View::Null; v.f = v.l = v.cap = 0; }
    else if (reg == inlReg) v.k = View::Inl;
    else if (R.k == Region::Heap) v.k = View::Heap;
    else return bad("storage pointers designate foreign storage (" + R.name + ")");
    auto need = [&](const Lin& x, const std::string& m) { ++I.nObligations; if (s.cs.entails(x)) return true; return bad(m + " [" + x.str() + ">=0 not implied]", {-x - Lin(1)}); };
    auto needEq = [&](const Lin& x, const Lin& y, const std::string& m) { return need(x - y, m) && need(y - x, m); };
    if (v.k != View::Null)
    {
        Lin lo = 0;
        if (b >= 0) { if (!needEq(vb.lv.off, 0, "start-of-storage pointer is not the start of the block")) return false; if (!need(v.f, "first_ before the block")) return false; }
        else if (!needEq(v.f, 0, "first_ is not the start of the block")) return false;
        if (!need(v.l - v.f, "last_ before first_")) return false;
        if (e >= 0) { if (!needEq(ve.lv.off, R.size, "end-of-storage pointer is not the end of the block")) return false; if (!need(R.size - v.l, "last_ beyond the block")) return false; }
        else if (ci.compact) { if (!needEq(v.l, R.size, "compact storage is not exactly filled")) return false; }
        else if (!need(R.size - v.l, "last_ beyond the block")) return false;
    }
    // typestate of the cells
    if (v.k != View::Null)
    {
        int n = (int)R.segs.size();
        for (int i = 0; i < n; ++i)
        {
            Lin lo = R.segs[i].lo, hi = i + 1 < n ? R.segs[i + 1].lo : R.size;
            ++I.nObligations;
            std::vector<Lin> c1 = {hi - lo - Lin(1), v.f - lo - Lin(1)}, c2 = {hi - lo - Lin(1), hi - v.l - Lin(1)};
            if (R.segs[i].live)
            {
                if (s.cs.feasible2(c1)) { I.report(V_LEAK_ELEM, s, what + ": live elements before first_", c1); return false; }
                if (s.cs.feasible2(c2)) { I.report(V_LEAK_ELEM, s, what + ": live elements beyond last_", c2); return false; }
            }
            else
            {
                std::vector<Lin> c = {hi - lo - Lin(1), v.l - v.f - Lin(1), hi - v.f - Lin(1), v.l - lo - Lin(1)};
                if (s.cs.feasible2(c)) { I.report(V_LIFE, s, what + ": cells between first_ and last_ hold no live element", c); return false; }
            }
        }
    }
    // the internal storage holds nothing while it is not in use
    if (inlReg >= 0 && v.k != View::Inl)
    {
        I.compact(s, inlReg);
        const Region& Q = s.regs.at(inlReg); int n = (int)Q.segs.size();
        for (int i = 0; i < n; ++i) if (Q.segs[i].live)
        {
            Lin lo = Q.segs[i].lo, hi = i + 1 < n ? Q.segs[i + 1].lo : Q.size;
            if (s.cs.feasible(hi - lo - Lin(1))) { I.report(V_LEAK_ELEM, s, what + ": elements left alive in the unused internal storage", {hi - lo - Lin(1)}); return false; }
        }
    }
    if (v.k == View::Heap)
    {
        int tk = tokenOf(s, obj, "alloc");
        ++I.nObligations;
        if (tk >= 0 && R.owner >= 0 && tk != R.owner)
        {
            auto it = s.facts.find("tokeq " + std::to_string(std::min(tk, R.owner)) + " " + std::to_string(std::max(tk, R.owner)));
            if (it == s.facts.end() || !it->second) { I.report(V_DEALLOC, s, what + ": holds a block of " + I.tokNames[R.owner] + " but its allocator is " + I.tokNames[tk] + ", which need not compare equal"); return false; }
        }
    }
    return true;
}

bool Spec::checkPieces(State& s, const View& v, const std::vector<Interp::Piece>& ps, VK k, const std::string& what, const Lin* at)
{
    ++nCompared; ++I.nObligations;
    if (ci.unord && k != V_STRONG) return checkPerm(s, v, ps, k, what, at);
    Lin total = 0; for (auto& p : ps) total = total + p.len;
    Lin len = v.n();
    for (int sgn = 0; sgn < 2; ++sgn)
    {
        Lin d = sgn ? total - len : len - total;
        if (!s.cs.entails(d)) { I.report(k, s, what + ": size is " + len.str() + " instead of " + total.str(), {-d - Lin(1)}); return false; }
    }
    if (v.k == View::Null) return true;
    const Region& R = s.regs.at(v.reg);
    Lin b = v.f; int n = (int)R.segs.size();
    for (auto& p : ps)
    {
        Lin e = b + p.len;
        Content c = p.c; if (c.k == Content::Unk) { b = e; continue; }
        if (c.k == Content::Seq) c.shift = c.shift - b;
        for (int i = 0; i < n; ++i)
        {
            if (!R.segs[i].live) continue;
            Lin l1 = R.segs[i].lo, h1 = i + 1 < n ? R.segs[i + 1].lo : R.size;
            std::vector<Lin> cond = {e - b - Lin(1), h1 - l1 - Lin(1), e - l1 - Lin(1), h1 - b - Lin(1)};
            if (!s.cs.feasible2(cond)) continue;
            CS c2 = s.cs; for (auto& x : cond) c2.add(x);
            Lin ls[2] = {b, l1}, hs[2] = {e, h1};
            bool eqL = c2.entailsEq(b, l1), eqH = c2.entailsEq(e, h1);
            for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y)
            {
                if ((eqL && x) || (eqH && y)) continue;
                CS c3 = c2;
                if (!eqL) { if (!c3.feasible(ls[x] - ls[1 - x] - Lin(x))) continue; c3.add(ls[x] - ls[1 - x] - Lin(x)); }
                if (!eqH) { if (!c3.feasible(hs[1 - y] - hs[y] - Lin(y))) continue; c3.add(hs[1 - y] - hs[y] - Lin(y)); }
                if (c3.unsat) continue;
                ++I.nObligations;
                std::string why;
                if (I.pieceMismatch(c3, s, R.segs[i].c, ls[x], hs[y], c, why))
                {
                    State t = s; t.cs = c3;
                    std::map<int, I128> m; if (c3.intModel({hs[y] - ls[x] - Lin(1)}, m) == 0) continue;
                    I.report(k, t, what + ": wrong contents " + why, {hs[y] - ls[x] - Lin(1)});
                    return false;
                }
            }
        }
        b = e;
    }
    return true;
}

// The same elements in any order: every actual element is one of the expected ones, none twice, and as many of them.
bool Spec::checkPerm(State& s, const View& v, const std::vector<Interp::Piece>& ps0, VK k, const std::string& what, const Lin* at)
{
    Lin total = 0; for (auto& p : ps0) total = total + p.len;
    Lin len = v.n();
    for (int sgn = 0; sgn < 2; ++sgn)
    {
        Lin d = sgn ? total - len : len - total;
        if (!s.cs.entails(d)) { I.report(k, s, what + ": size is " + len.str() + " instead of " + total.str(), {-d - Lin(1)}); return false; }
    }
    if (v.k == View::Null) return true;
    I.compact(s, v.reg);
    Region R = s.regs.at(v.reg);
    struct Item { bool run; int seq; Lin lo, hi; TermP t; Lin n; bool used; };
    std::vector<Item> ex;
    for (auto& p : ps0)
    {
        if (s.cs.entails(-p.len)) continue;
        Item e; e.used = false; e.run = p.c.k == Content::Seq; e.n = p.len;
        if (e.run) { e.seq = p.c.seq; e.lo = p.c.shift; e.hi = p.c.shift + p.len; }
        else if (p.c.k == Content::Val) { if (!s.cs.entailsEq(p.len, 1)) throw Unsupported{"contents as a multiset"}; e.t = I.normTerm(s, p.c.term); }
        else throw Unsupported{"contents as a multiset"};
        ex.push_back(e);
    }
    bool ok = true;
    auto bad = [&](const CS& cs, const std::string& m) { ok = false; State t = s; t.cs = cs; I.report(k, t, what + ": " + m, {Lin(0)}); };
    auto eqv = [&](const CS& cs, const TermP& a, const TermP& b) { return I.termEq(cs, a, b); };
    auto finish = [&](const CS& cs, std::vector<Item> ac)
    {
        std::vector<Item> e2 = ex;
        // expected single values first
        for (auto& e : e2) if (!e.run)
        {
            bool hit = false;
            for (int pass = 0; pass < 2 && !hit; ++pass) for (auto& a : ac) if (!a.used && !hit)
            {
                if (a.run && !cs.entails(a.lo + Lin(1) - a.hi)) continue;
                TermP t = a.run ? tElem(a.seq, a.lo) : a.t;
                if (pass == 0 && a.run) continue;
                if (eqv(cs, t, e.t)) { a.used = true; hit = true; }
            }
            if (!hit) { bad(cs, "the value " + e.t->str() + " is missing"); return; }
        }
        for (size_t i = 0; i < ac.size(); ++i)
        {
            Item& a = ac[i]; if (a.used) continue;
            if (!a.run)
            {
                if (a.t->k == Term::Elem) { a.run = true; a.seq = a.t->id; a.lo = a.t->idx; a.hi = a.t->idx + Lin(1); }
                else { bad(cs, "an unexpected element " + a.t->str()); return; }
            }
            // no index outside the expected runs of that sequence
            CS c2 = cs; Lin x = Lin::sym(newSym("index")); c2.add(x - a.lo); c2.add(a.hi - x - Lin(1));
            std::vector<const Item*> rs; for (auto& e : e2) if (e.run && e.seq == a.seq) rs.push_back(&e);
            std::function<bool(size_t, CS)> outside = [&](size_t j, CS c) -> bool
            {
                if (c.unsat || !c.feasible2({})) return false;
                if (j == rs.size()) { std::map<int, I128> m; return c.intModel({}, m) != 0; }
                CS c3 = c; c3.add(rs[j]->lo - x - Lin(1)); if (outside(j + 1, c3)) return true;
                c3 = c; c3.add(x - rs[j]->hi); return outside(j + 1, c3);
            };
            if (outside(0, c2)) { bad(cs, "element " + tElem(a.seq, a.lo)->str() + (rs.empty() ? " does not belong there" : " should not be there")); return; }
            for (size_t j = 0; j < i; ++j)
            {
                Item& b = ac[j]; if (b.used || !b.run || b.seq != a.seq) continue;
                CS c3 = cs; c3.add(a.hi - b.lo - Lin(1)); c3.add(b.hi - a.lo - Lin(1));
                if (!c3.unsat && c3.feasible2({})) { std::map<int, I128> m; if (c3.intModel({}, m) != 0) { bad(c3, "an element is duplicated and another one lost"); return; } }
            }
        }
    };
    typedef std::function<void(CS, std::vector<Item>)> Cont;
    // cells [a,b) with content ct as items (snapshots are replaced by their definition)
    std::function<void(CS, Content, Lin, Lin, std::vector<Item>, const Cont&)> expand = [&](CS cs, Content ct, Lin a, Lin b, std::vector<Item> to, const Cont& k2)
    {
        if (!ok || cs.unsat) return;
        if (ct.k == Content::Seq)
        {
            auto it = s.seqDefs.find(ct.seq);
            if (it == s.seqDefs.end()) { Item x; x.used = false; x.n = b - a; x.run = true; x.seq = ct.seq; x.lo = a + ct.shift; x.hi = b + ct.shift; to.push_back(x); k2(cs, to); return; }
            const auto& segs = it->second.first;
            std::function<void(size_t, CS, std::vector<Item>)> step = [&](size_t j, CS c, std::vector<Item> t2)
            {
                if (!ok || c.unsat || !c.feasible2({})) return;
                if (j == segs.size()) { k2(c, t2); return; }
                Lin l = segs[j].lo - ct.shift, h = (j + 1 < segs.size() ? segs[j + 1].lo : it->second.second) - ct.shift;
                Content d = segs[j].c; if (d.k == Content::Seq) d.shift = d.shift + ct.shift;
                Lin los[2] = {a, l}, his[2] = {b, h};
                for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q)
                {
                    CS c3 = c; c3.add(los[p] - los[1 - p] - Lin(p)); c3.add(his[1 - q] - his[q] - Lin(q));
                    if (c3.unsat || !c3.feasible2({})) continue;
                    CS em = c3; em.add(los[p] - his[q]); if (!em.unsat) step(j + 1, em, t2);
                    if (!ok) return;
                    c3.add(his[q] - los[p] - Lin(1)); if (c3.unsat || !c3.feasible2({})) continue;
                    expand(c3, d, los[p], his[q], t2, [&](CS c5, std::vector<Item> t3) { step(j + 1, c5, t3); });
                    if (!ok) return;
                }
            };
            step(0, cs, to); return;
        }
        if (ct.k != Content::Val || !cs.entails(a + Lin(1) - b)) throw Unsupported{"contents as a multiset"};
        Item x; x.used = false; x.n = b - a; x.run = false; x.t = I.normTerm(s, ct.term); to.push_back(x); k2(cs, to);
    };
    std::function<void(size_t, CS, std::vector<Item>)> go = [&](size_t i, CS cs, std::vector<Item> ac)
    {
        if (!ok || cs.unsat || !cs.feasible2({})) return;
        while (i < R.segs.size() && !R.segs[i].live) ++i;
        if (i >= R.segs.size()) { finish(cs, ac); return; }
        Lin l0 = R.segs[i].lo, h0 = i + 1 < R.segs.size() ? R.segs[i + 1].lo : R.size;
        // clip to the cells looked at
        for (int cl = 0; cl < 2; ++cl) for (int ch = 0; ch < 2; ++ch)
        {
            CS c = cs; Lin lo = cl ? v.f : l0, hi = ch ? v.l : h0;
            c.add(cl ? v.f - l0 - Lin(1) : l0 - v.f); c.add(ch ? h0 - v.l - Lin(1) : v.l - h0);
            if (c.unsat || !c.feasible2({})) continue;
            { CS c2 = c; c2.add(lo - hi); if (!c2.unsat && c2.feasible2({})) { go(i + 1, c2, ac); if (!ok) return; } }
            c.add(hi - lo - Lin(1)); if (c.unsat || !c.feasible2({})) continue;
            const Content ct = R.segs[i].c;
            auto nextSeg = [&](CS c5, std::vector<Item> a2) { go(i + 1, c5, a2); };
            if (!at) { expand(c, ct, lo, hi, ac, nextSeg); continue; }
            // the cell singled out is an item of its own
            CS in = c; in.add(*at - lo); in.add(hi - *at - Lin(1));
            if (!in.unsat && in.feasible2({}))
            {
                TermP want; for (auto& e : ex) if (!e.run) want = e.t;
                State t = s; t.cs = in;
                TermP have = ct.k == Content::Seq ? I.normTerm(t, tElem(ct.seq, *at + ct.shift)) : ct.k == Content::Val ? I.normTerm(t, ct.term) : tUnk();
                if (!want || !eqv(in, have, want)) { bad(in, "the element designated by the result is " + have->str() + " instead of " + (want ? want->str() : "")); return; }
                for (int z = 0; z < 4; ++z)
                {
                    CS c4 = in; auto a2 = ac;
                    if (z & 1) c4.add(*at - lo - Lin(1)); else c4.addEq(*at, lo);
                    if (z & 2) c4.add(hi - *at - Lin(2)); else c4.addEq(hi, *at + Lin(1));
                    if (c4.unsat || !c4.feasible2({})) continue;
                    Item it; it.run = false; it.t = have; it.used = false; it.n = 1; a2.insert(a2.begin(), it);
                    auto right = [&](CS c5, std::vector<Item> a3) { if (z & 2) expand(c5, ct, *at + Lin(1), hi, a3, nextSeg); else nextSeg(c5, a3); };
                    if (z & 1) expand(c4, ct, lo, *at, a2, right); else right(c4, a2);
                    if (!ok) return;
                }
            }
            for (int side = 0; side < 2; ++side)
            {
                CS out = c; out.add(side ? *at - hi : lo - *at - Lin(1)); if (out.unsat || !out.feasible2({})) continue;
                expand(out, ct, lo, hi, ac, nextSeg); if (!ok) return;
            }
        }
    };
    go(0, s.cs, {});
    return ok;
}

void Spec::checkLeaks(State& s, const std::vector<View>& vs)
{
    ++I.nObligations;
    for (auto& p : s.regs.v)
    {
        if (p.second->k != Region::Heap) continue;
        bool own = false; for (auto& v : vs) if (v.k == View::Heap && (v.reg == p.first || v.tab == p.first)) own = true;
        if (p.second->segN && !own)
        {
            // segments of a table that is gone: all of them must have been released
            auto& R = *p.second; int n = (int)R.segs.size(); own = true;
            for (int i = 0; i < n && own; ++i) if (!R.segs[i].freed) { std::vector<Lin> c; if (i && i + 1 < n) c.push_back(R.segs[i + 1].lo - R.segs[i].lo - Lin(1)); if (s.cs.feasible2(c)) { I.report(V_LEAK_MEM, s, "segments of " + R.name + " are lost", c); return; } }
        }
        if (!own) { I.report(V_LEAK_MEM, s, "memory " + p.second->name + " of " + p.second->size.str() + " cells is lost"); return; }
    }
    for (size_t i = 0; i < vs.size(); ++i) for (size_t j = i + 1; j < vs.size(); ++j)
        if (vs[i].k == View::Heap && vs[j].k == View::Heap && vs[i].reg == vs[j].reg) { I.report(V_INV, s, "two containers own the same block"); return; }
}

// ---- what the members are documented to do --------------------------------------------
static Interp::Piece pc(Lin len, Content c) { Interp::Piece p; p.len = len; p.c = c; return p; }
static Interp::Piece pSeq(int seq, Lin from, Lin len) { return pc(len, Content::ofSeq(seq, from)); }
static Content termC(TermP t) { if (t->k == Term::Elem) return Content::val(t); return Content::val(t); }
static Interp::Piece pVal(TermP t, Lin len = 1) { return pc(len, t ? termC(t) : Content::unk()); }

bool Spec::expect(const FunctionDecl* fd, Entry& e, Expect& x)
{
    std::string m = fd->getNameAsString();
    auto& P = e.pa; size_t np = P.size();
    auto K = [&](std::initializer_list<PK> l) { if (l.size() != np) return false; size_t i = 0; for (PK k : l) if (P[i++].k != k) return false; return true; };
    Lin n = e.n; int S = e.seq; State& s = e.s;
    auto emplTerm = [&](size_t from) -> TermP
    {
        std::vector<TermP> ts; int mask = 0;
        if (np == from) return mkTerm(Term::Default);
        if (np == from + 1 && (P[from].k == P_VCL || P[from].k == P_VRR)) return P[from].term;
        for (size_t i = from; i < np; ++i) { if (!P[i].term) return nullptr; if (P[i].rval) mask |= 1 << (i - from); ts.push_back(P[i].term); }
        return mkTerm(Term::Ctor, mask, 0, ts);
    };
    auto done = [&]() -> bool
    {
        if (x.contents && ci.stat) { Lin t = 0; for (auto& p : x.pieces) t = t + p.len; s.cs.add(Lin((I128)ci.N) - t); }
        return true;
    };
    auto splice = [&](Lin p, std::vector<Interp::Piece> mid, Lin q) { x.contents = true; x.pieces.push_back(pSeq(S, 0, p)); for (auto& y : mid) x.pieces.push_back(y); x.pieces.push_back(pSeq(S, q, n - q)); };
    auto posRet = [&](Lin p) { x.ret = Expect::Pos; x.retv = p; };
    auto* md = dyn_cast<CXXMethodDecl>(fd);
    x.tok = e.tok; x.comp = e.comp;
    static const int DEF = 1000000;
    if (isa<CXXConstructorDecl>(fd))
    {
        x.contents = true; x.tok = DEF;
        size_t k = np; if (np && P[np - 1].k == P_ALLOC) { x.tok = P[np - 1].tok; --k; }
        if (ci.keyed)
        {
            x.comp = DEF;
            if (k && P[k - 1].k == P_COMP) { x.comp = P[k - 1].tok; --k; }
            if (k == 1 && (P[0].k == P_CCL || P[0].k == P_CRR)) x.comp = P[0].comp;
            if ((k == 2 && P[0].k == P_RANGE1) || (k == 1 && P[0].k == P_ILIST)) { if (ci.stat) s.cs.add(Lin((I128)ci.N) - P[0].len); x.contents = false; x.sortedOnly = true; if (e.single) { x.contents = true; x.pieces = {pSeq(P[0].seq, 0, Lin(1))}; } return done(); }
        }
        if (k == 0) return done();
        if (k == 1 && P[0].k == P_SIZE) { x.pieces = {pVal(mkTerm(Term::Default), P[0].v)}; return done(); }
        if (k == 2 && P[0].k == P_SIZE && P[1].k == P_VCL) { x.pieces = {pVal(P[1].term, P[0].v)}; return done(); }
        if (k == 2 && P[0].k == P_RANGE1) { x.pieces = {pSeq(P[0].seq, 0, P[0].len)}; return done(); }
        if (k == 1 && P[0].k == P_ILIST) { x.pieces = {pSeq(P[0].seq, 0, P[0].len)}; return done(); }
        if (k == 1 && P[0].k == P_CCL)
        {
            x.pieces = {pSeq(P[0].seq, 0, P[0].len)}; x.other = true; x.otherArg = 0; x.otherPieces = x.pieces;
            if (np == 1) { auto it = I.tokDerived.find(P[0].tok); x.tok = -100 - P[0].tok; (void)it; }
            return done();
        }
        if (k == 1 && P[0].k == P_CRR) { x.pieces = {pSeq(P[0].seq, 0, P[0].len)}; if (np == 1) x.tok = P[0].tok; return done(); }
        if (k == 2 && P[0].k == P_SIZE && P[1].k == P_TAG) { if (ci.stat) s.cs.add(Lin((I128)ci.N) - P[0].v); x.pieces = {pc(P[0].v, Content::unk())}; return done(); }
        x.contents = false; return false;
    }
    if (m == "operator=")
    {
        x.ret = Expect::Self; x.contents = true;
        if (K({P_ILIST}) && ci.keyed) { if (ci.stat) s.cs.add(Lin((I128)ci.N) - P[0].len); x.contents = false; x.sortedOnly = true; if (e.single) { x.contents = true; x.pieces = {pSeq(P[0].seq, 0, Lin(1))}; } return done(); }
        if (K({P_ILIST})) { x.pieces = {pSeq(P[0].seq, 0, P[0].len)}; return done(); }
        if (K({P_CCL}) || K({P_CRR}))
        {
            x.comp = P[0].comp;
            x.pieces = {pSeq(P[0].seq, 0, P[0].len)};
            bool prop = ci.aflags & (P[0].k == P_CCL ? 1 : 2);
            x.tok = prop ? P[0].tok : e.tok;
            if (P[0].k == P_CCL) { x.other = true; x.otherArg = 0; x.otherPieces = x.pieces; }
            if (P[0].k == P_CRR && P[0].selfAlias) { x.contents = false; x.tok = e.tok; }
            return done();
        }
        x.contents = false; return false;
    }
    if (m == "assign")
    {
        x.contents = true;
        if (K({P_SIZE, P_VCL})) { x.pieces = {pVal(P[1].term, P[0].v)}; return done(); }
        if (K({P_RANGE1, P_RANGE2}) || K({P_ILIST})) { x.pieces = {pSeq(P[0].seq, 0, P[0].len)}; return done(); }
        x.contents = false; return false;
    }
    if (ci.keyed && m == "insert" && (K({P_RANGE1, P_RANGE2}) || K({P_ILIST})))
    {
        if (ci.stat) s.cs.add(Lin((I128)ci.N) - n - P[0].len);
        if (!e.single) { x.sortedOnly = true; return done(); }
        Expect y = x; if (!expectKeyed(fd, e, y)) { x.sortedOnly = true; return done(); }
        y.ret = Expect::None; y.contents = true; y.atRet = false; x = y; return done();
    }
    if (ci.keyed) { bool known = false; bool r = false; Expect y = x; r = expectKeyed(fd, e, y); known = r; if (known) { x = y; return done(); } }
    bool end = m == "push_back" || m == "emplace_back", beg = m == "push_front" || m == "emplace_front";
    if (end || beg)
    {
        TermP t = emplTerm(0); if (!t) return false;
        if (end) splice(n, {pVal(t)}, n); else splice(0, {pVal(t)}, 0);
        if (m[0] == 'e') { x.ret = Expect::Ref; x.retv = end ? n : Lin(0); }
        return done();
    }
    if (m == "emplace" && np >= 1 && P[0].k == P_POS)
    {
        TermP t = emplTerm(1); if (!t) return false;
        splice(P[0].v, {pVal(t)}, P[0].v); posRet(P[0].v); return done();
    }
    if (m == "insert")
    {
        if (np >= 1 && P[0].k == P_POS) posRet(P[0].v);
        if (K({P_POS, P_VCL}) || K({P_POS, P_VRR})) { splice(P[0].v, {pVal(P[1].term)}, P[0].v); return done(); }
        if (K({P_POS, P_SIZE, P_VCL})) { splice(P[0].v, {pVal(P[2].term, P[1].v)}, P[0].v); return done(); }
        if (K({P_POS, P_RANGE1, P_RANGE2}) || K({P_POS, P_ILIST})) { splice(P[0].v, {pSeq(P[1].seq, 0, P[1].len)}, P[0].v); return done(); }
        return false;
    }
    if (m == "pop_back") { s.cs.add(n - Lin(1)); x.noAlloc = !ci.compact; x.contents = true; x.pieces = {pSeq(S, 0, n - Lin(1))}; return done(); }
    if (m == "pop_front") { s.cs.add(n - Lin(1)); x.noAlloc = true; x.contents = true; x.pieces = {pSeq(S, 1, n - Lin(1))}; return done(); }
    if (m == "erase")
    {
        if (K({P_POS})) { s.cs.add(n - P[0].v - Lin(1)); splice(P[0].v, {}, P[0].v + Lin(1)); if (ci.unord) { x.suffix = true; x.sufFrom = P[0].v + Lin(1); } else posRet(P[0].v); return done(); }
        if (K({P_POS, P_POS})) { splice(P[0].v, {}, P[1].v); if (ci.unord) { x.suffix = true; x.sufFrom = P[1].v; } else posRet(P[0].v); return done(); }
        return false;
    }
    if (m == "clear") { x.contents = true; x.noAlloc = true; return done(); }
    if (m == "resize" || m == "resize_back" || m == "resize_front")
    {
        bool fr = m == "resize_front";
        TermP t = mkTerm(Term::Default);
        if (K({P_SIZE, P_VCL})) t = P[1].term; else if (K({P_SIZE, P_TAG})) t = nullptr; else if (!K({P_SIZE})) return false;
        // grow or shrink: decided by splitting the entry (see runEntry)
        Lin k = P[0].v;
        x.contents = true;
        if (s.cs.entails(k - n))
        {
            // no term: default-initialised, any value
            if (ci.de && m == "resize") { x.flex = true; x.flexTerm = t; x.flexN = k - n; x.pieces = {pSeq(S, 0, n), pVal(t, k - n)}; return done(); }
            if (fr) x.pieces = {pVal(t, k - n), pSeq(S, 0, n)}; else x.pieces = {pSeq(S, 0, n), pVal(t, k - n)}; }
        else { if (fr) x.pieces = {pSeq(S, n - k, k)}; else x.pieces = {pSeq(S, 0, k)}; }
        return done();
    }
    if (m == "swap" && np == 1 && P[0].k == P_CL)
    {
        x.contents = true; x.pieces = {pSeq(P[0].seq, 0, P[0].len)}; x.other = true; x.otherArg = 0; x.otherPieces = {pSeq(S, 0, n)}; x.comp = P[0].comp;
        bool prop = ci.aflags & 4;
        x.tok = prop ? P[0].tok : e.tok;
        if (!prop && e.tok >= 0 && !P[0].selfAlias) s.facts["tokeq " + std::to_string(std::min(e.tok, P[0].tok)) + " " + std::to_string(std::max(e.tok, P[0].tok))] = true;
        if (ci.stat) {}
        return done();
    }
    if (m == "reserve" || m == "shrink_to_fit" || m == "reserve_front" || m == "reserve_back")
    {
        x.contents = true; x.pieces = {pSeq(S, 0, n)}; x.strong = ci.strongElem; return done();
    }
    if (md && md->isConst()) x.constOp = true;
    auto same = [&]() { x.contents = true; x.pieces = {pSeq(S, 0, n)}; x.constOp = true; };
    if (m == "key_comp" || m == "value_comp" || m == "key_eq" || m == "value_eq") { same(); x.ret = Expect::Tok; x.retv = 1; return done(); }
    if (m == "get_allocator") { same(); x.ret = Expect::Tok; x.retv = 0; return done(); }
    if (m == "begin" || m == "cbegin") { same(); posRet(0); return done(); }
    if (m == "end" || m == "cend") { same(); posRet(n); return done(); }
    if (m == "rbegin" || m == "crbegin") { same(); posRet(n); return done(); }
    if (m == "rend" || m == "crend") { same(); posRet(0); return done(); }
    if (m == "nth" && K({P_SIZE})) { same(); s.cs.add(n - P[0].v); posRet(P[0].v); return done(); }
    if (m == "index_of" && K({P_POS})) { same(); x.ret = Expect::Int; x.retv = P[0].v; return done(); }
    if (m == "empty") { same(); x.ret = Expect::Bool; x.retv = -n; return done(); }
    if (m == "full") { same(); x.ret = Expect::Bool; x.retv = n - Lin((I128)ci.N); return done(); }
    if (m == "size") { same(); x.ret = Expect::Int; x.retv = n; return done(); }
    if (m == "max_size") { same(); x.ret = Expect::Int; x.retv = ci.stat ? Lin((I128)ci.N) : Lin::sym(I.maxszSym); return done(); }
    if (m == "capacity") { same(); x.ret = Expect::Int; x.retv = e.v.cap; return done(); }
    if (m == "available" || m == "available_back") { same(); x.ret = Expect::Int; x.retv = e.v.cap - e.v.l; return done(); }
    if (m == "available_front") { same(); x.ret = Expect::Int; x.retv = e.v.f; return done(); }
    if (m == "at" && K({P_SIZE})) { same(); x.ret = Expect::Ref; x.retv = P[0].v; x.mayRange = true; x.throwRange = P[0].v - n; return done(); }
    if (m == "operator[]" && K({P_SIZE})) { same(); s.cs.add(n - P[0].v - Lin(1)); x.ret = Expect::Ref; x.retv = P[0].v; return done(); }
    if (m == "front" && np == 0) { same(); s.cs.add(n - Lin(1)); x.ret = Expect::Ref; x.retv = 0; return done(); }
    if (m == "back" && np == 0) { same(); s.cs.add(n - Lin(1)); x.ret = Expect::Ref; x.retv = n - Lin(1); return done(); }
    if (m == "data" && np == 0) { same(); x.ret = Expect::ElemPtr; x.retv = 0; return done(); }
    return false;
}

// the key argument of a keyed container's member, and the value it would insert
bool Spec::keyArgs(const FunctionDecl* fd, Entry& e)
{
    std::string m = fd->getNameAsString(); auto& P = e.pa; size_t np = P.size();
    bool hintable = m == "insert" || m == "emplace_hint" || m == "try_emplace" || m == "insert_or_assign";
    bool look = m == "find" || m == "count" || m == "contains" || m == "lower_bound" || m == "upper_bound" || m == "equal_range" || m == "erase" || m == "at" || m == "operator[]";
    if (!hintable && !look && m != "emplace") return false;
    size_t i = 0; if (hintable && np && P[0].k == P_POS) i = 1;
    auto comp = [&](size_t a, size_t b) -> TermP
    {
        if (a == b) return mkTerm(Term::Default);
        if (b == a + 1 && P[a].k != P_ARG && !(P[a].k == P_KEY && P[a].obj >= 0)) return P[a].term;
        int mask = 0; std::vector<TermP> ts; for (size_t j = a; j < b; ++j) { if (!P[j].term) return nullptr; if (P[j].rval) mask |= 1 << (j - a); ts.push_back(P[j].term); }
        return mkTerm(Term::Ctor, mask, 0, ts);
    };
    auto keyPart = [&](TermP t) { return ci.map ? tProj(0, t) : t; };
    if (m == "emplace" || m == "emplace_hint")
    {
        size_t k = np - i; TermP t;
        if (!ci.map || k == 0 || (k == 1 && (P[i].k == P_VCL || P[i].k == P_VRR))) t = comp(i, np);
        else if (k == 2) { TermP a = comp(i, i + 1), b = comp(i + 1, i + 2); if (!a || !b) return false; t = tPair(a, b); }
        if (!t) return false;
        e.ins = t; e.key = keyPart(t); return true;
    }
    if (i >= np) return false;
    if (look)
    {
        if (P[i].k != P_KEY && P[i].k != P_VCL && P[i].k != P_VRR) return false;
        if (P[i].k != P_KEY && ci.map) return false;
        if (np != i + 1) return false;
        e.key = P[i].term; if (m == "operator[]") e.ins = tPair(comp(i, i + 1), mkTerm(Term::Default));
        return true;
    }
    if (m == "insert")
    {
        if (np != i + 1) return false;
        if (P[i].k == P_VCL || P[i].k == P_VRR) { e.ins = P[i].term; e.key = keyPart(e.ins); return true; }
        if (P[i].k == P_KEY && !ci.map) { e.key = P[i].term; e.ins = comp(i, i + 1); return true; }
        return false;
    }
    // try_emplace, insert_or_assign
    if (P[i].k != P_KEY) return false;
    TermP a = comp(i, i + 1), b = comp(i + 1, np); if (!a || !b) return false;
    e.key = P[i].term; e.ins = tPair(a, b); return true;
}

bool Spec::expectKeyed(const FunctionDecl* fd, Entry& e, Expect& x)
{
    if (!e.hasKey) return false;
    std::string m = fd->getNameAsString(); Lin n = e.n; int S = e.seq; State& s = e.s;
    const CmpFact& f = e.fact; bool present = e.present == 1;
    bool uniq = !ci.multi;
    QualType rt = fd->getReturnType(); auto* rr = I.rec(rt); bool retPair = rr && rr->getName() == "pair";
    auto same = [&]() { x.contents = true; x.pieces = {pSeq(S, 0, n)}; };
    auto look = [&]() { same(); x.constOp = true; };
    if (!ci.sorted)
    {
        if (e.smallN >= 0)
        {
            // few elements, each with its own relation to the key
            int cnt = 0; for (int i = 0; i < e.smallN; ++i) cnt += e.mask >> i & 1;
            if (m == "count") { look(); x.ret = Expect::Int; x.retv = Lin(cnt); return true; }
            if (m == "contains") { look(); x.ret = Expect::Bool; x.retv = Lin(cnt - 1); return true; }
            if (m == "find") { look(); x.ret = Expect::OneOf; return true; }
            if (m == "erase") { x.contents = true; for (int i = 0; i < e.smallN; ++i) if (!(e.mask >> i & 1)) x.pieces.push_back(pSeq(S, i, 1)); x.ret = Expect::Int; x.retv = Lin(cnt); return true; }
            return false;
        }
        if (m == "insert" || m == "emplace" || m == "emplace_hint" || m == "try_emplace" || m == "insert_or_assign" || m == "operator[]")
        {
            if (ci.stat) s.cs.add(Lin((I128)ci.N) - n - Lin(1));
            x.contents = true; x.ret = m == "operator[]" ? Expect::Ref : retPair ? Expect::PosBool : Expect::Pos; x.boolv = !present; x.retv = f.L;
            if (m == "operator[]") x.retPath = {1};
            if (!uniq || !present) { x.atRet = true; x.pieces = {pSeq(S, 0, n), pVal(e.ins)}; return true; }
            if (m == "insert_or_assign") { x.atRet = true; x.pieces = {pSeq(S, 0, f.L), pSeq(S, f.L + Lin(1), n - f.L - Lin(1)), pVal(tPair(tProj(0, tElem(S, f.L)), tProj(1, e.ins)))}; }
            else same();
            return true;
        }
        if (m == "find") { look(); if (uniq || !present) { x.ret = Expect::Pos; x.retv = f.L; } return true; }
        if (m == "contains") { look(); x.ret = Expect::Bool; x.retv = n - f.L - Lin(1); return true; }
        if (m == "count" && (uniq || !present)) { look(); x.ret = Expect::Int; x.retv = present ? Lin(1) : Lin(0); return true; }
        if (m == "at") { look(); x.ret = Expect::Ref; x.retv = f.L; x.retPath = {1}; x.mayRange = true; x.throwRange = f.L - n; return true; }
        if (m == "erase" && (uniq || !present)) { x.contents = true; if (present) x.pieces = {pSeq(S, 0, f.L), pSeq(S, f.L + Lin(1), n - f.L - Lin(1))}; else x.pieces = {pSeq(S, 0, n)}; x.ret = Expect::Int; x.retv = present ? Lin(1) : Lin(0); return true; }
        if (m == "count") { look(); return true; }
        if (m == "erase") { x.sortedOnly = true; return true; }
        return false;
    }
    if (m == "insert" || m == "emplace" || m == "emplace_hint" || m == "try_emplace" || m == "insert_or_assign" || m == "operator[]")
    {
        if (ci.stat) s.cs.add(Lin((I128)ci.N) - n - Lin(1)); // documented: !full(), whether or not the key is present
        if (!uniq) { x.anyPos = true; x.contents = true; x.pieces = {pSeq(S, 0, n), pc(Lin(1), Content::unk())}; return true; }
        x.ret = m == "operator[]" ? Expect::Ref : retPair ? Expect::PosBool : Expect::Pos; x.retv = f.L; x.boolv = !present;
        if (m == "operator[]") x.retPath = {1};
        x.contents = true;
        if (!present) x.pieces = {pSeq(S, 0, f.L), pVal(e.ins), pSeq(S, f.L, n - f.L)};
        else if (m == "insert_or_assign") x.pieces = {pSeq(S, 0, f.L), pVal(tPair(tProj(0, tElem(S, f.L)), tProj(1, e.ins))), pSeq(S, f.L + Lin(1), n - f.L - Lin(1))};
        else same();
        return true;
    }
    if (m == "find") { look(); x.ret = Expect::Pos; x.retv = present ? f.L : n; if (!uniq && present) { x.ret = Expect::None; x.anyPos = false; x.retv2 = f.U; x.retv = f.L; x.ret = Expect::PosPos; x.boolv = true; } return true; }
    if (m == "count") { look(); x.ret = Expect::Int; x.retv = f.U - f.L; return true; }
    if (m == "contains") { look(); x.ret = Expect::Bool; x.retv = f.U - f.L - Lin(1); return true; }
    if (m == "lower_bound") { look(); x.ret = Expect::Pos; x.retv = f.L; return true; }
    if (m == "upper_bound") { look(); x.ret = Expect::Pos; x.retv = f.U; return true; }
    if (m == "equal_range") { look(); x.ret = Expect::PosPos; x.retv = f.L; x.retv2 = f.U; return true; }
    if (m == "at") { look(); x.ret = Expect::Ref; x.retv = f.L; x.retPath = {1}; x.mayRange = true; x.throwRange = f.L - f.U; return true; }
    if (m == "erase") { x.contents = true; x.pieces = {pSeq(S, 0, f.L), pSeq(S, f.U, n - f.U)}; x.ret = Expect::Int; x.retv = f.U - f.L; return true; }
    return false;
}

// The elements are in the order of the comparison object in use, and without equivalent keys where keys are unique:
// runs of an ordered sequence in ascending order, with other elements only where their key fits.
// (unordered containers: disjoint runs of a sequence with distinct keys, and other elements only if absent from it)
bool Spec::checkOrder(State& s, const View& v, int comp, const std::string& what, bool rep)
{
    if (v.k == View::Null || !ci.keyed || (!ci.sorted && ci.multi)) return true;
    ++I.nObligations;
    VK kind = ci.sorted ? V_SORTED : V_UNIQUE;
    if (s.cs.entails(Lin(1) - v.n())) return true;
    I.compact(s, v.reg);
    Region R = s.regs.at(v.reg);
    struct Item { bool run; int seq; Lin lo, hi; TermP key; CmpFact f; };
    bool ok = true;
    auto bad = [&](const CS& cs, const std::string& m) { ok = false; if (getenv("SFLSA_ORD")) { llvm::errs() << "[order] " << m << "\n"; for (auto& f : s.cmp) llvm::errs() << "   fact " << f.tok << " " << f.key->str() << " in " << f.seq << " L " << f.L.str() << "\n"; } if (rep) { State t = s; t.cs = cs; I.report(kind, t, what + ": " + m, {Lin(0)}); } };
    std::function<void(size_t, CS, std::vector<Item>)> go = [&](size_t i, CS cs, std::vector<Item> before)
    {
        if (!ok || cs.unsat || !cs.feasible2({})) return;
        while (i < R.segs.size() && !R.segs[i].live) ++i;
        if (i >= R.segs.size()) return;
        Lin lo = R.segs[i].lo, hi = i + 1 < R.segs.size() ? R.segs[i + 1].lo : R.size;
        if (cs.feasible(lo - hi)) { CS c = cs; c.addEq(lo, hi); go(i + 1, c, before); if (!ok) return; }
        if (!cs.feasible(hi - lo - Lin(1))) return;
        cs.add(hi - lo - Lin(1)); if (cs.unsat) return;
        const Content& c = R.segs[i].c; Item it; it.run = false; it.seq = -1;
        if (c.k == Content::Seq) { it.run = true; it.seq = c.seq; it.lo = lo + c.shift; it.hi = hi + c.shift; }
        else if (c.k == Content::Val)
        {
            if (cs.feasible(hi - lo - Lin(2)) && !ci.multi) throw Unsupported{"order of the contents"};
            TermP t = I.normTerm(s, c.term); TermP key = ci.map ? I.normTerm(s, tProj(0, t)) : t; int sq; Lin ix;
            if (key->k == Term::Moved || key->k == Term::Unk) throw Unsupported{"order of the contents"};
            if (I.ownKey(s, key, comp, sq, ix)) { it.run = true; it.seq = sq; it.lo = ix; it.hi = ix + Lin(1); if (ci.multi) it.key = key; }
            else it.key = key;
        }
        else throw Unsupported{"order of the contents"};
        if (it.run && !cs.entails(it.lo + Lin(1) - it.hi) && !(gSeqs[it.seq].keyTok == comp && (ci.sorted ? gSeqs[it.seq].sorted : gSeqs[it.seq].unique)))
        {
            // a few elements of a foreign sequence, which were inserted one by one
            int k = 0; for (int j = 2; j <= 4 && !k; ++j) if (cs.entailsEq(it.hi - it.lo, Lin(j))) k = j;
            if (k)
            {
                for (int j = 1; j < k; ++j) { Seg g = R.segs[i + j - 1]; g.lo = lo + Lin(j); R.segs.insert(R.segs.begin() + i + j, g); }
                go(i, cs, before); R.segs.erase(R.segs.begin() + i + 1, R.segs.begin() + i + k); return;
            }
        }
        if (it.run && cs.entails(it.lo + Lin(1) - it.hi) && !(gSeqs[it.seq].keyTok == comp && (ci.sorted ? gSeqs[it.seq].sorted : gSeqs[it.seq].unique)))
        {
            // a single element of a foreign sequence
            TermP t = tElem(it.seq, it.lo); it.key = ci.map ? tProj(0, t) : t; it.run = false;
        }
        if (it.run)
        {
            auto& q = gSeqs[it.seq];
            bool okSeq = ci.sorted ? q.sorted && q.keyTok == comp : q.unique && q.keyTok == comp;
            if (!okSeq) { bad(cs, ci.sorted ? "the elements need not be in the order of the comparison object" : "the elements need not have distinct keys"); return; }
        }
        State t = s; t.cs = cs;
        for (size_t b = 0; b < before.size() && ok; ++b)
        {
            if (ci.sorted && b + 1 != before.size()) continue; // order is transitive
            Item& p = before[b];
            if (p.run && it.run)
            {
                if (p.seq != it.seq) { bad(cs, ci.sorted ? "elements of two sequences need not be in order" : "elements of two sequences need not have distinct keys"); return; }
                if (ci.sorted && !cs.entails(it.lo - p.hi) && (it.key || p.key))
                {
                    // equivalent elements may stand in any order
                    bool okk = false;
                    if (it.key) { CmpFact f = I.cmpFact(t, comp, it.key, p.seq); if (t.cs.entails(f.U - p.hi)) okk = true; }
                    if (!okk && p.key) { CmpFact f = I.cmpFact(t, comp, p.key, it.seq); if (t.cs.entails(it.lo - f.L)) okk = true; }
                    if (okk) continue;
                }
                if (ci.sorted) { if (!cs.entails(it.lo - p.hi)) { CS c2 = cs; c2.add(p.hi - it.lo - Lin(1)); bad(c2, "elements are out of order or repeated"); return; } }
                else
                {
                    CS c2 = cs; c2.add(it.hi - p.lo - Lin(1)); c2.add(p.hi - it.lo - Lin(1));
                    if (!c2.unsat && c2.feasible2({})) { bad(c2, "an element is repeated"); return; }
                }
            }
            else if (p.run != it.run)
            {
                Item& run = p.run ? p : it; Item& one = p.run ? it : p;
                if (ci.sorted)
                {
                    CmpFact f = I.cmpFact(t, comp, one.key, run.seq);
                    Lin need = p.run ? (ci.multi ? f.U : f.L) - run.hi : run.lo - (ci.multi ? f.L : f.U);
                    if (!t.cs.entails(need)) { CS c2 = t.cs; c2.add(-need - Lin(1)); bad(c2, ci.multi ? "an element is out of order" : "an element is out of order or has an equivalent key"); return; }
                }
                else
                {
                    CmpFact f = I.eqFact(t, comp, one.key, run.seq);
                    CS c2 = t.cs; c2.add(f.L - run.lo); c2.add(run.hi - f.L - Lin(1));
                    if (!c2.unsat && c2.feasible2({})) { if (getenv("SFLSA_ORD")) llvm::errs() << "[order] key " << one.key->str() << " tok " << comp << " run of " << run.seq << " [" << run.lo.str() << "," << run.hi.str() << ") L " << f.L.str() << "\n"; bad(c2, "two elements have equal keys"); return; }
                }
            }
            else
            {
                if (I.termEq(cs, p.key, it.key)) { if (ci.multi) continue; bad(cs, "an element is repeated"); return; }
                std::string A = p.key->str(), B = it.key->str();
                if (ci.sorted)
                {
                    auto x = s.facts.find("lt " + std::to_string(comp) + " " + A + " < " + B), y = s.facts.find("lt " + std::to_string(comp) + " " + B + " < " + A);
                    bool lt = x != s.facts.end() && x->second, ge = y != s.facts.end() && !y->second;
                    if (!(lt || (ci.multi && ge))) { bad(cs, "two elements need not be in order"); return; }
                }
                else
                {
                    std::string a2 = A, b2 = B; if (b2 < a2) std::swap(a2, b2);
                    auto x = s.facts.find("eq " + std::to_string(comp) + " " + a2 + " == " + b2);
                    if (x == s.facts.end() || x->second) { bad(cs, "two elements may have equal keys"); return; }
                }
            }
        }
        before.push_back(it);
        go(i + 1, cs, before);
    };
    go(0, s.cs, {});
    return ok;
}

// ranges of single-pass iterators: their length is not known in advance
static bool singlePass(const Entry& e)
{
    for (auto& p : e.pa) if (p.k == P_RANGE1 && p.singlePass) return true;
    return false;
}

void Spec::checkExit(const FunctionDecl* fd, const Entry& e, const Expect& x, bool haveX, State s, const Val& r, int exc)
{
    if (s.cs.unsat) return;
    ++nExits; if (exc) ++nExcExits;
    bool dtor = isa<CXXDestructorDecl>(fd), ctor = isa<CXXConstructorDecl>(fd);
    std::vector<View> vs; View v; bool selfOk = false;
    if (exc) I.curLoc = fd->getLocation();
    // ---- validity of every container involved
    std::vector<std::pair<int, View>> others; bool over = gNoExc && exc; // the program has ended
    for (size_t i = 0; i < e.pa.size() && !over; ++i)
        if ((e.pa[i].k == P_CCL || e.pa[i].k == P_CRR || e.pa[i].k == P_CL) && !e.pa[i].selfAlias && e.pa[i].obj != e.self)
        {
            View w; if (!view(s, e.pa[i].obj, w, "the other container", exc)) return;
            vs.push_back(w); others.push_back({(int)i, w});
        }
    if (over) {}
    else if (dtor || (ctor && exc))
    {
        // all gone: inline storage raw
        std::vector<int> todo = {e.self};
        while (!todo.empty())
        {
            int o = todo.back(); todo.pop_back(); if (!s.objs.has(o)) continue; auto q = s.objs.at(o);
            if (q.k == ObjN::ElemBox)
            {
                I.compact(s, q.reg); const Region& R = s.regs.at(q.reg); int n = (int)R.segs.size();
                for (int i = 0; i < n; ++i) if (R.segs[i].live) { Lin hi = i + 1 < n ? R.segs[i + 1].lo : R.size; if (s.cs.feasible(hi - R.segs[i].lo - Lin(1))) { I.report(V_LEAK_ELEM, s, std::string(dtor ? "destructor" : "failed constructor") + " leaves live elements in the internal storage", {hi - R.segs[i].lo - Lin(1)}); return; } }
            }
            for (int y : q.subs) todo.push_back(y);
        }
        checkLeaks(s, vs);
    }
    else if (e.self >= 0)
    {
        if (!view(s, e.self, v, "container", exc)) return;
        vs.push_back(v); selfOk = true;
        checkLeaks(s, vs);
    }
    if (exc)
    {
        // ---- exceptional exits
        if (exc == EX_RANGE)
        {
            ++I.nObligations;
            if (!haveX || !x.mayRange) I.report(V_RANGE, s, "out_of_range thrown by an operation that does not document it");
            else if (!s.cs.entails(x.throwRange)) I.report(V_RANGE, s, "out_of_range thrown for a valid argument", {-x.throwRange - Lin(1)});
        }
        bool resv = fd->getNameAsString() == "reserve";
        if (exc == EX_LENGTH && haveX && x.contents && I.maxszSym >= 0 && fd->getNameAsString() != "shrink_to_fit")
        {
            Lin t = 0; for (auto& p : x.pieces) t = t + p.len;
            if (resv) t = e.pa[0].v;
            if (ci.keyed && e.hasKey && e.present == 1 && !resv) t = e.n + Lin(1); // room for the element may be made before its key is looked up
            Lin over = t - Lin::sym(I.maxszSym) - Lin(1); ++I.nObligations;
            if (!ci.de && !s.cs.entails(over)) I.report(V_LENGTH, s, "length_error although the resulting size does not exceed max_size()", {-over - Lin(1)});
        }
        bool elementwise = false; if (ci.keyed) for (auto& p : e.pa) if (p.k == P_RANGE1 || p.k == P_ILIST) elementwise = true; // inserts one by one: basic guarantee
        if (exc == EX_LENGTH && selfOk && !ctor && !singlePass(e) && !elementwise)
        {
            std::vector<Interp::Piece> old = {pSeq(e.seq, 0, e.n)};
            checkPieces(s, v, old, V_LENGTH, "container after length_error");
        }
        if (haveX && x.strong && selfOk)
        {
            std::vector<Interp::Piece> old = {pSeq(e.seq, 0, e.n)};
            if (checkPieces(s, v, old, V_STRONG, "container after the exception"))
            {
                ++I.nObligations;
                if (!ci.seg && (v.k != e.v.k || v.reg != e.v.reg || !s.cs.entailsEq(v.f, e.v.f) || !s.cs.entailsEq(v.cap, e.v.cap))) I.report(V_STRONG, s, "exception leaves the container with other storage");
            }
        }
        return;
    }
    if (!haveX || dtor) return;
    // ---- normal exits
    // nothing is inserted: documented to do nothing, so arguments are left as they were
    if (e.hasKey && e.present == 1 && !ci.multi && (fd->getNameAsString() == "try_emplace" || fd->getNameAsString() == "operator[]"))
        for (auto& p : e.pa) if (p.rval && (p.k == P_KEY || p.k == P_MAPPED) && p.lv.k == LV::Cell && p.term)
        {
            ++I.nObligations; const Region& R = s.regs.at(p.lv.reg);
            if (R.segs.size() != 1 || !R.segs[0].live) continue;
            TermP t = I.cellTerm(s, p.lv.reg, 0);
            if (t && t->k == Term::Moved) { I.report(V_SEQ, s, "an argument is moved from although the key is present and nothing is inserted"); return; }
        }
    if (x.mayRange) { ++I.nObligations; if (!s.cs.entails(-x.throwRange - Lin(1))) { I.report(V_RANGE, s, "no out_of_range for an invalid argument", {x.throwRange}); return; } }
    if (x.flex && v.k != View::Null)
    {
        // the old elements are one run, the additional ones are before and after it
        for (int some = 0; some < 2; ++some)
        {
            State t = s; if (some) t.cs.add(e.n - Lin(1)); else t.cs.addEq(e.n, 0);
            if (t.cs.unsat || !t.cs.feasible2({})) continue;
            const Region& R = t.regs.at(v.reg); Lin front, first; bool found = !some, have = false;
            for (size_t i = 0; i < R.segs.size() && !found; ++i) if (R.segs[i].live && R.segs[i].c.k == Content::Seq && R.segs[i].c.seq == e.seq)
            {
                Lin hi = i + 1 < R.segs.size() ? R.segs[i + 1].lo : R.size;
                if (t.cs.entails(hi - R.segs[i].lo - Lin(1)))
                {
                    Lin f2 = -R.segs[i].c.shift - v.f; bool fits = t.cs.entails(f2) && t.cs.entails(x.flexN - f2) && t.cs.entails(hi - v.f - f2 - e.n);
                    if (fits) { front = f2; found = true; } else if (!have) { first = f2; have = true; }
                }
            }
            if (!found && have) { front = first; found = true; }
            if (!found) { if (!checkPieces(t, v, x.pieces, V_SEQ, "container")) return; continue; }
            std::vector<Interp::Piece> ps = {pVal(x.flexTerm, front), pSeq(e.seq, 0, e.n), pVal(x.flexTerm, x.flexN - front)};
            ++I.nObligations;
            if (!t.cs.entails(front)) { I.report(V_SEQ, t, "old elements are lost", {-front - Lin(1)}); return; }
            if (!t.cs.entails(x.flexN - front)) { I.report(V_SEQ, t, "old elements are lost", {front - x.flexN - Lin(1)}); return; }
            if (!checkPieces(t, v, ps, V_SEQ, "container")) return;
        }
    }
    else if (x.anyPos)
    {
        // the new element is where the returned iterator points; equivalent elements may surround it
        Val p; int ro = -1;
        if (r.k == Val::Ref && r.lv.k == LV::Obj) { ro = r.lv.obj; }
        if (ro < 0 || !getIter(s, ro, p) || !p.isPtrCell()) { s.blur("returned iterator unknown"); return; }
        if (p.lv.reg != v.reg) { I.report(V_SEQ, s, "returned iterator does not point into the container"); return; }
        Lin q = p.lv.off - v.f; ++I.nObligations;
        if (!s.cs.entails(q - e.fact.L)) { I.report(V_SORTED, s, "element inserted before elements that are less", {e.fact.L - q - Lin(1)}); return; }
        if (!s.cs.entails(e.fact.U - q)) { I.report(V_SORTED, s, "element inserted after elements that are greater", {q - e.fact.U - Lin(1)}); return; }
        std::vector<Interp::Piece> ps = {pSeq(e.seq, 0, q), pVal(e.ins), pSeq(e.seq, q, e.n - q)};
        if (!checkPieces(s, v, ps, V_SEQ, "container")) return;
    }
    else if (x.atRet || x.suffix)
    {
        // unordered: the new element is the one the result designates
        Val p; int ro = -1; LV rl; bool have = false;
        if (r.k == Val::Ref && r.lv.k == LV::Obj) { ro = r.lv.obj; if (x.ret == Expect::PosBool) ro = I.fieldByName(s, ro, "first"); if (ro >= 0 && getIter(s, ro, p) && p.isPtrCell()) { rl = p.lv; have = true; } }
        else if (r.k == Val::Ref && r.lv.k == LV::Cell) { rl = r.lv; have = denseLV(s, rl); if (!have) return; }
        if (!have) { if (!checkPieces(s, v, x.pieces, V_SEQ, "container")) return; I.undecided.push_back({I.curMethod + " [" + e.desc + "]", "returned position unknown"}); }
        else
        {
            if (rl.reg != v.reg && !(v.k == View::Null && x.suffix)) { I.report(V_SEQ, s, "the result does not designate an element of the container"); return; }
            if (x.suffix)
            {
                if (!checkPieces(s, v, x.pieces, V_SEQ, "container")) return;
                View w = v; w.f = rl.off; ++I.nObligations;
                if (!s.cs.entails(rl.off - v.f) || !s.cs.entails(v.l - rl.off)) { I.report(V_SEQ, s, "returned iterator lies outside the container", !s.cs.entails(rl.off - v.f) ? std::vector<Lin>{v.f - rl.off - Lin(1)} : std::vector<Lin>{rl.off - v.l - Lin(1)}); return; }
                if (!checkPieces(s, w, {pSeq(e.seq, x.sufFrom, e.n - x.sufFrom)}, V_SEQ, "elements from the returned iterator on")) return;
            }
            else
            {
                ++I.nObligations;
                if (!s.cs.entails(rl.off - v.f) || !s.cs.entails(v.l - rl.off - Lin(1))) { I.report(V_SEQ, s, "the result does not designate an element of the container", !s.cs.entails(rl.off - v.f) ? std::vector<Lin>{v.f - rl.off - Lin(1)} : std::vector<Lin>{rl.off - v.l}); return; }
                if (!checkPieces(s, v, x.pieces, V_SEQ, "container", &rl.off)) return;
            }
        }
    }
    else if (x.contents && !checkPieces(s, v, x.pieces, V_SEQ, "container")) return;
    if (x.other)
        for (auto& o : others) if (o.first == x.otherArg) { if (!checkPieces(s, o.second, x.otherPieces, V_SEQ, "the other container")) return; }
    // allocator
    if (ci.hasAlloc && (x.contents || ctor))
    {
        ++I.nObligations;
        int tk = tokenOf(s, e.self, "alloc"); int want = x.tok;
        if (want <= -100) { auto it = I.tokDerived.find(-100 - want); want = it == I.tokDerived.end() ? -1 : it->second; }
        auto eqTok = [&](int a, int b) { auto it = s.facts.find("tokeq " + std::to_string(std::min(a, b)) + " " + std::to_string(std::max(a, b))); return a >= 0 && b >= 0 && it != s.facts.end() && it->second; };
        if (want != tk && !eqTok(want, tk)) I.report(V_PROP, s, "allocator of the container is " + I.tokNames[tk] + ", documented: " + (want >= 0 ? I.tokNames[want] : "the selected copy"));
        if (fd->getNameAsString() == "swap" && e.pa.size() == 1 && !e.pa[0].selfAlias)
        {
            int t2 = tokenOf(s, e.pa[0].obj, "alloc"); int w2 = (ci.aflags & 4) ? e.tok : e.pa[0].tok;
            if (t2 != w2 && !eqTok(t2, w2)) I.report(V_PROP, s, "allocator of the other container after swap is " + I.tokNames[t2]);
        }
    }
    if (ci.keyed && (x.contents || ctor || x.sortedOnly))
    {
        ++I.nObligations;
        int tk = tokenOf(s, e.self, "comp");
        if (x.comp != tk) I.report(V_PROP, s, "comparison object of the container is " + I.tokNames[tk] + ", documented: " + I.tokNames[x.comp]);
        if (fd->getNameAsString() == "swap" && e.pa.size() == 1 && !e.pa[0].selfAlias)
        {
            int t2 = tokenOf(s, e.pa[0].obj, "comp");
            if (t2 != e.comp) I.report(V_PROP, s, "comparison object of the other container after swap is " + I.tokNames[t2]);
        }
    }
    // returned value
    auto iterOf = [&](int obj, Lin& off) -> bool
    {
        Val p; if (!getIter(s, obj, p)) return false;
        if (!p.isPtrCell()) { s.blur("returned iterator unknown"); return false; }
        if (v.k == View::Null ? p.lv.reg != 0 : p.lv.reg != v.reg) { I.report(V_SEQ, s, "returned iterator does not point into the container"); return false; }
        off = p.lv.off - v.f; return true;
    };
    auto needEq = [&](const Lin& a, const Lin& b, VK k, const std::string& m)
    {
        ++I.nObligations;
        for (int q = 0; q < 2; ++q) { Lin d = q ? a - b : b - a; if (!s.cs.entails(d)) { I.report(k, s, m + ": " + a.str() + " instead of " + b.str(), {-d - Lin(1)}); return; } }
    };
    VK rk = e.cmpKnown ? V_CMPOP : x.constOp ? (e.hasKey ? V_LOOKUP : V_OBS) : V_SEQ;
    switch (x.ret)
    {
    case Expect::Pos:
    {
        Val p;
        if (r.k == Val::Ref && r.lv.k == LV::Obj && getIter(s, r.lv.obj, p))
        {
            if (!p.isPtrCell()) { s.blur("returned iterator unknown"); break; }
            if (v.k == View::Null ? p.lv.reg != 0 : p.lv.reg != v.reg) { I.report(rk, s, "returned iterator does not point into the container"); break; }
            if (!x.atRet) needEq(p.lv.off - v.f, x.retv, rk, "returned iterator designates the wrong position");
        }
        break;
    }
    case Expect::OneOf:
        if (r.k == Val::Ref && r.lv.k == LV::Obj)
        {
            Lin off; if (!iterOf(r.lv.obj, off)) break;
            ++I.nObligations;
            for (int i = 0; i <= e.smallN; ++i)
            {
                bool good = i == e.smallN ? e.mask == 0 : (e.mask >> i & 1);
                if (!good && s.cs.feasible2({off - Lin(i), Lin(i) - off})) { I.report(V_LOOKUP, s, i == e.smallN ? "returns end() although an element has that key" : "returned iterator does not designate an element with that key", {off - Lin(i), Lin(i) - off}); break; }
            }
        }
        break;
    case Expect::PosBool: case Expect::PosPos:
        if (r.k == Val::Ref && r.lv.k == LV::Obj)
        {
            if (x.boolv && x.ret == Expect::PosPos)
            {
                Lin off; if (iterOf(r.lv.obj, off)) { ++I.nObligations; if (!s.cs.entails(off - x.retv) || !s.cs.entails(x.retv2 - off - Lin(1))) I.report(V_LOOKUP, s, "returned iterator does not designate an equivalent element", s.cs.entails(off - x.retv) ? std::vector<Lin>{off - x.retv2} : std::vector<Lin>{x.retv - off - Lin(1)}); }
                break;
            }
            int f1 = I.fieldByName(s, r.lv.obj, "first"), f2 = I.fieldByName(s, r.lv.obj, "second"); Lin off;
            if (f1 < 0 || f2 < 0) break;
            if (f1 >= 0 && iterOf(f1, off) && !x.atRet) needEq(off, x.retv, x.constOp ? V_LOOKUP : V_SEQ, "returned iterator designates the wrong position");
            if (x.ret == Expect::PosPos) { if (iterOf(f2, off)) needEq(off, x.retv2, V_LOOKUP, "second returned iterator designates the wrong position"); }
            else if (s.objs.at(f2).v.k == Val::Int)
            {
                ++I.nObligations;
                if (!s.cs.entailsEq(s.objs.at(f2).v.i, Lin(x.boolv ? 1 : 0))) I.report(V_SEQ, s, std::string("the flag returned is not ") + (x.boolv ? "true although the element was inserted" : "false although nothing was inserted"), {});
            }
        }
        break;
    case Expect::Ref:
        if (r.k == Val::Ref && r.lv.k == LV::Cell)
        {
            if (r.lv.path != x.retPath) { I.report(rk, s, "returned reference is not to the documented member of the element"); break; }
            if (r.lv.reg != v.reg) { I.report(rk, s, "returned reference is not to an element of the container"); break; }
            LV rl = r.lv; if (!denseLV(s, rl)) break;
            if (!x.atRet) needEq(rl.off - v.f, x.retv, rk, "returned reference designates the wrong element");
        }
        break;
    case Expect::ElemPtr:
        if (r.isPtrCell())
        {
            if (v.k == View::Null ? r.lv.reg != 0 : r.lv.reg != v.reg) { I.report(rk, s, "returned pointer is not into the container"); break; }
            LV rl = r.lv; if (!denseLV(s, rl)) break;
            needEq(rl.off - v.f, x.retv, rk, "returned pointer designates the wrong element");
        }
        break;
    case Expect::Self:
        ++I.nObligations;
        if (!(r.k == Val::Ref && r.lv.k == LV::Obj && r.lv.obj == e.self)) I.report(rk, s, "does not return *this");
        break;
    case Expect::Int:
        if (r.k == Val::Int) needEq(r.i, x.retv, rk, "returned value"); else I.undecided.push_back({I.curMethod + " " + e.desc, "returned value not numeric"});
        break;
    case Expect::Bool:
        if (r.k == Val::Int)
        {
            ++I.nObligations;
            // true iff retv >= 0
            bool isT = s.cs.entails(r.i - Lin(1)), isF = s.cs.entailsEq(r.i, 0);
            if (isT && !s.cs.entails(x.retv)) I.report(rk, s, "returns true wrongly", {-x.retv - Lin(1)});
            if (isF && !s.cs.entails(-x.retv - Lin(1))) I.report(rk, s, "returns false wrongly", {x.retv});
        }
        break;
    case Expect::Tok:
        if (x.retv == Lin(1))
        {
            if (r.k == Val::Ref && r.lv.k == LV::Obj) { ++I.nObligations; std::vector<int> ts; findTokens(s, r.lv.obj, ts); for (int t : ts) { auto& o = s.objs.at(t); if (o.v.k == Val::Tok && o.v.tok != e.comp) I.report(V_PROP, s, "the comparison object reported is not the one in use"); } }
            break;
        }
        if (r.k == Val::Ref && r.lv.k == LV::Obj) { ++I.nObligations; auto& o = s.objs.at(r.lv.obj); if (o.k == ObjN::Token && o.v.tok != e.tok) I.report(V_PROP, s, "get_allocator() does not report the allocator in use"); }
        break;
    default: break;
    }
    if (ci.keyed && selfOk && !x.contents && !x.constOp) checkOrder(s, v, tokenOf(s, e.self, "comp"), "container");
    if (x.constOp)
    {
        ++I.nObligations;
        if (s.touched.count(v.reg) || v.reg != e.v.reg || (s.eff & (EF_ALLOC | EF_DEALLOC))) I.report(V_CONST, s, "observer modifies the container");
    }
    if (x.noAlloc && (s.eff & EF_ALLOC)) I.report(V_ALLOC, s, "allocates");
    if (selfOk) checkStructure(fd, e, x, s, v, others);
}

// Where the elements are afterwards: inline or allocated storage, growth, stability, copies made.
void Spec::checkStructure(const FunctionDecl* fd, const Entry& e, const Expect& x, State& s, const View& v, const std::vector<std::pair<int, View>>& others)
{
    std::string m = fd->getNameAsString(); auto& P = e.pa; size_t np = P.size(); bool ctor = e.ctor;
    Lin total = 0; bool haveT = false;
    if (x.contents || x.flex || x.atRet || x.suffix || x.anyPos) { for (auto& p : x.pieces) total = total + p.len; haveT = true; if (x.anyPos) total = e.n + Lin(1); }
    else if (x.sortedOnly) { total = ctor || m == "operator=" ? Lin(0) : e.n; for (auto& p : P) if (p.k == P_RANGE1 || p.k == P_ILIST) { total = total + p.len; haveT = true; } }
    if (ci.keyed && m.compare(0, 7, "emplace") == 0) total = e.n + Lin(1); // the element is made before its key is known
    bool reserve = m.compare(0, 7, "reserve") == 0;
    bool transfer = false; for (auto& p : P) if ((p.k == P_CRR || p.k == P_CL) && p.view.k != View::Inl && !p.selfAlias && !(freeFn && p.obj == e.self)) transfer = true;
    auto poss = [&](std::vector<Lin> c) { ++I.nObligations; return s.cs.feasible2(c); };
    // ---- static and small containers
    if (ci.stat && !ci.hasAlloc && (s.eff & EF_ALLOC)) I.report(V_ALLOC, s, "a static container allocates");
    bool inl = ci.hasAlloc && ci.N > 0 && !ci.seg;
    if (inl && haveT && !transfer && (ctor || e.v.k == View::Inl))
    {
        std::vector<Lin> c = {Lin((I128)ci.N) - total}; if (reserve && np == 1) c.push_back(Lin((I128)ci.N) - P[0].v);
        if (((s.eff & EF_ALLOC) || v.k != View::Inl) && poss(c)) I.report(V_ALLOC, s, v.k != View::Inl ? "elements that fit into the internal storage are kept in allocated storage" : "allocates although the elements fit into the internal storage", c);
    }
    if (inl && m == "shrink_to_fit" && e.v.k == View::Heap && v.k != View::Inl)
    {
        std::vector<Lin> c = {Lin((I128)ci.N) - e.n, e.v.cap - Lin((I128)ci.N) - Lin(1)};
        if (poss(c)) I.report(V_ALLOC, s, "shrink_to_fit does not bring elements that fit back into the internal storage", c);
    }
    if (m == "shrink_to_fit" && ci.hasAlloc && !ci.seg && v.k == View::Heap)
    {
        std::vector<Lin> c = {v.cap - v.b - e.n - Lin(1)};
        if (poss(c)) I.report(V_OBS, s, "shrink_to_fit leaves a capacity other than the size", c);
    }
    // ---- growth
    static const std::set<std::string> adders = {"push_back", "push_front", "emplace_back", "emplace_front", "emplace", "insert", "emplace_hint", "try_emplace", "insert_or_assign", "operator[]", "resize", "resize_back", "resize_front", "reserve", "reserve_back", "reserve_front"};
    bool adds = !ctor && adders.count(m) && haveT && ci.hasAlloc && e.v.k != View::Null && (!reserve || np == 1);
    bool moved = v.k != e.v.k || v.reg != e.v.reg;
    bool one = m == "push_back" || m == "push_front" || m == "emplace_back" || m == "emplace_front" || m == "emplace" || (m == "insert" && (np == 1 || (np == 2 && (P[1].k == P_VCL || P[1].k == P_VRR || P[1].k == P_ARG || P[1].k == P_VL)))) || m == "emplace_hint" || m == "try_emplace" || m == "insert_or_assign" || m == "operator[]";
    if (one && np && P[0].k == P_RANGE1) one = false;
    if (one && np && P[0].k == P_ILIST) one = false;
    if (adds && !ci.compact && moved)
    {
        std::vector<Lin> c;
        Lin front = e.v.f - e.v.b, back = e.v.cap - e.v.l, add = reserve ? P[0].v : total - e.n;
        if (!ci.de) { c.push_back(e.v.cap - e.v.b - total); if (reserve) c.push_back(e.v.cap - e.v.b - P[0].v); }
        else if (m == "push_back" || m == "emplace_back" || m == "resize_back") c.push_back(back - add);
        else if (m == "push_front" || m == "emplace_front" || m == "resize_front") c.push_back(front - add);
        else if (reserve) { if (m == "reserve_back") c.push_back(e.v.cap - e.v.f - add); else if (m == "reserve_front") c.push_back(e.v.l - e.v.b - add); else c.push_back(e.v.cap - e.v.b - add); }
        else { c.push_back(back - add); c.push_back(front - add); }
        if (poss(c)) I.report(V_GROW, s, "reallocates although the capacity suffices", c);
    }
    if (adds && !ci.compact && !ci.seg && one && moved && v.k == View::Heap && I.maxszSym >= 0)
    {
        Lin add = v.cap - e.v.cap, base = e.v.cap;
        if (ci.de && (m == "push_back" || m == "emplace_back")) base = e.v.cap - e.v.f; else if (ci.de && (m == "push_front" || m == "emplace_front")) base = e.v.l;
        else if (ci.de) base = e.n;
        std::vector<Lin> c = {Lin::sym(I.maxszSym) - v.cap - Lin(1), base - Lin(8) - add * 8 - Lin(1)};
        if (!fromLoop(v.cap)) s.gen = false; // a matter of two expressions, not of what the loops do
        if (poss(c)) I.report(V_GROW, s, "the capacity does not grow by a constant factor: from " + e.v.cap.str() + " to " + v.cap.str(), c);
    }
    if (m == "reserve" && ci.hasAlloc && np == 1 && v.k != View::Null) { std::vector<Lin> c = {P[0].v - (v.cap - v.b) - Lin(1)}; if (poss(c)) I.report(V_GROW, s, "reserve leaves a smaller capacity than requested", c); }
    if ((m == "reserve_back" || m == "reserve_front") && ci.de && np == 1 && v.k != View::Null) { std::vector<Lin> c = {P[0].v - (m == "reserve_back" ? v.cap - v.f : v.l - v.b) - Lin(1)}; if (poss(c)) I.report(V_GROW, s, m + " leaves less room than requested", c); }
    if (reserve && np == 1 && v.k == View::Null && poss({P[0].v - Lin(1)})) I.report(V_GROW, s, m + " leaves no room", {P[0].v - Lin(1)});
    if (adds && one && !moved && !ci.seg && (m == "push_back" || m == "emplace_back" || m == "push_front" || m == "emplace_front"))
    {
        ++I.nObligations;
        bool fr = m == "push_front" || m == "emplace_front"; Lin room = fr ? e.v.f - e.v.b : e.v.cap - e.v.l - Lin(0); std::vector<Lin> c = {room - Lin(1)};
        if (ci.compact) {}
        else if ((s.eff & (EF_ASSIGN | EF_DESTROY)) && poss(c)) I.report(V_STABLE, s, "appending where there is room assigns or destroys elements", c);
        else if (!s.cs.entailsEq(v.f, fr ? e.v.f - Lin(1) : e.v.f) && poss(c)) I.report(V_STABLE, s, "appending where there is room moves the other elements", c);
    }
    if (ci.seg && !ctor && e.v.k == View::Heap)
    {
        // segments are never exchanged: elements keep their addresses
        bool front = m == "push_front" || m == "emplace_front" || m == "resize_front", room = m == "push_back" || m == "emplace_back" || (m == "resize" && !ci.de) || m == "resize_back" || m == "pop_back" || m == "pop_front" || reserve || m == "shrink_to_fit" || front;
        if (room)
        {
            ++I.nObligations;
            Lin gone = Lin(m == "pop_front" ? 1 : 0); bool atL = front && adds;
            if (v.reg != e.v.reg || (atL ? !s.cs.entailsEq(v.l, e.v.l) : !s.cs.entailsEq(v.f, e.v.f + gone)))
                { std::vector<Lin> c = {e.n - gone - Lin(1)}; if (m != "resize_front" && poss(c)) I.report(V_STABLE, s, "the elements do not keep their addresses", c); }
        }
        if (adds && one && v.tab != e.v.tab && v.tab > 0 && e.v.tab > 0 && s.regs.has(v.tab) && e.s.regs.has(e.v.tab) && I.maxszSym >= 0)
        {
            // the table is copied when it is replaced: it has to grow by a constant factor as well
            Lin T0 = ci.de ? Lin() : e.s.regs.at(e.v.tab).size, T1 = s.regs.at(v.tab).size;
            if (ci.de) { int q = newSym("segsused"); T0 = Lin::sym(q); s.cs.addEq(T0 * ci.N, e.v.cap - e.v.b + Lin(1)); }
            std::vector<Lin> c = {Lin::sym(I.maxszSym) - T1 - Lin(1), T0 - Lin(8) - (T1 - T0) * 8 - Lin(1)};
            if (!fromLoop(T1)) s.gen = false;
            if (poss(c)) I.report(V_GROW, s, "the table of segments does not grow by a constant factor: from " + T0.str() + " to " + T1.str(), c);
        }
        if (adds && one && (m == "push_back" || m == "emplace_back" || m == "push_front" || m == "emplace_front"))
        {
            Lin r = front ? e.v.f - e.v.b : e.v.cap - e.v.l; std::vector<Lin> c = {r - Lin(1)}; ++I.nObligations;
            if ((v.tab != e.v.tab || !s.cs.entailsEq(v.cap, e.v.cap) || !s.cs.entailsEq(v.b, e.v.b)) && poss(c)) I.report(V_GROW, s, "allocates although the capacity suffices", c);
        }
        if (reserve && np == 1)
        {
            Lin r = m == "reserve_front" ? e.v.l - e.v.b : m == "reserve_back" ? e.v.cap - e.v.f : e.v.cap - e.v.b; std::vector<Lin> c = {r - P[0].v}; ++I.nObligations;
            if ((v.tab != e.v.tab || !s.cs.entailsEq(v.cap, e.v.cap) || !s.cs.entailsEq(v.b, e.v.b)) && poss(c)) I.report(V_GROW, s, "allocates although the capacity suffices", c);
        }
    }
    // ---- stability
    if (ci.hasAlloc && !ctor && !ci.compact && e.v.k == View::Heap && moved && (m == "erase" || m == "pop_back" || m == "pop_front" || m == "clear")) I.report(V_STABLE, s, "removing elements moves the others to other storage");
    if (ci.hasAlloc) for (size_t i = 0; i < np; ++i) if ((P[i].k == P_CRR || P[i].k == P_CL) && P[i].view.k == View::Heap && !P[i].selfAlias && P[i].obj != e.self)
    {
        bool swap = m == "swap"; bool allowed = ctor ? np == 1 : swap ? true : (ci.aflags & 2) != 0 && !ci.seg; // segmented containers document no transfer between unequal allocators
        if (!ctor && !swap && m != "operator=") continue;
        if (!allowed)
        {
            int a = ctor ? P[np - 1].tok : e.tok, b = P[i].tok; if (ctor && P[np - 1].k != P_ALLOC) { allowed = true; a = b; }
            auto it = s.facts.find("tokeq " + std::to_string(std::min(a, b)) + " " + std::to_string(std::max(a, b)));
            allowed = a == b || (ci.aflags & 8) || it == s.facts.end() || it->second;
        }
        if (!allowed) continue;
        ++I.nObligations;
        if (v.reg != P[i].view.reg || !s.cs.entailsEq(v.f, P[i].view.f)) { I.report(V_STABLE, s, "the storage of the other container is not taken over"); continue; }
        if ((ctor || e.v.k != View::Inl) && (s.eff & (EF_CTOR | EF_ASSIGN | EF_MOVE | EF_COPY))) I.report(V_STABLE, s, "elements are moved or copied although the storage is taken over");
        if (swap && e.v.k == View::Heap) for (auto& o : others) if (o.first == (int)i && o.second.reg != e.v.reg) I.report(V_STABLE, s, "the other container does not take over the storage");
    }
    // ---- no copies where nothing is to be copied
    if (haveT && (s.eff & EF_COPY) && !I.typeOpThrows(ci.T, 2) && !I.typeOpThrows(ci.T, 4))
    {
        bool copies = freeFn;
        for (size_t i = 0; i < np; ++i)
            if (P[i].k == P_VCL || P[i].k == P_VL || P[i].k == P_CCL || P[i].k == P_ILIST || (P[i].k == P_RANGE1 && !P[i].moveIt) || ((P[i].k == P_KEY || P[i].k == P_MAPPED) && !P[i].rval)) copies = true;
        if (!copies) I.report(V_FORWARD, s, "an element is copied although no argument is to be copied");
    }
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) if (md->isConst() && !x.constOp)
    {
        ++I.nObligations;
        if (s.touched.count(v.reg) || v.reg != e.v.reg || (s.eff & (EF_ALLOC | EF_DEALLOC))) I.report(V_CONST, s, "a const member modifies the container");
    }
}

static unsigned long long qMax = getenv("SFLSA_Q") ? atoll(getenv("SFLSA_Q")) : 2000000;
void Spec::runEntry(const FunctionDecl* fd, Entry e)
{
    if (!onlyEntry.empty() && e.desc.find(onlyEntry) == std::string::npos) return;
    ++nEntries;
    Expect x; bool haveX = freeFn ? expectFree(fd, e, x) : expect(fd, e, x);
    if (e.s.cs.unsat) return;
    { std::map<int, I128> m; if (e.s.cs.intModel({}, m) == 0) return; }
    if (!haveX && !isa<CXXDestructorDecl>(fd)) { ++nNoSpec; unspecified.insert(I.curMethod); }
    I.curEntry = e.desc; I.curAlias = e.alias; I.curLoc = fd->getLocation();
    size_t nrep = I.reports.size();
    if (debug) llvm::errs() << "-- " << I.curMethod << " [" << e.desc << "]\n" << I.dump(e.s) << "\n";
    auto go = [&](int unroll) -> std::string
    {
        std::vector<Thrown> thrown; I.sink = &thrown; I.callStack.clear(); I.curFrame = 0; I.budget = 0; I.muted = 0; I.cmpLog = nullptr; I.unroll = unroll; I.curLoc = fd->getLocation();
        I.budgetMax = unroll ? 300000 : 4000000; I.qLimit = linStats.queries + (unroll ? 60000 : singlePass(e) ? qMax / 8 : qMax);
        std::string why; RS rs;
        try
        {
            State s0 = e.s;
            if (auto* cd = dyn_cast<CXXConstructorDecl>(fd)) { for (auto& st : I.runCtor(std::move(s0), cd, e.selfLV, e.args)) rs.push_back({std::move(st), Val()}); }
            else if (isa<CXXDestructorDecl>(fd)) { for (auto& st : I.destroyObj(std::move(s0), e.selfLV, ci.type)) rs.push_back({std::move(st), Val()}); }
            else
            {
                QualType rt = fd->getReturnType(); LV ret; bool hasRet = !rt->isReferenceType() && rt->isRecordType();
                if (hasRet) { int o = I.newObj(s0, rt); ret = I.lvOf(s0, o); }
                rs = I.callFn(std::move(s0), fd, e.selfLV.k == LV::None ? nullptr : &e.selfLV, e.args, hasRet ? &ret : nullptr);
            }
            I.sink = nullptr;
            for (auto& r : rs) checkExit(fd, e, x, haveX, r.s, r.v, 0);
        }
        catch (Unsupported& u) { why = u.what + " at " + I.here(); }
        I.sink = nullptr; I.muted = 0; I.cmpLog = nullptr; I.unroll = 0;
        if (why.empty() || unroll) try { for (auto& t : thrown) checkExit(fd, e, x, haveX, t.s, Val(), t.kind); } catch (Unsupported& u) { if (why.empty()) why = u.what + " at " + I.here(); }
        if (debug) llvm::errs() << "   exits " << rs.size() << " exceptional " << thrown.size() << " reports " << I.reports.size() - nrep << " " << why << "\n";
        return why;
    };
    std::string why = go(e.smallN >= 0 ? 6 : 0);
    bool anyGen = false; for (size_t i = nrep; i < I.reports.size(); ++i) if (I.reports[i].gen && I.reports[i].definite) anyGen = true;
    if (!why.empty()) I.undecided.push_back({I.curMethod + " [" + e.desc + "]", why});
    if (e.smallN < 0 && (!why.empty() || anyGen))
    {
        // reports that depend on a generalised loop are confirmed on its first iterations, which are followed exactly
        std::vector<Report> rest; rest.swap(I.reports); 
        for (int u : {1, 2, 4}) { std::string w = go(u); if (!I.reports.empty() || !w.empty()) break; }
        std::vector<Report> conf; conf.swap(I.reports);
        for (size_t i = nrep; i < rest.size();)
        {
            bool ok = !rest[i].gen;
            for (auto& c : conf) if (c.kind == rest[i].kind && c.definite) ok = true;
            if (!ok) { I.undecided.push_back({I.curMethod + " [" + e.desc + "]", std::string("not confirmed: ") + vkName[rest[i].kind] + ": " + rest[i].msg}); rest.erase(rest.begin() + i); }
            else ++i;
        }
        I.reports = std::move(rest);
        for (auto& c : conf) I.reports.push_back(c);
    }
}

bool gNeg = false;

// calls that violate a documented precondition, everything else being as documented
std::vector<Entry> Spec::negEntries(const FunctionDecl* fd, const Entry& e)
{
    std::vector<Entry> out; std::string m = fd->getNameAsString(); auto& P = e.pa; size_t np = P.size(); Lin n = e.n, N((I128)ci.N);
    bool ctor = isa<CXXConstructorDecl>(fd);
    auto put = [&](const std::string& d, std::vector<Lin> cs)
    {
        Entry a = e; for (auto& c : cs) a.s.cs.add(c);
        if (a.s.cs.unsat || !a.s.cs.feasible2({})) return;
        { std::map<int, I128> mm; if (a.s.cs.intModel({}, mm) == 0) return; }
        a.desc += " precondition violated: " + d; out.push_back(a);
    };
    std::vector<size_t> pos; for (size_t i = 0; i < np; ++i) if (P[i].k == P_POS) pos.push_back(i);
    std::vector<Lin> ok; for (size_t i : pos) { ok.push_back(P[i].v); ok.push_back(n - P[i].v); }
    auto K = [&](std::initializer_list<PK> l) { if (l.size() != np) return false; size_t i = 0; for (PK k : l) if (P[i++].k != k) return false; return true; };
    bool one = !ctor && (m == "push_back" || m == "emplace_back" || m == "emplace" || m == "emplace_hint" || m == "try_emplace" || m == "insert_or_assign" || (m == "insert" && !K({P_RANGE1, P_RANGE2}) && !K({P_ILIST}) && !(np >= 2 && (P[1].k == P_SIZE || P[1].k == P_RANGE1 || P[1].k == P_ILIST))) || (m == "operator[]" && !K({P_SIZE})));
    if (!ctor)
    {
        if (m == "operator[]" && K({P_SIZE})) put("pos < size()", {P[0].v - n});
        if (m == "nth" && K({P_SIZE})) put("pos <= size()", {P[0].v - n - Lin(1)});
        if ((m == "front" || m == "back" || m == "pop_front" || m == "pop_back") && np == 0) put("!empty()", {-n});
        if (m == "erase" && K({P_POS, P_POS}))
        {
            put("first <= last", {P[0].v, n - P[0].v, P[1].v, P[0].v - P[1].v - Lin(1)});
            put("last <= cend()", {P[0].v, n - P[0].v, P[1].v - n - Lin(1)});
            put("cbegin() <= first", {-P[0].v - Lin(1), P[1].v, n - P[1].v});
        }
        else if (m == "erase" && K({P_POS})) { put("pos < cend()", {P[0].v - n}); put("cbegin() <= pos", {-P[0].v - Lin(1)}); }
        else if (pos.size() == 1 && (m == "index_of" || one || m == "insert"))
        {
            size_t i = pos[0]; std::vector<Lin> room;
            if (ci.stat && one) room.push_back(N - n - Lin(1));
            if (ci.stat && np >= 2 && P[1].k == P_SIZE) room.push_back(N - n - P[1].v);
            if (ci.stat && np >= 2 && (P[1].k == P_RANGE1 || P[1].k == P_ILIST)) room.push_back(N - n - P[1].len);
            auto v = room; v.push_back(P[i].v - n - Lin(1)); put("pos <= cend()", v);
            v = room; v.push_back(-P[i].v - Lin(1)); put("cbegin() <= pos", v);
        }
        if (m == "swap" && K({P_CL}) && ci.hasAlloc && !(ci.aflags & (4 | 8)) && !P[0].selfAlias && e.tok >= 0 && P[0].tok >= 0)
        {
            Entry a = e; a.s.facts["tokeq " + std::to_string(std::min(e.tok, P[0].tok)) + " " + std::to_string(std::max(e.tok, P[0].tok))] = false;
            a.desc += " precondition violated: equal allocators"; out.push_back(a);
        }
    }
    if (ci.stat)
    {
        auto with = [&](Lin c) { auto v = ok; v.push_back(c); return v; };
        bool single = false; for (auto& p : P) if (p.singlePass) single = true;
        // elements with equal keys of a range take no room of their own
        if (ci.keyed && !ci.multi) for (auto& p : P) if (p.k == P_RANGE1 || p.k == P_ILIST) { single = true; if (!ctor && m == "insert") put("length <= available()", {n - N, p.len - Lin(1), Lin(1) - p.len}); }
        if (one) { bool assign = m == "insert_or_assign"; if (!assign) put("!full()", with(n - N)); }
        else if (single) {}
        else if (ctor || m == "assign" || m == "operator=" || m == "resize")
        {
            for (auto& p : P) { if (p.k == P_SIZE) put("n <= capacity()", {p.v - N - Lin(1)}); if (p.k == P_RANGE1 || p.k == P_ILIST) put("length <= capacity()", {p.len - N - Lin(1)}); }
        }
        else if (m == "insert")
            for (auto& p : P) { if (p.k == P_SIZE) put("n <= available()", with(n + p.v - N - Lin(1))); if (p.k == P_RANGE1 || p.k == P_ILIST) put("length <= available()", with(n + p.len - N - Lin(1))); }
    }
    for (auto& a : out) if (ci.keyed && a.seq >= 0 && !ctor && keyArgs(fd, a)) { a.hasKey = true; a.fact = ci.sorted ? I.cmpFact(a.s, a.comp, a.key, a.seq) : I.eqFact(a.s, a.comp, a.key, a.seq); }
    return out;
}

void Spec::runNeg(const FunctionDecl* fd, Entry e)
{
    I.curEntry = e.desc; I.curAlias = e.alias; I.curLoc = fd->getLocation(); I.allowAssert = true; ++nNegEntries;
    bool byElement = false; if (ci.keyed) for (auto& p : e.pa) if (p.k == P_RANGE1 || p.k == P_ILIST) byElement = true; // as inserting one by one
    bool gone = e.ctor || byElement || fd->getNameAsString() == "operator=";
    size_t nrep = I.reports.size(); int asserts = 0;
    if (debug) llvm::errs() << "-- " << I.curMethod << " [" << e.desc << "]\n" << I.dump(e.s) << "\n";
    I.onAssert = [&](State& s)
    {
        ++asserts; ++nExits; ++I.nObligations; if (gone || I.muted || s.cs.unsat || !s.cs.feasible2({})) return;
        View v; std::vector<Report> keep; keep.swap(I.reports);
        bool ok = view(s, e.self, v, "container", false); bool same = ok && v.k == e.v.k && v.reg == e.v.reg && s.cs.entailsEq(v.f, e.v.f) && s.cs.entailsEq(v.l, e.v.l) && checkPieces(s, v, {pSeq(e.seq, 0, e.n)}, V_NOASSERT, "container when the assertion fails");
        I.reports.swap(keep);
        if (!same) I.report(V_NOASSERT, s, "the assertion fails only after the container has been modified");
    };
    auto go = [&](int unroll) -> std::string
    {
        std::vector<Thrown> thrown; I.sink = &thrown; I.callStack.clear(); I.curFrame = 0; I.budget = 0; I.muted = 0; I.cmpLog = nullptr; I.unroll = unroll; I.curLoc = fd->getLocation();
        I.budgetMax = 400000; I.qLimit = linStats.queries + 60000;
        std::string why;
        try
        {
            State s0 = e.s; SS ss;
            if (auto* cd = dyn_cast<CXXConstructorDecl>(fd)) ss = I.runCtor(std::move(s0), cd, e.selfLV, e.args);
            else
            {
                QualType rt = fd->getReturnType(); LV ret; bool hasRet = !rt->isReferenceType() && rt->isRecordType();
                if (hasRet) { int o = I.newObj(s0, rt); ret = I.lvOf(s0, o); }
                for (auto& r : I.callFn(std::move(s0), fd, e.selfLV.k == LV::None ? nullptr : &e.selfLV, e.args, hasRet ? &ret : nullptr)) ss.push_back(std::move(r.s));
            }
            I.sink = nullptr;
            for (auto& s : ss) if (!s.cs.unsat) { ++I.nObligations; I.curLoc = fd->getLocation(); I.report(V_NOASSERT, s, "returns although the precondition is violated, no assertion fails"); }
        }
        catch (Unsupported& u) { why = u.what + " at " + I.here(); }
        I.sink = nullptr; I.muted = 0; I.cmpLog = nullptr; I.unroll = 0;
        return why;
    };
    std::string why = go(0); bool anyGen = false; for (size_t i = nrep; i < I.reports.size(); ++i) if (I.reports[i].gen) anyGen = true;
    if (!why.empty()) I.undecided.push_back({I.curMethod + " [" + e.desc + "]", why});
    if (anyGen)
    {
        std::vector<Report> rest(I.reports.begin() + nrep, I.reports.end()); I.reports.resize(nrep);
        for (int u : {1, 2, 4}) { go(u); if (I.reports.size() > nrep) break; }
        if (I.reports.size() == nrep) for (auto& r : rest) { if (r.gen) I.undecided.push_back({I.curMethod + " [" + e.desc + "]", "not confirmed: " + r.msg}); else I.reports.push_back(r); }
    }
    if (debug) llvm::errs() << "   assertions " << asserts << " reports " << I.reports.size() - nrep << " " << why << "\n";
    I.allowAssert = false; I.onAssert = nullptr;
}

void Spec::runMethod(const CXXMethodDecl* md)
{
    I.curMethod = ci.name + "::" + methodName(md) + " {" + ci.cfg + "}";
    std::vector<Entry> es;
    bool ctor = isa<CXXConstructorDecl>(md);
    try
    {
        if (ctor)
        {
            Entry e; e.s = baseState(); e.ctor = true; e.desc = "new";
            if (I.maxszSym >= 0) { e.s.cs.add(Lin::sym(I.maxszSym) - Lin(std::max(1L, ci.N))); e.s.cs.add(Lin((((I128)1 << 63) - 1) / (I128)C.getTypeSizeInChars(ci.T).getQuantity()) - Lin::sym(I.maxszSym)); }
            View v; int sq, tk, cp; Lin n; e.self = makeContainer(e.s, "c", 0, v, sq, n, tk, cp, true); e.selfLV = LV::ofObj(e.self);
            es.push_back(e);
        }
        else for (int sh : shapes())
        {
            Entry e; e.s = baseState(); e.desc = shapeName(sh);
            if (I.maxszSym >= 0) { e.s.cs.add(Lin::sym(I.maxszSym) - Lin(std::max(1L, ci.N))); e.s.cs.add(Lin((((I128)1 << 63) - 1) / (I128)C.getTypeSizeInChars(ci.T).getQuantity()) - Lin::sym(I.maxszSym)); }
            e.self = makeContainer(e.s, "c", sh, e.v, e.seq, e.n, e.tok, e.comp, false); e.selfLV = LV::ofObj(e.self);
            if (!e.s.cs.feasible2({})) continue;
            es.push_back(e);
        }
        std::vector<QualType> tys; for (auto* p : md->parameters()) tys.push_back(p->getType());
        for (unsigned i = 0; i < tys.size(); ++i)
        {
            bool two = false;
            if (!addParam(es, md, i, tys, two)) { I.undecided.push_back({I.curMethod, "parameter " + tys[i].getAsString() + " not modelled"}); return; }
            if (two) ++i;
        }
    }
    catch (Unsupported& u) { I.undecided.push_back({I.curMethod, u.what}); return; }
    std::string m = md->getNameAsString();
    if (gNeg) { for (auto& e : es) for (auto& a : negEntries(md, e)) runNeg(md, a); return; }
    if (m.compare(0, 6, "resize") == 0)
    {
        std::vector<Entry> e2;
        for (auto& e : es)
        {
            Entry a = e, b = e; Lin d = e.pa[0].v - e.n;
            a.s.cs.add(d); a.desc += " grow"; if (a.s.cs.feasible(d)) e2.push_back(a);
            b.s.cs.add(-d - Lin(1)); b.desc += " shrink"; if (b.s.cs.feasible(-d - Lin(1))) e2.push_back(b);
        }
        es = e2;
    }
    if (ci.keyed)
    {
        // ranges: of one element (exact result) and of any length (validity)
        std::vector<Entry> e2;
        for (auto& e : es)
        {
            int r = -1; for (size_t i = 0; i < e.pa.size(); ++i) if (e.pa[i].k == P_RANGE1 || e.pa[i].k == P_ILIST) r = (int)i;
            e2.push_back(e); if (r < 0) continue;
            Entry a = e; a.single = true; a.s.cs.addEq(a.pa[r].len, Lin(1)); a.desc += " one element";
            TermP t = tElem(a.pa[r].seq, 0); a.ins = t; a.key = ci.map ? tProj(0, t) : t;
            e2.push_back(a);
        }
        es = e2;
    }
    if (ci.keyed && !ctor)
    {
        // keyed members: the key is present or it is not
        std::vector<Entry> e2;
        if (ci.unord && ci.multi && (m == "count" || m == "contains" || m == "find" || m == "erase"))
            for (auto& e0 : es)
            {
                Entry b = e0; if (b.seq < 0 || !keyArgs(md, b)) continue;
                int al = -1; for (auto& p : b.pa) if (p.k == P_KEY || p.k == P_VCL || p.k == P_VRR) al = (int)(&p - &b.pa[0]);
                for (int n = 1; n <= 3; ++n) for (int mask = 0; mask < 1 << n; ++mask) for (int j = 0; j < (b.alias ? n : 1); ++j)
                {
                    if (b.alias && !(mask >> j & 1)) continue;
                    Entry a = b; a.s.cs.addEq(a.n, Lin(n)); if (b.alias) a.s.cs.addEq(a.pa[al].aliasIdx, Lin(j));
                    if (a.s.cs.unsat || !a.s.cs.feasible2({})) continue;
                    a.smallN = n; a.mask = mask; a.hasKey = true; a.present = mask != 0;
                    EqMask em; em.tok = a.comp; em.key = a.key; em.seq = a.seq; em.n = n; em.mask = mask; a.s.eqMask.push_back(em);
                    CmpFact f; f.tok = a.comp; f.key = a.key; f.seq = a.seq; int lo = 0; while (lo < n && !(mask >> lo & 1)) ++lo; f.L = f.U = Lin(lo); a.s.cmp.push_back(f); a.fact = f;
                    a.desc += " " + std::to_string(n) + " elements, equal:"; for (int i = 0; i < n; ++i) a.desc += mask >> i & 1 ? '1' : '0';
                    if (b.alias) a.desc += " alias " + std::to_string(j);
                    e2.push_back(a);
                }
            }
        for (auto& e : es)
        {
            if (e.seq < 0 || !(e.single && m == "insert" ? true : keyArgs(md, e))) { e2.push_back(e); continue; }
            e.hasKey = true; e.fact = ci.sorted ? I.cmpFact(e.s, e.comp, e.key, e.seq) : I.eqFact(e.s, e.comp, e.key, e.seq);
            Lin pr = ci.sorted ? e.fact.U - e.fact.L - Lin(1) : e.n - e.fact.L - Lin(1);
            Entry a = e, b = e;
            a.present = 1; a.s.cs.add(pr); a.desc += " key present"; if (!a.s.cs.unsat && a.s.cs.feasible2({})) e2.push_back(a);
            b.present = 0; b.s.cs.add(-pr - Lin(1)); b.desc += " key absent"; if (!b.s.cs.unsat && b.s.cs.feasible2({})) e2.push_back(b);
        }
        es = e2;
    }
    for (auto& e : es) runEntry(md, e);
}

std::pair<int, Lin> filterSeq(State& s, const std::string& run, const std::string& pred, const Lin& n, const SeqInfo* from);

// Non-member functions: comparison operators, swap, erase and erase_if
void Spec::runFree(const FunctionDecl* fd)
{
    I.curMethod = ci.name + "::free " + methodName(fd) + " {" + ci.cfg + "}"; freeFn = true;
    std::vector<Entry> es;
    try
    {
        Entry e; e.s = baseState();
        if (I.maxszSym >= 0) { e.s.cs.add(Lin::sym(I.maxszSym) - Lin(std::max(1L, ci.N))); e.s.cs.add(Lin((((I128)1 << 63) - 1) / (I128)C.getTypeSizeInChars(ci.T).getQuantity()) - Lin::sym(I.maxszSym)); }
        es.push_back(e);
        std::vector<QualType> tys; for (auto* p : fd->parameters()) tys.push_back(p->getType());
        for (unsigned i = 0; i < tys.size(); ++i) { bool two = false; if (!addParam(es, fd, i, tys, two)) { I.undecided.push_back({I.curMethod, "parameter " + tys[i].getAsString() + " not modelled"}); return; } }
    }
    catch (Unsupported& u) { I.undecided.push_back({I.curMethod, u.what}); return; }
    std::vector<Entry> all; OverloadedOperatorKind op = fd->getOverloadedOperator();
    std::string m = fd->getNameAsString();
    for (auto& e : es)
    {
        e.selfLV = LV(); if (!e.s.cs.feasible2({})) continue;
        if (e.pa.size() == 2 && (e.pa[0].k == P_CCL) && (e.pa[1].k == P_CCL) && op != OO_None)
        {
            std::string A = "S" + std::to_string(e.pa[0].seq), B = "S" + std::to_string(e.pa[1].seq); Lin n1 = e.pa[0].len, n2 = e.pa[1].len;
            auto put = [&](const std::string& d, std::function<void(State&)> f, bool eq, bool lt, bool gt)
            {
                Entry x = e; f(x.s); if (x.s.cs.unsat || !x.s.cs.feasible2({})) return;
                x.desc += " " + d;
                x.cmpKnown = true; x.cmpRes = op == OO_EqualEqual ? eq : op == OO_ExclaimEqual ? !eq : op == OO_Less ? lt : op == OO_Greater ? gt : op == OO_LessEqual ? !gt : !lt;
                all.push_back(x);
            };
            std::string E = ci.unord ? "perm " : "equal ", P = A, Q = B; if (Q < P) std::swap(P, Q); E += P + " " + Q;
            if (op == OO_EqualEqual || op == OO_ExclaimEqual)
            {
                put("sizes differ (shorter)", [&](State& s) { s.cs.add(n2 - n1 - Lin(1)); }, false, false, false);
                put("sizes differ (longer)", [&](State& s) { s.cs.add(n1 - n2 - Lin(1)); }, false, false, false);
                put("both empty", [&](State& s) { s.cs.addEq(n1, 0); s.cs.addEq(n2, 0); }, true, false, false);
                put("same elements", [&](State& s) { s.cs.addEq(n1, n2); s.cs.add(n1 - Lin(1)); s.facts[E] = true; }, true, false, false);
                put("other elements", [&](State& s) { s.cs.addEq(n1, n2); s.cs.add(n1 - Lin(1)); s.facts[E] = false; }, false, false, false);
            }
            else
            {
                std::string L = "lex " + A + " " + B, G = "lex " + B + " " + A;
                put("both empty", [&](State& s) { s.cs.addEq(n1, 0); s.cs.addEq(n2, 0); }, true, false, false);
                put("left empty", [&](State& s) { s.cs.addEq(n1, 0); s.cs.add(n2 - Lin(1)); }, false, true, false);
                put("right empty", [&](State& s) { s.cs.addEq(n2, 0); s.cs.add(n1 - Lin(1)); }, false, false, true);
                auto ne = [&](State& s) { s.cs.add(n1 - Lin(1)); s.cs.add(n2 - Lin(1)); };
                put("less", [&](State& s) { ne(s); s.facts[L] = true; s.facts[G] = false; }, false, true, false);
                put("greater", [&](State& s) { ne(s); s.facts[L] = false; s.facts[G] = true; }, false, false, true);
                put("neither less nor greater", [&](State& s) { ne(s); s.facts[L] = false; s.facts[G] = false; s.facts[E] = true; s.cs.addEq(n1, n2); }, true, false, false);
            }
            continue;
        }
        if (m == "erase_if" && e.pa.size() == 2 && e.pa[1].k == P_PRED)
        {
            if (e.v.k == View::Null) { all.push_back(e); continue; }
            for (int n = 0; n <= (ci.seq ? 2 : 3); ++n) for (int mask = 0; mask < 1 << n; ++mask)
            {
                Entry a = e; a.s.cs.addEq(a.n, Lin(n)); if (a.s.cs.unsat || !a.s.cs.feasible2({})) continue;
                a.smallN = n; a.mask = mask; EqMask em; em.tok = a.pa[1].tok; em.seq = a.seq; em.n = n; em.mask = mask; a.s.eqMask.push_back(em);
                a.desc += " " + std::to_string(n) + " elements, to erase:"; for (int i = 0; i < n; ++i) a.desc += mask >> i & 1 ? '1' : '0';
                all.push_back(a);
            }
            all.push_back(e); continue;
        }
        if (isIterOp(fd))
        {
            // the operation applied at a position p (and offset n, or second position q) for which it is defined
            Lin n = e.n, p = e.pa.size() > 1 ? e.pa[1].v : Lin(0), q = e.pa.size() > 2 ? e.pa[2].v : Lin(0); State& s = e.s;
            if (m == "it_add" || m == "it_radd" || m.find("it_add_assign") == 0) { s.cs.add(p + q); s.cs.add(n - p - q); }
            else if (m == "it_sub" || m.find("it_sub_assign") == 0) { s.cs.add(p - q); s.cs.add(n - p + q); }
            else if (m.find("it_inc") == 0 || m == "it_deref" || m == "it_arrow") s.cs.add(n - p - Lin(1));
            else if (m.find("it_dec") == 0) s.cs.add(p - Lin(1));
            else if (m == "it_index") { s.cs.add(p + q); s.cs.add(n - p - q - Lin(1)); }
            if (s.cs.unsat || !s.cs.feasible2({})) continue;
            if (m == "it_eq" || m == "it_ne" || m == "it_lt" || m == "it_gt" || m == "it_le" || m == "it_ge")
            {
                for (int c = -1; c <= 1; ++c)
                {
                    Entry x = e; if (c < 0) x.s.cs.add(q - p - Lin(1)); else if (c > 0) x.s.cs.add(p - q - Lin(1)); else x.s.cs.addEq(p, q);
                    if (x.s.cs.unsat || !x.s.cs.feasible2({})) continue;
                    x.desc += c < 0 ? " first before second" : c > 0 ? " first after second" : " same position";
                    x.itRes = m == "it_eq" ? c == 0 : m == "it_ne" ? c != 0 : m == "it_lt" ? c < 0 : m == "it_gt" ? c > 0 : m == "it_le" ? c <= 0 : c >= 0;
                    all.push_back(x);
                }
                continue;
            }
        }
        all.push_back(e);
    }
    if (gNeg) return;
    for (auto& e : all) runEntry(fd, e);
}

bool Spec::expectFree(const FunctionDecl* fd, Entry& e, Expect& x)
{
    std::string m = fd->getNameAsString(); auto& P = e.pa; size_t np = P.size(); State& s = e.s;
    x.tok = e.tok; x.comp = e.comp;
    if (e.cmpKnown)
    {
        x.contents = true; x.pieces = {pSeq(e.seq, 0, e.n)}; x.other = true; x.otherArg = 1; x.otherPieces = {pSeq(P[1].seq, 0, P[1].len)}; x.constOp = true;
        x.ret = Expect::Bool; x.retv = Lin(e.cmpRes ? 0 : -1); return true;
    }
    if (isIterOp(fd))
    {
        x.contents = true;
        if (m.find("it_range") == 0)
        {
            size_t c = 0; while (c < np && P[c].k != P_CCL) ++c;
            if (c + 2 >= np) return false;
            Lin from = P[c + 1].v, len = P[c + 2].v - P[c + 1].v;
            x.other = true; x.otherArg = (int)c; x.otherPieces = {pSeq(P[c].seq, 0, P[c].len)};
            if (m == "it_range_insert") { x.pieces = {pSeq(e.seq, 0, P[1].v), pSeq(P[c].seq, from, len), pSeq(e.seq, P[1].v, e.n - P[1].v)}; x.ret = Expect::Pos; x.retv = P[1].v; }
            else x.pieces = {pSeq(P[c].seq, from, len)};
            if (ci.stat) s.cs.add(Lin((I128)ci.N) - len - (m == "it_range_insert" ? e.n : Lin(0)));
            return true;
        }
        x.pieces = {pSeq(e.seq, 0, e.n)}; x.constOp = true;
        if (np < 2 || P[1].k != P_POS) return false;
        Lin p = P[1].v, q = np > 2 ? P[2].v : Lin(0);
        auto pos = [&](Lin v) { x.ret = Expect::Pos; x.retv = v; return true; };
        if (m == "it_add" || m == "it_radd" || m.find("it_add_assign") == 0) return pos(p + q);
        if (m == "it_sub" || m.find("it_sub_assign") == 0) return pos(p - q);
        if (m == "it_inc_old" || m == "it_dec_old" || m == "it_copy" || m == "it_convert") return pos(p);
        if (m.find("it_inc") == 0) return pos(p + Lin(1));
        if (m.find("it_dec") == 0) return pos(p - Lin(1));
        if (m == "it_assign") return pos(q);
        if (m == "it_diff") { x.ret = Expect::Int; x.retv = p - q; return true; }
        if (e.itRes >= 0) { x.ret = Expect::Bool; x.retv = Lin(e.itRes ? 0 : -1); return true; }
        if (m == "it_deref") { x.ret = Expect::Ref; x.retv = p; return true; }
        if (m == "it_index") { x.ret = Expect::Ref; x.retv = p + q; return true; }
        if (m == "it_arrow") { x.ret = Expect::ElemPtr; x.retv = p; return true; }
        return false;
    }
    if (m == "swap" && np == 2 && P[0].k == P_CL && P[1].k == P_CL)
    {
        x.contents = true; x.pieces = {pSeq(P[1].seq, 0, P[1].len)}; x.other = true; x.otherArg = 1; x.otherPieces = {pSeq(e.seq, 0, e.n)}; x.comp = P[1].comp;
        bool prop = ci.aflags & 4; x.tok = prop ? P[1].tok : e.tok;
        if (!prop && e.tok >= 0 && !P[1].selfAlias) s.facts["tokeq " + std::to_string(std::min(e.tok, P[1].tok)) + " " + std::to_string(std::max(e.tok, P[1].tok))] = true;
        return true;
    }
    if ((m == "erase_if" || m == "erase") && np == 2 && P[0].k == P_CL)
    {
        x.ret = Expect::Int; x.contents = true;
        if (m == "erase_if" && P[1].k != P_PRED) return false;
        if (e.smallN >= 0)
        {
            int cnt = 0; for (int i = 0; i < e.smallN; ++i) if (e.mask >> i & 1) ++cnt; else x.pieces.push_back(pSeq(e.seq, i, 1));
            x.retv = Lin(cnt); return true;
        }
        if (e.v.k == View::Null) { x.retv = 0; return true; }
        if (ci.keyed) { x.contents = false; x.ret = Expect::None; x.sortedOnly = true; return true; }
        std::string pd = m == "erase_if" ? "p" + std::to_string(P[1].tok) : "= " + P[1].term->str();
        auto f = filterSeq(s, "S" + std::to_string(e.seq), pd, e.n, &gSeqs[e.seq]);
        x.pieces = {pSeq(f.first, 0, f.second)}; x.retv = e.n - f.second; return true;
    }
    return false;
}
