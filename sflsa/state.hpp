// Abstract states: symbolic object graph + segmented storage regions + linear facts.
#pragma once
#include "lin.hpp"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtCXX.h"
#include <memory>
#include <functional>

// ---- values of elements ----------------------------------------------------
struct Term;
typedef std::shared_ptr<const Term> TermP;
struct Term
{
    enum K { Ext, Elem, Ctor, Default, Pair, Proj, Moved, Unk } k;
    int id = 0;            // Ext: value id / Elem: sequence id / Proj: index / Unk: unique id
    Lin idx;               // Elem: index in the sequence
    std::vector<TermP> sub;
    std::string str() const;
};
TermP mkTerm(Term::K k, int id = 0, Lin idx = 0, std::vector<TermP> sub = {});
extern int gUnk;
inline TermP tUnk() { return mkTerm(Term::Unk, ++gUnk); }
inline TermP tMoved() { return mkTerm(Term::Moved); }
inline TermP tElem(int seq, const Lin& i) { return mkTerm(Term::Elem, seq, i); }
inline TermP tExt(int id) { return mkTerm(Term::Ext, id); }
TermP tProj(int i, TermP t);
TermP tPair(TermP a, TermP b);

struct Content
{
    enum K { Seq, Val, Unk } k = Unk;
    int seq = 0; Lin shift;   // Seq: cell i holds element i+shift of sequence seq
    TermP term;               // Val: every cell holds term
    static Content unk() { return Content(); }
    static Content ofSeq(int s, Lin sh) { Content c; c.k = Seq; c.seq = s; c.shift = sh; return c; }
    static Content val(TermP t) { Content c; c.k = Val; c.term = t; return c; }
    std::string str() const;
};
struct Seg { Lin lo; bool live = false; Content c; bool freed = false; }; // freed: (part of) a segment that is not allocated

struct LV
{
    enum K { None, Obj, Cell } k = None;
    int obj = 0;              // Obj
    int reg = 0; Lin off;     // Cell
    std::vector<int> path;    // projection inside an opaque pair element
    static LV ofObj(int o) { LV l; l.k = Obj; l.obj = o; return l; }
    static LV cell(int r, Lin o) { LV l; l.k = Cell; l.reg = r; l.off = o; return l; }
    std::string str() const;
};

struct Val
{
    enum K { Void, Uninit, Unk, Nondet, Int, Ptr, Ref, Tok, Fn } k = Void;
    Lin i;           // Int
    LV lv;           // Ptr target / Ref target
    int tok = 0;     // Tok identity
    const void* fn = nullptr;
    static Val unk() { Val v; v.k = Unk; return v; }
    static Val uninit() { Val v; v.k = Uninit; return v; }
    static Val nondet() { Val v; v.k = Nondet; return v; }
    static Val integer(Lin l) { Val v; v.k = Int; v.i = l; return v; }
    static Val ptr(LV l) { Val v; v.k = Ptr; v.lv = l; return v; }
    static Val ptr(int r, Lin o) { return ptr(LV::cell(r, o)); }
    static Val ref(LV l) { Val v; v.k = Ref; v.lv = l; return v; }
    static Val token(int t) { Val v; v.k = Tok; v.tok = t; return v; }
    bool isPtrCell() const { return k == Ptr && lv.k == LV::Cell; }
    std::string str() const;
};

struct Region
{
    enum K { Null, Heap, Inline, Local, Ext } k = Heap;
    std::string name;
    Lin size;
    int owner = -1;        // allocator token that produced it (Heap)
    bool table = false;    // cells hold pointers, not elements
    bool atomic = false;
    bool array = false;    // member array: internal storage of a container
    // The elements of a segmented container: one region for all the segments of one table. Cells are numbered
    // consecutively (segment j: cells [N*j, N*j+N)); pointers are encoded as (N+1)*j + i, 0 <= i <= N, so that the
    // end of a segment differs from the start of the next one. Segments that are not allocated are `freed` pieces.
    int segN = 0, vseq = -1;
    int vreg = -1;         // table: region of the segments (cells of the table are Seq(vseq of it, shift))
    std::vector<Seg> segs; // at least one; segs[0].lo == 0
    clang::QualType ety;
};

struct ObjN
{
    enum K { Scalar, Record, RefK, ElemBox, Token, Dead } k = Scalar;
    clang::QualType ty;
    const clang::CXXRecordDecl* rd = nullptr;
    std::vector<int> subs;       // Record: bases then fields
    int nbases = 0;
    Val v;                        // Scalar / Token
    LV ref;                       // RefK
    int reg = -1;                 // ElemBox: region id (opaque element or array of them)
};

template <class T> struct CowMap
{
    std::vector<std::pair<int, std::shared_ptr<T>>> v; // sorted by id
    int find(int id) const
    {
        int lo = 0, hi = (int)v.size();
        while (lo < hi) { int m = (lo + hi) / 2; if (v[m].first < id) lo = m + 1; else hi = m; }
        return lo < (int)v.size() && v[lo].first == id ? lo : -1;
    }
    bool has(int id) const { return find(id) >= 0; }
    const T& at(int id) const { int i = find(id); if (i < 0) abort(); return *v[i].second; }
    T& mut(int id) { int i = find(id); if (i < 0) abort(); if (v[i].second.use_count() > 1) v[i].second = std::make_shared<T>(*v[i].second); return *v[i].second; }
    void put(int id, T t)
    {
        auto p = std::make_shared<T>(std::move(t));
        int i = find(id); if (i >= 0) { v[i].second = p; return; }
        auto it = v.end(); while (it != v.begin() && (it - 1)->first > id) --it;
        v.insert(it, {id, p});
    }
    void erase(int id) { int i = find(id); if (i >= 0) v.erase(v.begin() + i); }
};

enum ExcKind { EX_NONE = 0, EX_USER = 1, EX_LENGTH = 2, EX_RANGE = 3, EX_ALLOC = 4 };

struct CmpFact { int tok = 0; TermP key; int seq = 0; Lin L; Lin U; }; // L = #elements less than key, U = #elements not greater

struct EqMask { int tok = 0; TermP key; int seq = 0; int n = 0, mask = 0; }; // few elements: which ones have a key equal to key

struct ScopeEnt { int obj = -1; clang::QualType ty; LV lv; };

struct AllocEv { Lin n; int reg; bool table; };

struct SeqInfo { std::string name; Lin size; int keyTok = -1; bool unique = false, mapLike = false, sorted = false; };
extern std::vector<SeqInfo> gSeqs;
extern int gSegN;                  // elements per segment of the container under analysis (0: not segmented)
void segDec(const Lin& off, Lin& d, Lin& j);
Lin segCode(const Lin& d, const Lin& j);
extern const Lin SEG_LO, SEG_HI;   // ends of a region of segments

struct State
{
    CS cs;
    CowMap<ObjN> objs;
    CowMap<Region> regs;
    std::map<std::pair<int, const clang::ValueDecl*>, LV> env;
    std::vector<std::vector<ScopeEnt>> scopes;
    std::map<int, std::pair<std::vector<Seg>, Lin>> seqDefs;
    std::vector<std::pair<int, int>> handled;  // exceptions being handled (kind, origin)
    std::map<std::string, bool> facts;
    std::vector<AllocEv> allocs;
    std::vector<int> freed;                    // regions deallocated
    unsigned eff = 0;                          // effect bits
    std::set<int> touched;                     // regions whose elements were constructed/assigned/destroyed
    std::set<int> readFrom;
    std::vector<CmpFact> cmp;
    std::vector<EqMask> eqMask;
    int thrown = 0; std::string thrownAt;      // first injected exception on this path
    bool imprecise = false; std::string why;
    std::vector<std::string> path;
    bool asserted = false;
    bool gen = false;                          // went through a generalised loop
    void note(const std::string& s) { if (path.size() < 60) path.push_back(s); }
    void blur(const std::string& w) { if (!imprecise) { imprecise = true; why = w; } }
};
enum Eff { EF_ALLOC = 1, EF_DEALLOC = 2, EF_CTOR = 4, EF_MOVE = 8, EF_COPY = 16, EF_ASSIGN = 32, EF_DESTROY = 64, EF_CMP = 128, EF_WRITE = 256 };

struct Res { State s; Val v; };
typedef std::vector<Res> RS;
typedef std::vector<State> SS;
struct Thrown { State s; int kind; };
