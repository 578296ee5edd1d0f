#pragma once
#include "state.hpp"
#include "clang/AST/Mangle.h"
#include "clang/Basic/SourceManager.h"

struct NotSummarised { std::string what; };
struct Unsupported { std::string what; };
extern bool gNoExc;                // build without exceptions: errors end the program
extern volatile int gOutOfTime;    // set when the time allotted to the current member is used up

// kinds of violations
enum VK {
    V_OOB,          // storage access outside a block / null / freed block
    V_LIFE,         // typestate of an element: construct over live, use or destroy of raw
    V_LEAK_ELEM, V_LEAK_MEM, V_DEALLOC, V_UNINIT,
    V_INV,          // class invariant broken at exit
    V_STRONG,       // strong guarantee broken
    V_SEQ,          // contents / returned position wrong
    V_ALIAS,        // wrong result for an aliased argument
    V_LENGTH,       // length_error / max_size discipline
    V_RANGE,        // out_of_range discipline
    V_ASSERT,       // assertion fails under the preconditions
    V_NOASSERT,     // violated precondition not asserted
    V_NOEXCEPT,     // exception escapes noexcept function
    V_PROP,         // allocator / comparator propagation
    V_ALLOC,        // allocation where none is allowed
    V_SORTED, V_UNIQUE, V_LOOKUP,
    V_STABLE,       // elements moved needlessly / references invalidated
    V_CONST,        // const member writes
    V_OBS,          // observers disagree with contents
    V_CMPOP,        // comparison operators
    V_TERMINATE,    // std::terminate / abort
    V_FORWARD,      // arguments not forwarded properly
    V_ITER,         // range consumed wrongly
    V_GROW,
    V_OVERLAP,
    V_THROW,        // exception with no cause
    V_COUNT
};
extern const char* vkName[];

struct Report
{
    VK kind; std::string method, where, msg, entry; bool definite; bool exceptional; bool alias; bool gen = false;
    std::vector<std::string> path; std::string model; std::string state;
};

// a block that a loop replaces: existentially quantified block (and size) of a loop family
struct Exist { int reg = -1; int sym = -1; Lin init; };

struct Flow
{
    SS next, brk, cont;
    RS ret;
};

class Interp
{
public:
    clang::ASTContext& C;
    explicit Interp(clang::ASTContext& c);

    // --- driver facing
    std::vector<Report> reports;
    std::vector<std::pair<std::string, std::string>> undecided; // (method+entry, reason)
    std::string curMethod, curEntry; bool curAlias = false; bool allowAssert = false; std::function<void(State&)> onAssert; bool viaTraits = false, aware = false; int viaTok = -1;
    int muted = 0; unsigned long long mutedReports = 0;
    int unroll = 0;                // >0: follow loops exactly for that many iterations (confirmation of reports)
    unsigned long long nStates = 0, nObligations = 0, nLoops = 0, nCalls = 0; 
    std::map<std::string, unsigned> funcsSeen;   // analysed function bodies (spelling location)
    std::map<std::string, std::string> unsupported;
    unsigned long long budget = 0, budgetMax = 4000000;
    int maxszSym = -1;             // symbol for allocator max_size
    bool noThrowUser = false;      // suppress injected user exceptions
    std::vector<Thrown>* sink = nullptr;
    std::vector<Lin>* cmpLog = nullptr;
    int nextId = 1, nextFrame = 1, nextReg = 1, nextTok = 1;
    std::vector<const clang::FunctionDecl*> callStack;
    clang::SourceLocation curLoc;
    std::map<int, std::string> tokNames;
    std::map<int,int> tokDerived; // select_on_container_copy_construction(tok) -> tok
    bool pocca = false, pocma = false, pocs = false;

    // --- helpers
    void report(VK k, const State& s, const std::string& msg, const std::vector<Lin>& extra = {});
    // obligation: e >= 0 must hold; returns true when it does (on failure reports, adds assumption)
    bool require(State& s, const Lin& e, VK k, const std::string& msg);
    std::string locStr(clang::SourceLocation l) const;
    std::string here() const { return locStr(curLoc); }
    std::string dump(const State& s) const;

    // --- type helpers
    bool isElem(clang::QualType t) const;
    bool isTokenClass(const clang::CXXRecordDecl* rd) const;
    const clang::CXXRecordDecl* rec(clang::QualType t) const;

    // --- objects
    int newObj(State& s, clang::QualType t, bool uninit = true);
    int newRegion(State& s, Region::K k, const std::string& name, Lin size, bool live, Content c, clang::QualType ety);
    LV lvOf(State& s, int obj);                    // LV for object (ElemBox -> Cell)
    int fieldObj(const State& s, int obj, const clang::FieldDecl* f) const;
    int baseObj(const State& s, int obj, const clang::CXXRecordDecl* b) const; // -1 if not found
    int fieldByName(const State& s, int obj, const std::string& n) const;      // searches bases too, -1
    void killObj(State& s, int obj);
    Val load(State& s, const LV& lv);
    void store(State& s, const LV& lv, const Val& v);
    void copyObj(State& s, int dst, int src);      // memberwise

    // --- numeric decisions
    void logCmp(const Lin& e) { if (cmpLog) cmpLog->push_back(e); }
    // splits on e>=0
    void splitGe(State&& s, const Lin& e, std::vector<std::pair<State, bool>>& out);
    void splitEq(State&& s, const Lin& d, std::vector<std::pair<State, bool>>& out);

    // --- regions
    void compact(State& s, int reg);
    bool contentEq(const State& s, const Content& a, const Content& b) const;
    bool termEq(const CS& cs, const TermP& a, const TermP& b, int depth = 0) const;
    std::vector<std::pair<State, int>> splitAt(State s, int reg, Lin off, const char* what, bool keep = false);
    void segPos(const State& s, int reg, const Lin& off, Lin& seg, Lin& r) const; // decode a pointer into segments
    bool segLen(State& s, const Val& f, const Val& l, Lin& n);
    Lin ptrDiff(const State& s, int reg, const Lin& a, const Lin& b) const;           // distance in cells
    std::map<std::string, int> segQuot;
    static int segItObj(const State& s, int obj);                                     // segmented_iterator inside an object
    bool segItGet(State& s, int si, Val& p);                                          // its position as a cell number
    void segItSet(State& s, int si, const Val& p);
    Lin segEnc(int reg, State& s, const Lin& dense);                     // pointer to the cell with the given number
    Lin dense(State& s, int reg, const Lin& off, bool range, const char* what, bool* ok = nullptr);
    int segRegion(const State& s, int vseq) const;
    RS loadCell(State s, const LV& lv);
    RS loadR(State s, const LV& lv);
    SS storeR(State s, const LV& lv, const Val& v);
    std::vector<std::pair<State, int>> isolateAt(State s, const LV& lv, const char* what); // isolateCell of a pointer
    bool deadRegion(const State& s, int reg, const char* what);
    std::vector<std::pair<State, int>> isolateCell(State s, int reg, Lin off, const char* what); // index of 1-cell segment
    struct RangeIx { State s; int i, j; };
    std::vector<RangeIx> isolateRange(State s, int reg, Lin lo, Lin hi, const char* what);
    TermP cellTerm(const State& s, int reg, int segIx) const; // content of a one-cell segment as a term
    TermP cellTermAt(const Region& R, int i, const Lin& off) const;
    void setCell(State& s, int reg, int segIx, bool live, TermP t);
    TermP normTerm(const State& s, TermP t) const; // expands snapshot sequences when decidable
    // piecewise comparison of contents: is `a` over [lo,hi) (region coordinates) equal to expected pieces
    struct Piece { Lin len; Content c; bool raw = false; Lin org; };
    bool pieceMismatch(const CS& cs, const State& s, const Content& a, const Lin& lo, const Lin& hi, const Content& b, std::string& why, int depth = 0) const;

    // --- element primitives
    enum Mode { M_Default, M_Copy, M_Move, M_Ctor };
    void checkTraits(const State& s, int reg, const char* what);
    SS elemConstruct(State s, const LV& dst, TermP term, bool mayThrow, const char* what);
    RS elemReadTerm(State s, const LV& src, const char* what);   // Res.v unused; term returned via lastTerm
    struct TS { State s; TermP t; };
    std::vector<TS> readTerm(State s, const LV& src, const char* what);
    SS markMoved(State s, const LV& src);
    SS elemAssign(State s, const LV& dst, TermP t, const char* what);
    SS elemDestroy(State s, const LV& lv, const char* what);
    void throwUser(const State& s, int kind, const std::string& what);
    bool mayThrow(const clang::FunctionDecl* fd) const;
    bool typeOpThrows(clang::QualType t, int op); // 0 default,1 copy,2 move,3 copy=,4 move=

    // --- evaluation
    RS eval(State s, const clang::Expr* e);
    RS evalRV(State s, const clang::Expr* e);      // loads glvalues
    SS evalDiscard(State s, const clang::Expr* e);
    SS initInto(State s, const LV& target, clang::QualType t, const clang::Expr* e);
    void evalCond(State s, const clang::Expr* e, std::vector<std::pair<State, bool>>& out);
    void truth(State s, const Val& v, std::vector<std::pair<State, bool>>& out);
    Flow exec(State s, const clang::Stmt* st);
    Flow execSeq(SS in, const clang::Stmt* st);
    Flow execLoop(State s, const clang::Expr* cond, const clang::Expr* inc, const clang::Stmt* body, bool doWhile, const clang::VarDecl* cv);
    struct Arg { bool isRef; LV lv; Val v; };
    RS callFn(State s, const clang::FunctionDecl* fd, const LV* self, std::vector<LV> argLVs, const LV* ret);
    RS callWithArgs(State s, const clang::FunctionDecl* fd, const LV* self, const std::vector<const clang::Expr*>& args, const LV* ret);
    RS runBody(State s, const clang::FunctionDecl* fd, const LV* self, const std::vector<LV>& argLVs, int frame, const LV* ret);
    SS runCtor(State s, const clang::CXXConstructorDecl* cd, const LV& self, std::vector<LV> argLVs);
    std::vector<int> tupleLeafs(const State& s, int obj) const;
    SS construct(State s, const clang::CXXConstructExpr* ce, const LV& target);
    SS destroyObj(State s, const LV& lv, clang::QualType t);
    SS popScope(State s, size_t depth);            // destroys locals of scopes beyond depth
    RS evalCall(State s, const clang::CallExpr* ce, const LV* ret);
    bool intrinsic(State s, const clang::FunctionDecl* fd, const clang::Expr* callExpr, const LV* self, const std::vector<const clang::Expr*>& args, const LV* ret, RS& out);
    std::string qname(const clang::FunctionDecl* fd);
    bool totalOrder = false; // std::less: defined for pointers into different arrays
    RS cmpPtr(State s, const Val& a, const Val& b, clang::BinaryOperatorKind op);
    RS arith(State s, const Val& a, const Val& b, clang::BinaryOperatorKind op, clang::QualType t);
    RS wrapTo(State s, Lin e, clang::QualType t);
    RS evalArgsTo(State s, const clang::FunctionDecl* fd, const std::vector<const clang::Expr*>& args, std::vector<LV>& dummy);
    struct SA { State s; std::vector<LV> a; std::vector<int> temps; };
    std::vector<SA> bindArgs(State s, const clang::FunctionDecl* fd, const std::vector<const clang::Expr*>& args, unsigned skip = 0);
    TermP argTermPeek(State& s, const LV& lv);
    struct TermArgs { State s; std::vector<TermP> t; };
    std::vector<TermArgs> argTerms(State s, const std::vector<LV>& lvs, const std::vector<bool>& rval, const std::vector<clang::QualType>& tys);
    SS constructElemFrom(State s, const LV& dst, clang::QualType ety, const std::vector<LV>& args, const std::vector<bool>& rval, const std::vector<clang::QualType>& tys, const clang::CXXConstructorDecl* cd);

    // algorithms (contracts of the standard library)
    RS algCopy(State s, const Val& f, const Val& l, const Val& d, bool move, bool backward, clang::QualType ety);
    RS algCopySeg(State s, const Val& f, bool fs, const Val& l, bool ls, const Val& d, bool ds, bool move, bool backward, clang::QualType ety);
    RS algCopyIn(State s, const Val& f, const Val& l, const Val& d, bool move, bool backward, clang::QualType ety);
    RS algFillIn(State s, const Val& f, const Val& l, const LV& value, clang::QualType ety);
    RS algFill(State s, const Val& f, const Val& l, const LV& value, clang::QualType ety);
    // keys
    bool ownKey(const State& s, const TermP& t, int tok, int& seq, Lin& i) const;
    CmpFact cmpFact(State& s, int tok, TermP key, int seq);
    CmpFact eqFact(State& s, int tok, TermP key, int seq);
    void lessThan(State s, int tok, TermP a, TermP b, std::vector<std::pair<State, bool>>& out);
    void keyEqual(State s, int tok, TermP a, TermP b, std::vector<std::pair<State, bool>>& out);
    bool callToken(State& s, const clang::FunctionDecl* fd, const LV& self, const std::vector<LV>& a, RS& out);
    bool searchAlg(State s, const clang::FunctionDecl* fd, const std::vector<const clang::Expr*>& args, const LV* ret, RS& out);
    bool rangeAlg(State s, const clang::FunctionDecl* fd, const std::vector<const clang::Expr*>& args, const LV* ret, RS& out);
    // --- frames
    int curFrame = 0; LV curThis;
    clang::QualType rvalTy;
    std::map<const clang::Expr*, std::pair<bool, I128>> constCache;
    std::map<const clang::FunctionDecl*, std::string> qnames;
    const LV* retTarget = nullptr; bool retByRef = false;
    unsigned long long qLimit = ~0ull;
    bool tick() { return ++budget > budgetMax || linStats.queries > qLimit || gOutOfTime; }
    // loops
    class Spec* spec = nullptr;
    bool usesPublicMembers(const clang::Stmt* body, const clang::Expr* inc) const;
    Flow execLoopInv(State s, const clang::Expr* cond, const clang::Expr* inc, const clang::Stmt* body);
    Flow execLoop1(State s, const clang::Expr* cond, const clang::Expr* inc, const clang::Stmt* body, bool doWhile, const clang::VarDecl* cv);
    bool generalise(const State& a, const State& b, int k, State& out, std::string& why, std::vector<Exist>& ex, int choice, int& nAmb);
    bool instantiate(const State& n, const State& g, const std::vector<Exist>& ex, std::map<int, int>& m) const;
    void renameRegion(State& s, int from, int to) const;
    bool snapshot(State& s);
    bool subsumed(const State& n, const State& g, int k, const Lin& kval, std::string& why, const std::vector<Exist>& ex) const;
    State substSym(const State& g, int k, const Lin& v) const;
    void dedupe(SS& v);
    void dedupe(RS& v);
    std::string fingerprint(const State& s) const;
};
