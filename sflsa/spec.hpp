// Specifications: entry states, expected results and exit checks of the public members.
#pragma once
#include "interp.hpp"

struct CInfo
{
    clang::QualType type; const clang::ClassTemplateSpecializationDecl* rd = nullptr;
    std::string name, cfg;
    bool stat = false, small = false, seg = false, de = false, compact = false, seq = false, sorted = false, unord = false, map = false, multi = false;
    long N = -1; clang::QualType T, key, mapped; bool keyed = false; bool hasAlloc = false; int aflags = 0; bool strongElem = false;
    const clang::CXXRecordDecl* ultra = nullptr;
};
bool makeCInfo(Interp& I, clang::QualType t, CInfo& ci);

struct View { enum K { Null, Heap, Inl } k = Null; int reg = 0; Lin f, l, cap; int tab = -1; Lin b; Lin n() const { return l - f; } }; // segmented: reg the segments, tab the table, b start of storage

enum PK { P_SIZE, P_POS, P_VCL, P_VRR, P_VL, P_RANGE1, P_RANGE2, P_ILIST, P_CCL, P_CRR, P_CL, P_ALLOC, P_COMP, P_PRED, P_ARG, P_TAG, P_KEY, P_MAPPED, P_OTHER };
struct PA
{
    PK k; bool rval = false; Lin v; TermP term; int seq = -1; Lin len; int obj = -1; int tok = -1; LV lv; bool selfAlias = false, singlePass = false, moveIt = false; int comp = -1;
    View view; bool heapShape = false; Lin aliasIdx;
};
struct Entry
{
    State s; int self = -1; LV selfLV; std::vector<LV> args; std::vector<PA> pa; std::string desc; bool alias = false;
    View v; int seq = -1; Lin n; int tok = -1; int comp = -1; bool single = false; bool ctor = false; bool modified = false;
    bool hasKey = false; CmpFact fact; TermP key, ins; int smallN = -1, mask = 0; bool cmpKnown = false, cmpRes = false; int present = -1; int itRes = -1;   // keyed containers: key argument, value to insert, 1 present / 0 absent
};
struct Expect
{
    bool contents = false; std::vector<Interp::Piece> pieces;
    bool flex = false; TermP flexTerm; Lin flexN;   // additional elements on either side of the old ones
    bool other = false; std::vector<Interp::Piece> otherPieces; int otherArg = -1;
    enum R { None, Pos, Ref, Self, Int, Bool, Tok, ElemPtr, PosBool, PosPos, OneOf } ret = None; Lin retv, retv2; bool boolv = false; std::vector<int> retPath;
    bool anyPos = false;          // ins is inserted at a position between fact.L and fact.U
    bool atRet = false;           // unordered: the additional element is the one designated by the result
    bool suffix = false; Lin sufFrom; // unordered erase: the elements from the result on are those after sufFrom, in any order
    int comp = -1;                // expected comparator of *this afterwards
    bool sortedOnly = false;      // only validity (order) is specified
    int tok = -1;                 // expected allocator of *this afterwards
    bool constOp = false;         // nothing may change
    bool strong = false;          // an exception leaves everything as it was
    bool noAlloc = false;         // no allocation, elements stay where they are
    Lin throwRange; bool mayRange = false; // out_of_range iff throwRange >= 0
    bool lengthKnown = false;     // length_error only if total > max
};

class Spec
{
public:
    Interp& I; clang::ASTContext& C; CInfo ci;
    explicit Spec(Interp& i, const CInfo& c) : I(i), C(i.C), ci(c) { I.spec = this; I.aware = c.hasAlloc; gSegN = c.seg ? (int)c.N : 0; gIntegers = gSegN > 1; }
    unsigned long long nEntries = 0, nExits = 0, nExcExits = 0, nNoSpec = 0, nCompared = 0, nNegEntries = 0;
    std::set<std::string> unspecified;
    void runMethod(const clang::CXXMethodDecl* md);
    void runFree(const clang::FunctionDecl* fd);
    std::vector<Entry> negEntries(const clang::FunctionDecl* fd, const Entry& e);
    void runNeg(const clang::FunctionDecl* fd, Entry e);
    std::string methodName(const clang::FunctionDecl* fd);
    bool freeFn = false;
    int only = -1;
    std::string onlyEntry;
    bool debug = false;

    // entry construction
    State baseState();
    int makeContainer(State& s, const std::string& nm, int shape, View& v, int& seq, Lin& n, int& tok, int& comp, bool uninit);
    void fillContainer(State& s, int obj, const std::string& nm, int shape, int tk, int cp, View& v, int& seq, Lin& n);
    std::vector<int> shapes() const;
    const char* shapeName(int sh) const;
    bool addParam(std::vector<Entry>& es, const clang::FunctionDecl* fd, unsigned i, const std::vector<clang::QualType>& tys, bool& consumedTwo);
    PK classify(clang::QualType t) const;
    bool sameType(clang::QualType a, clang::QualType b) const { return C.hasSameUnqualifiedType(a.getNonReferenceType(), b.getNonReferenceType()); }
    int segIter(const State& s, int obj) const;                       // the segmented_iterator inside an iterator object
    Lin cellOff(State& s, int reg, const Lin& dense) { return I.segEnc(reg, s, dense); }
    bool denseLV(State& s, LV& l);                                   // number of the cell instead of the encoded pointer
    bool viewSeg(State& s, int obj, View& v, const std::string& what);
    void setIter(State& s, int obj, Val p);
    bool getIter(State& s, int obj, Val& p);
    // views
    bool view(State& s, int obj, View& v, const std::string& what, bool inExc);
    bool checkPieces(State& s, const View& v, const std::vector<Interp::Piece>& ps, VK k, const std::string& what, const Lin* at = nullptr);
    bool checkPerm(State& s, const View& v, const std::vector<Interp::Piece>& ps, VK k, const std::string& what, const Lin* at);
    int tokenOf(State& s, int obj, const char* which);
    // specification
    bool expect(const clang::FunctionDecl* fd, Entry& e, Expect& x);
    void runEntry(const clang::FunctionDecl* fd, Entry e);
    void checkExit(const clang::FunctionDecl* fd, const Entry& e, const Expect& x, bool haveX, State s, const Val& r, int exc);
    void checkStructure(const clang::FunctionDecl* fd, const Entry& e, const Expect& x, State& s, const View& v, const std::vector<std::pair<int, View>>& others);
    bool expectFree(const clang::FunctionDecl* fd, Entry& e, Expect& x);
    bool keyArgs(const clang::FunctionDecl* fd, Entry& e);
    bool expectKeyed(const clang::FunctionDecl* fd, Entry& e, Expect& x);
    bool checkOrder(State& s, const View& v, int comp, const std::string& what, bool rep = true);
    void checkLeaks(State& s, const std::vector<View>& vs);
};
extern bool gNeg;
