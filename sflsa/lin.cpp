#include "lin.hpp"
#include <numeric>
#include <cassert>
#include <sstream>

std::vector<std::string> symNames;
LinStats linStats;

std::set<int> loopSyms;
int newSym(const std::string& name)
{
    symNames.push_back(name);
    return (int)symNames.size() - 1;
}

std::string Lin::str() const
{
    std::string s;
    for (auto& p : t)
    {
        if (p.second == 1) s += (s.empty() ? "" : "+") + symNames[p.first];
        else if (p.second == -1) s += "-" + symNames[p.first];
        else s += (p.second > 0 && !s.empty() ? "+" : "") + std::to_string(p.second) + "*" + symNames[p.first];
    }
    if (s.empty()) return i128s(c);
    if (c > 0) s += "+" + i128s(c); else if (c < 0) s += i128s(c);
    return s;
}

static I128 fdiv(I128 a, I128 b) { I128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }

static void normalise(Lin& e)
{
    if (e.t.empty()) return;
    i64 g = 0;
    for (auto& p : e.t) g = std::gcd(g, p.second < 0 ? -p.second : p.second);
    if (g > 1) { for (auto& p : e.t) p.second /= g; e.c = fdiv(e.c, g); }
}

void CS::add(Lin e)
{
    if (unsat) return;
    normalise(e);
    if (e.t.empty()) { if (e.c < 0) unsat = true; return; }
    // keep only the strongest of parallel constraints
    for (auto& x : ge)
        if (x.t == e.t) { if (e.c < x.c) x.c = e.c; return; }
    ge.push_back(e);
}

// ---- exact rational simplex ----------------------------------------------
namespace {
struct Ovf {};
struct Q
{
    I128 n = 0, d = 1;
    Q() {}
    Q(I128 v) : n(v), d(1) {}
    Q(I128 a, I128 b) : n(a), d(b) { norm(); }
    static I128 gcd(I128 a, I128 b) { if (a < 0) a = -a; while (b) { I128 r = a % b; a = b; b = r; } return a; }
    void norm()
    {
        if (d < 0) { n = -n; d = -d; }
        if (d == 1) return;
        if (n == 0) { d = 1; return; }
        I128 g = gcd(n, d); if (g > 1) { n /= g; d /= g; }
    }
    bool zero() const { return n == 0; }
};
const I128 LIM = (I128)1 << 120;
inline I128 mul(I128 a, I128 b) { I128 r; if (__builtin_mul_overflow(a, b, &r)) throw Ovf(); return r; }
inline I128 add(I128 a, I128 b) { I128 r; if (__builtin_add_overflow(a, b, &r)) throw Ovf(); return r; }
inline Q operator*(const Q& a, const Q& b) { if (a.d == 1 && b.d == 1) return Q(mul(a.n, b.n)); return Q(mul(a.n, b.n), mul(a.d, b.d)); }
inline Q operator+(const Q& a, const Q& b) { if (a.d == b.d) { if (a.d == 1) return Q(add(a.n, b.n)); return Q(add(a.n, b.n), a.d); } return Q(add(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d)); }
inline Q neg(const Q& a) { Q r = a; r.n = -r.n; return r; }
inline Q operator-(const Q& a, const Q& b) { return a + neg(b); }
inline Q inv(const Q& a) { Q r; r.n = a.d; r.d = a.n; r.norm(); return r; }
inline bool less(const Q& a, const Q& b) { if (a.d == b.d) return a.n < b.n; return mul(a.n, b.d) < mul(b.n, a.d); }

// General simplex: variables x_0..x_{n-1} free; rows s_i = a_i.x with s_i >= -c_i.
struct Simplex
{
    int n, m;
    std::vector<std::vector<Q>> T;   // m x n  : basic = sum T * nonbasic
    std::vector<int> basic, nonbasic;// variable ids; 0..n-1 structural, n.. slack
    std::vector<Q> val; std::vector<bool> hasLb; std::vector<Q> lb;
    bool solve(const std::vector<Lin>& rows, const std::vector<int>& syms)
    {
        n = (int)syms.size(); m = (int)rows.size();
        std::unordered_map<int, int> ix; for (int i = 0; i < n; ++i) ix[syms[i]] = i;
        T.assign(m, std::vector<Q>(n)); basic.resize(m); nonbasic.resize(n);
        val.assign(n + m, Q(0)); hasLb.assign(n + m, false); lb.assign(n + m, Q(0));
        for (int j = 0; j < n; ++j) nonbasic[j] = j;
        for (int i = 0; i < m; ++i)
        {
            basic[i] = n + i; hasLb[n + i] = true; lb[n + i] = Q(-rows[i].c);
            for (auto& p : rows[i].t) T[i][ix[p.first]] = Q(p.second);
        }
        int iter = 0;
        while (true)
        {
            if (++iter > 3000) throw Ovf();
            int bi = -1; // smallest basic var violating its bound (Bland)
            for (int i = 0; i < m; ++i)
                if (hasLb[basic[i]] && less(val[basic[i]], lb[basic[i]]))
                    if (bi < 0 || basic[i] < basic[bi]) bi = i;
            if (bi < 0) return true;
            int bj = -1;
            for (int j = 0; j < n; ++j)
            {
                const Q& a = T[bi][j]; if (a.zero()) continue;
                int v = nonbasic[j];
                bool ok = a.n > 0 ? true /* increase v: no upper bounds */ : (!hasLb[v] || less(lb[v], val[v]));
                if (ok && (bj < 0 || v < nonbasic[bj])) bj = j;
            }
            if (bj < 0) return false;
            pivot(bi, bj);
        }
    }
    void pivot(int r, int c)
    {
        int b = basic[r], v = nonbasic[c];
        Q theta = (lb[b] - val[b]) * inv(T[r][c]);
        val[b] = lb[b];
        val[v] = val[v] + theta;
        for (int i = 0; i < m; ++i) if (i != r && !T[i][c].zero()) val[basic[i]] = val[basic[i]] + T[i][c] * theta;
        // row r: b = sum T[r][j] x_j  ->  v = (b - sum_{j!=c} T[r][j] x_j)/T[r][c]
        Q p = inv(T[r][c]);
        for (int j = 0; j < n; ++j) if (j != c) { if (!T[r][j].zero()) T[r][j] = neg(T[r][j] * p); }
        T[r][c] = p;
        for (int i = 0; i < m; ++i) if (i != r && !T[i][c].zero())
        {
            Q k = T[i][c]; T[i][c] = Q(0);
            for (int j = 0; j < n; ++j) if (!T[r][j].zero()) T[i][j] = T[i][j] + k * T[r][j];
        }
        basic[r] = v; nonbasic[c] = b;
    }
};

struct VecHash { size_t operator()(const std::vector<i64>& v) const { size_t h = v.size(); for (i64 x : v) h = h * 1000003u ^ (size_t)x ^ (h >> 29); return h; } };
thread_local std::unordered_map<std::vector<i64>, bool, VecHash> cache;
}

bool gIntegers = false;
static bool fractional(const Simplex& sx, int n) { for (int i = 0; i < n; ++i) if (sx.val[i].d != 1) return true; return false; }
// Eliminates the equalities among the rows (pairs e >= 0, -e >= 0) over the integers, so that the remaining system has an
// integer solution exactly when the given one has. Returns false when an equality has no integer solution.
static bool eliminateEqualities(std::vector<Lin>& rows, std::set<int>* fresh = nullptr)
{
    int nextSym = 1 << 28;
    for (int guard = 0; guard < 200; ++guard)
    {
        for (auto& r : rows) { normalise(r); if (r.t.empty() && r.c < 0) return false; }
        std::set<Lin> have(rows.begin(), rows.end());
        Lin eq; int var = -1; i64 best = 0;
        for (auto& r : rows)
        {
            if (r.t.empty()) continue;
            // the opposite row with the same constant
            bool is = have.count(-r) > 0;
            if (!is)
            {
                // c was rounded down by the normalisation of one side: then the pair is infeasible and the simplex sees it
                continue;
            }
            for (auto& p : r.t) { i64 a = p.second < 0 ? -p.second : p.second; if (var < 0 || a < best) { best = a; var = p.first; eq = r; } }
        }
        if (var < 0) return true;
        i64 a = eq.coef(var);
        if (a < 0) { eq = -eq; a = -a; }
        // a*var + rest + c == 0
        Lin rep;
        if (a == 1) { rep = Lin::sym(var) - eq; }
        else
        {
            // var = t - sum floor(a_i/a) x_i - floor(c/a)
            int t = nextSym++; if (fresh) fresh->insert(t);
            rep = Lin::sym(t);
            for (auto& p : eq.t) if (p.first != var) rep = rep - Lin::sym(p.first) * (i64)fdiv(p.second, a);
            rep = rep - Lin(fdiv(eq.c, a));
        }
        std::vector<Lin> out;
        for (auto& r : rows)
        {
            i64 k = r.coef(var);
            Lin e = r; if (k) e = r - Lin::sym(var) * k + rep * k;
            if (e.t.empty() && e.c >= 0) continue;
            for (auto& p : e.t) if (std::abs(p.second) > ((i64)1 << 40)) return true;
            // an equality whose coefficients have a common divisor that does not divide the constant
            out.push_back(e);
        }
        std::set<Lin> hv(out.begin(), out.end());
        for (auto& r : out) if (!r.t.empty() && hv.count(-r))
        {
            i64 g = 0; for (auto& p : r.t) g = std::__gcd(g, (i64)std::abs(p.second));
            if (g > 1 && r.c % g != 0) return false;
        }
        rows = out;
    }
    return true;
}
static void symbolsOf(const std::vector<Lin>& rows, std::vector<int>& sv)
{
    std::set<int> s; for (auto& r : rows) for (auto& p : r.t) s.insert(p.first);
    sv.assign(s.begin(), s.end());
}
// Integer reasoning for a system that is satisfiable over the rationals at a fractional point: pairs of rows whose
// combination eliminates a symbol and leaves coefficients with a common divisor give tighter rows; then a few branches.
static bool branch(std::vector<Lin> rows, const std::vector<int>& sv, int& nodes)
{
    if (--nodes < 0) return true;
    Simplex sx; if (!sx.solve(rows, sv)) return false;
    for (size_t i = 0; i < sv.size(); ++i) if (sx.val[i].d != 1)
    {
        I128 fl = fdiv(sx.val[i].n, sx.val[i].d); Lin s = Lin::sym(sv[i]);
        auto a = rows; a.push_back(Lin(fl) - s); if (branch(std::move(a), sv, nodes)) return true;
        rows.push_back(s - Lin(fl) - Lin(1)); return branch(std::move(rows), sv, nodes);
    }
    return true;
}
static bool integerFeasible(std::vector<Lin> rows, std::vector<int> sv)
{
    if (!eliminateEqualities(rows)) return false;
    symbolsOf(rows, sv);
    if (rows.empty()) return true;
    { Simplex sx; if (!sx.solve(rows, sv)) return false; if (!fractional(sx, (int)sv.size())) return true; }
    std::set<Lin> have(rows.begin(), rows.end());
    for (int round = 0; round < 3; ++round)
    {
        std::vector<Lin> cuts;
        for (size_t i = 0; i < rows.size() && cuts.size() < 60; ++i) for (size_t j = i + 1; j < rows.size() && cuts.size() < 60; ++j)
            for (auto& p : rows[i].t)
            {
                i64 b = rows[j].coef(p.first), a = p.second;
                if (!b || (a > 0) == (b > 0) || std::abs(a) > 64 || std::abs(b) > 64) continue;
                Lin e = rows[i] * std::abs(b) + rows[j] * std::abs(a);
                i64 g = 0; for (auto& q : e.t) g = std::__gcd(g, (i64)std::abs(q.second));
                if (g < 2 || e.c % g == 0) continue;
                normalise(e);
                if (have.insert(e).second) cuts.push_back(e);
            }
        if (cuts.empty()) break;
        rows.insert(rows.end(), cuts.begin(), cuts.end());
        Simplex sx; if (!sx.solve(rows, sv)) return false;
        if (!fractional(sx, (int)sv.size())) return true;
    }
    int nodes = 24; return branch(std::move(rows), sv, nodes);
}

static bool componentFeasible(const std::vector<Lin>& base, const std::vector<Lin>& extra, bool& decided)
{
    decided = true;
    // cone of influence of extra's symbols
    std::set<int> syms; for (auto& e : extra) for (auto& p : e.t) syms.insert(p.first);
    std::vector<char> used(base.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < base.size(); ++i)
        {
            if (used[i]) continue;
            bool hit = false; for (auto& p : base[i].t) if (syms.count(p.first)) { hit = true; break; }
            if (hit) { used[i] = 1; ch = true; for (auto& p : base[i].t) syms.insert(p.first); }
        }
    }
    std::vector<Lin> rows(extra.begin(), extra.end());
    for (size_t i = 0; i < base.size(); ++i) if (used[i]) rows.push_back(base[i]);
    std::sort(rows.begin(), rows.end());
    std::vector<int> sv(syms.begin(), syms.end());
    // cache key with symbols renamed by rank
    std::vector<i64> key; key.reserve(rows.size() * 6);
    std::unordered_map<int, int> rank; for (size_t i = 0; i < sv.size(); ++i) rank[sv[i]] = (int)i;
    for (auto& r : rows) { for (auto& p : r.t) { key.push_back(rank[p.first]); key.push_back(p.second); } key.push_back(-1); key.push_back((i64)(r.c >> 64)); key.push_back((i64)r.c); }
    auto it = cache.find(key);
    if (it != cache.end()) { ++linStats.cacheHits; return it->second; }
    bool res;
    ++linStats.simplex;
    try { Simplex sx; res = sx.solve(rows, sv); if (res && gIntegers && fractional(sx, (int)sv.size())) res = integerFeasible(rows, sv); }
    catch (Ovf&) { ++linStats.overflow; res = true; decided = false; }
    if (cache.size() > 3000000) cache.clear();
    cache[key] = res;
    return res;
}

bool CS::feasible2(const std::vector<Lin>& es0) const
{
    if (unsat) return false;
    ++linStats.queries;
    std::vector<Lin> es;
    for (auto e : es0)
    {
        normalise(e);
        if (e.t.empty()) { if (e.c < 0) return false; continue; }
        bool implied = false;
        for (auto& x : ge)
        {
            if (x.t.size() != e.t.size()) continue;
            if (x.t == e.t) { if (x.c <= e.c) implied = true; continue; }
            bool opp = true; for (size_t i = 0; i < x.t.size(); ++i) if (x.t[i].first != e.t[i].first || x.t[i].second != -e.t[i].second) { opp = false; break; }
            if (opp && x.c + e.c < 0) return false;
        }
        if (!implied) es.push_back(e);
    }
    if (es.empty()) { bool d; return !es0.empty() || componentFeasible({}, ge, d); }
    bool d; return componentFeasible(ge, es, d);
}
bool CS::feasible(const Lin& e) const { return feasible2({e}); }
bool CS::entails(const Lin& e) const
{
    if (unsat) return true;
    if (e.isConst()) return e.c >= 0;
    return !feasible(-e - Lin(1));
}

std::string CS::model(const std::vector<Lin>& es, const std::vector<int>& syms0) const
{
    std::vector<Lin> rows = ge; rows.insert(rows.end(), es.begin(), es.end());
    std::set<int> syms(syms0.begin(), syms0.end()); for (auto& r : rows) for (auto& p : r.t) syms.insert(p.first);
    std::vector<int> sv(syms.begin(), syms.end());
    try
    {
        Simplex sx; if (!sx.solve(rows, sv)) return "(none)";
        std::string s;
        for (size_t i = 0; i < sv.size(); ++i)
        {
            Q v = sx.val[i];
            s += (s.empty() ? "" : ", ") + symNames[sv[i]] + "=" + i128s(v.n) + (v.d != 1 ? "/" + i128s(v.d) : "");
        }
        return s;
    }
    catch (Ovf&) { return "(overflow)"; }
}

static int intSearch(std::vector<Lin> rows, const std::vector<int>& sv, std::map<int, I128>& out, int& nodes)
{
    if (--nodes < 0) return -1;
    for (auto& r : rows) if (r.t.empty() && r.c < 0) return 0;
    rows.erase(std::remove_if(rows.begin(), rows.end(), [](const Lin& l) { return l.t.empty(); }), rows.end());
    Simplex sx; bool ok;
    try { ok = sx.solve(rows, sv); } catch (Ovf&) { return -1; }
    if (!ok) return 0;
    for (size_t i = 0; i < sv.size(); ++i)
        if (sx.val[i].d != 1)
        {
            I128 fl = fdiv(sx.val[i].n, sx.val[i].d);
            Lin s = Lin::sym(sv[i]);
            auto a = rows; a.push_back(Lin(fl) - s);
            int r1 = intSearch(a, sv, out, nodes); if (r1 == 1) return 1;
            auto b = rows; b.push_back(s - Lin(fl) - Lin(1));
            int r2 = intSearch(b, sv, out, nodes); if (r2 == 1) return 1;
            return r1 == 0 && r2 == 0 ? 0 : -1;
        }
    for (size_t i = 0; i < sv.size(); ++i) out[sv[i]] = sx.val[i].n;
    return 1;
}
int CS::intModel(const std::vector<Lin>& es, std::map<int, I128>& out, int nodes) const
{
    if (unsat) return 0;
    std::vector<Lin> rows = ge;
    for (auto e : es) { normalise(e); rows.push_back(e); }
    {   // decided without the branches when the equalities have no integer solution
        std::vector<Lin> r2 = rows, r3; std::vector<int> s2;
        bool ok = eliminateEqualities(r2);
        if (!ok) return 0;
        symbolsOf(r2, s2); for (auto& r : r2) if (!r.t.empty()) r3.push_back(r);
        try { if (!r3.empty() && !integerFeasible(r3, s2)) return 0; } catch (Ovf&) {}
    }
    std::set<int> syms; for (auto& r : rows) for (auto& p : r.t) syms.insert(p.first);
    std::vector<int> sv(syms.begin(), syms.end());
    return intSearch(rows, sv, out, nodes);
}
