// Linear integer expressions and conjunctions of linear inequalities (the numeric relational domain).
#pragma once
#include <vector>
#include <string>
#include <algorithm>
#include <cstdint>
#include <unordered_map>
#include <map>
#include <set>

typedef __int128 I128;
typedef long long i64;

inline std::string i128s(I128 v)
{
    if (v == 0) return "0";
    bool neg = v < 0; std::string s;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    while (u) { s.push_back('0' + (int)(u % 10)); u /= 10; }
    if (neg) s.push_back('-');
    std::reverse(s.begin(), s.end());
    return s;
}

struct Lin
{
    std::vector<std::pair<int, i64>> t; // sorted by symbol
    I128 c = 0;
    Lin() {}
    Lin(int v) : c(v) {}
    Lin(long v) : c(v) {}
    Lin(long long v) : c(v) {}
    Lin(I128 v) : c(v) {}
    static Lin sym(int s) { Lin l; l.t.push_back({s, 1}); return l; }
    bool isConst() const { return t.empty(); }
    i64 coef(int s) const { for (auto& p : t) if (p.first == s) return p.second; return 0; }
    bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
    bool operator!=(const Lin& o) const { return !(*this == o); }
    bool operator<(const Lin& o) const { if (t != o.t) return t < o.t; return c < o.c; }
    Lin addScaled(const Lin& o, i64 k) const
    {
        Lin r; r.c = c + o.c * k;
        size_t i = 0, j = 0;
        r.t.reserve(t.size() + o.t.size());
        while (i < t.size() || j < o.t.size())
        {
            if (j == o.t.size() || (i < t.size() && t[i].first < o.t[j].first)) r.t.push_back(t[i++]);
            else if (i == t.size() || o.t[j].first < t[i].first) { if (k) r.t.push_back({o.t[j].first, o.t[j].second * k}); ++j; }
            else { i64 v = t[i].second + o.t[j].second * k; if (v) r.t.push_back({t[i].first, v}); ++i; ++j; }
        }
        return r;
    }
    Lin operator+(const Lin& o) const { return addScaled(o, 1); }
    Lin operator-(const Lin& o) const { return addScaled(o, -1); }
    Lin operator-() const { return Lin(0).addScaled(*this, -1); }
    Lin operator*(i64 k) const { return Lin(0).addScaled(*this, k); }
    Lin subst(int s, const Lin& e) const
    {
        i64 k = coef(s); if (!k) return *this;
        Lin r = *this; r.t.erase(std::find_if(r.t.begin(), r.t.end(), [&](auto& p) { return p.first == s; }));
        return r.addScaled(e, k);
    }
    std::string str() const;
};

extern std::vector<std::string> symNames;
int newSym(const std::string& name);
extern std::set<int> loopSyms;         // symbols standing for what loops leave behind
inline int newLoopSym(const std::string& n) { int k = newSym(n); loopSyms.insert(k); return k; }
inline bool fromLoop(const Lin& l) { for (auto& p : l.t) if (loopSyms.count(p.first)) return true; return false; }

// Conjunction of constraints  e >= 0 , all symbols integers.
struct CS
{
    std::vector<Lin> ge;
    bool unsat = false;
    void add(Lin e);                 // e >= 0
    void addEq(const Lin& a, const Lin& b) { add(a - b); add(b - a); }
    bool entails(const Lin& e) const;   // cs |= e >= 0
    bool entailsEq(const Lin& a, const Lin& b) const { if (a == b) return true; Lin d = a - b; if (d.isConst()) return unsat; return entails(d) && entails(-d); }
    bool feasible(const Lin& e) const;  // cs and e >= 0 satisfiable (rationally, with integer tightening)
    bool feasible2(const std::vector<Lin>& es) const;
    // integer satisfiability of cs and es: 1 yes (assignment in out), 0 no, -1 not decided within the node limit
    int intModel(const std::vector<Lin>& es, std::map<int, I128>& out, int nodes = 300) const;
    // a satisfying rational assignment (for diagnostics)
    std::string model(const std::vector<Lin>& es, const std::vector<int>& syms) const;
};

extern bool gIntegers;              // decide linear systems over the integers as far as cheap
struct LinStats { unsigned long long queries = 0, cacheHits = 0, simplex = 0, overflow = 0; };
extern LinStats linStats;
