// Propositional instances: enumerated families and a brute-force oracle.
#ifndef MC_CNF_H
#define MC_CNF_H
#include "runner.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

using Lits = std::vector<int>;      // DIMACS literals
struct Cnf {
    int vars = 0;
    std::vector<Lits> clauses;
    std::optional<bool> sat;        // analytic answer, when brute force is not possible
    std::string str() const
    {
        std::stringstream ss;
        ss << "p cnf " << vars << " " << clauses.size() << "\n";
        for (auto& c : clauses) { for (int l : c) { ss << l << " "; } ss << "0\n"; }
        return ss.str();
    }
    std::uint64_t hash() const
    {
        std::uint64_t h = vars;
        for (auto& c : clauses) { h = mix(h, 77); for (int l : c) { h = mix(h, l + 1000); } }
        return h;
    }
};

inline bool brute_sat(Cnf const& f)
{
    if (f.sat) { return *f.sat; }
    for (std::uint32_t a = 0; a < (1u << f.vars); ++a)
    {
        bool ok = true;
        for (auto& c : f.clauses)
        {
            bool s = false;
            for (int l : c) { if (((a >> (std::abs(l) - 1)) & 1) == (l > 0)) { s = true; break; } }
            if (!s) { ok = false; break; }
        }
        if (ok) { return true; }
    }
    return false;
}

// a consequence test by brute force: does f imply the clause c?
inline bool implies(Cnf const& f, Lits const& c)
{
    for (std::uint32_t a = 0; a < (1u << f.vars); ++a)
    {
        auto val = [&](int l) { return ((a >> (std::abs(l) - 1)) & 1) == (l > 0); };
        if (std::any_of(c.begin(), c.end(), val)) { continue; }
        if (std::all_of(f.clauses.begin(), f.clauses.end(), [&](auto& k) { return std::any_of(k.begin(), k.end(), val); })) { return false; }
    }
    return true;
}

struct Cnf_family {
    std::string name;
    std::uint64_t size;
    std::function<Cnf(std::uint64_t)> make;
};

inline std::uint64_t binom(int n, int k)
{
    std::uint64_t r = 1;
    if (k > n) { return 0; }
    for (int i = 1; i <= k; ++i) { r = r * (n - k + i) / i; }
    return r;
}

// idx-th k-subset of {0..n-1} in colexicographic order
inline std::vector<int> subset(int n, int k, std::uint64_t idx)
{
    std::vector<int> r;
    for (int i = k; i > 0; --i)
    {
        int v = i - 1;
        while (v + 1 < n && binom(v + 1, i) <= idx) { ++v; }
        r.push_back(v);
        idx -= binom(v, i);
        n = v;
    }
    std::reverse(r.begin(), r.end());
    return r;
}

// all clauses (no repetition, no tautology) over n variables, non-empty
inline std::vector<Lits> all_clauses(int n)
{
    std::vector<Lits> r;
    int total = 1;
    for (int i = 0; i < n; ++i) { total *= 3; }
    for (int c = 1; c < total; ++c)
    {
        Lits l;
        for (int i = 0, x = c; i < n; ++i, x /= 3)
        {
            if (x % 3 == 1) { l.push_back(i + 1); }
            else if (x % 3 == 2) { l.push_back(-(i + 1)); }
        }
        r.push_back(l);
    }
    std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
    return r;
}

inline std::vector<Lits> full_width(int n, int w)
{
    std::vector<Lits> r;
    for (auto& c : all_clauses(n)) { if ((int)c.size() == w) { r.push_back(c); } }
    return r;
}

// all sets of exactly k clauses from a pool
inline Cnf_family clause_sets(std::string name, std::vector<Lits> pool, int vars, int k)
{
    auto n = (int)pool.size();
    return {name, binom(n, k), [=](std::uint64_t i) {
                Cnf f;
                f.vars = vars;
                for (int c : subset(n, k, i)) { f.clauses.push_back(pool[c]); }
                return f;
            }};
}

// all subsets of a pool of at most 24 clauses
inline Cnf_family clause_powerset(std::string name, std::vector<Lits> pool, int vars)
{
    return {name, 1ull << pool.size(), [=](std::uint64_t i) {
                Cnf f;
                f.vars = vars;
                for (std::size_t c = 0; c < pool.size(); ++c) { if (i >> c & 1) { f.clauses.push_back(pool[c]); } }
                return f;
            }};
}

// a pool with every choice of k clauses left out
inline Cnf_family without(std::string name, std::vector<Lits> pool, int vars, int k)
{
    auto n = (int)pool.size();
    return {name, binom(n, k), [=](std::uint64_t i) {
                Cnf f;
                f.vars = vars;
                auto out = subset(n, k, i);
                for (int c = 0; c < n; ++c) { if (std::find(out.begin(), out.end(), c) == out.end()) { f.clauses.push_back(pool[c]); } }
                return f;
            }};
}

// all sequences of k raw literal tuples (repetitions, tautologies, the empty clause) of length <= w
inline Cnf_family raw_sequences(std::string name, int vars, int w, int k)
{
    std::vector<Lits> pool{{}};
    for (std::size_t b = 0, len = 1; (int)len <= w; ++len)
    {
        auto e = pool.size();
        for (; b < e; ++b)
        {
            for (int v = 1; v <= vars; ++v)
            {
                for (int s : {1, -1}) { auto c = pool[b]; c.push_back(s * v); pool.push_back(c); }
            }
        }
    }
    std::uint64_t size = 1;
    for (int i = 0; i < k; ++i) { size *= pool.size(); }
    return {name, size, [=](std::uint64_t i) {
                Cnf f;
                f.vars = vars;
                for (int j = 0; j < k; ++j) { f.clauses.push_back(pool[i % pool.size()]); i /= pool.size(); }
                return f;
            }};
}

// pigeonhole principle: p pigeons, h holes, without the clauses in `out`
inline std::vector<Lits> php(int p, int h)
{
    std::vector<Lits> r;
    auto v = [&](int i, int j) { return i * h + j + 1; };
    for (int i = 0; i < p; ++i) { Lits c; for (int j = 0; j < h; ++j) { c.push_back(v(i, j)); } r.push_back(c); }
    for (int j = 0; j < h; ++j)
    {
        for (int a = 0; a < p; ++a) { for (int b = a + 1; b < p; ++b) { r.push_back({-v(a, j), -v(b, j)}); } }
    }
    return r;
}

// PHP(h+1, h) is minimally unsatisfiable: with no clause left out unsat, with at least one left out sat
inline Cnf_family php_without(int h, int k)
{
    auto fam = without("php" + std::to_string(h) + "-minus" + std::to_string(k), php(h + 1, h), (h + 1) * h, k);
    auto make = fam.make;
    fam.make = [=](std::uint64_t i) { auto f = make(i); f.sat = k > 0; return f; };
    return fam;
}

// the clauses forbidding the wrong parity of the given variables
inline void parity(Cnf& f, std::vector<int> const& vs, bool odd)
{
    for (std::uint32_t a = 0; a < (1u << vs.size()); ++a)
    {
        if ((__builtin_popcount(a) & 1) != odd)
        {
            Lits c;
            for (std::size_t i = 0; i < vs.size(); ++i) { c.push_back(a >> i & 1 ? -vs[i] : vs[i]); }
            f.clauses.push_back(c);
        }
    }
}

// Tseitin formulas on a grid graph r x c: one variable per edge, all 2^(r*c) charge vectors; sat iff even total charge
inline Cnf_family tseitin(int r, int c)
{
    return {"tseitin" + std::to_string(r) + "x" + std::to_string(c), 1ull << (r * c), [=](std::uint64_t charge) {
                Cnf f;
                std::vector<std::vector<int>> inc(r * c);
                for (int i = 0; i < r; ++i)
                {
                    for (int j = 0; j < c; ++j)
                    {
                        if (j + 1 < c) { ++f.vars; inc[i * c + j].push_back(f.vars); inc[i * c + j + 1].push_back(f.vars); }
                        if (i + 1 < r) { ++f.vars; inc[i * c + j].push_back(f.vars); inc[(i + 1) * c + j].push_back(f.vars); }
                    }
                }
                for (int v = 0; v < r * c; ++v) { parity(f, inc[v], charge >> v & 1); }
                f.sat = __builtin_popcountll(charge) % 2 == 0;
                return f;
            }};
}

// colouring of all graphs on n vertices with k colours
inline Cnf_family colouring(int n, int k)
{
    return {"colour-n" + std::to_string(n) + "k" + std::to_string(k), 1ull << (n * (n - 1) / 2), [=](std::uint64_t g) {
                Cnf f;
                f.vars = n * k;
                std::vector<std::pair<int, int>> edges;
                for (int a = 0, e = 0; a < n; ++a) { for (int b = a + 1; b < n; ++b, ++e) { if (g >> e & 1) { edges.emplace_back(a, b); } } }
                for (int a = 0; a < n; ++a) { Lits c; for (int j = 0; j < k; ++j) { c.push_back(a * k + j + 1); } f.clauses.push_back(c); }
                for (auto [a, b] : edges) { for (int j = 0; j < k; ++j) { f.clauses.push_back({-(a * k + j + 1), -(b * k + j + 1)}); } }
                // reference answer by enumeration of all colourings
                bool sat = false;
                std::uint64_t total = 1;
                for (int i = 0; i < n; ++i) { total *= k; }
                for (std::uint64_t x = 0; x < total && !sat; ++x)
                {
                    int col[16];
                    auto y = x;
                    for (int i = 0; i < n; ++i) { col[i] = y % k; y /= k; }
                    sat = std::all_of(edges.begin(), edges.end(), [&](auto e) { return col[e.first] != col[e.second]; });
                }
                f.sat = sat;
                return f;
            }};
}

// every variable renamed by rotation and every polarity flipped by a mask: different variable orders of one instance
inline Cnf transform(Cnf f, int rotate, std::uint64_t flip)
{
    for (auto& c : f.clauses)
    {
        for (int& l : c)
        {
            int v = (std::abs(l) - 1 + rotate) % f.vars;
            int s = (l > 0) != (bool)(flip >> v & 1) ? 1 : -1;
            l = s * (v + 1);
        }
    }
    return f;
}

} // namespace mc
#endif
