// Pools of linear atoms with all their realizable truth assignments ("cells"), used as an oracle that is
// independent of the implementation: a clause set over the atoms has a real solution iff some cell satisfies it.
#ifndef MC_LRA_POOL_H
#define MC_LRA_POOL_H
#include "cnf.h"
#include "ref.h"

namespace mc {

struct Atom {
    std::vector<std::pair<int, long>> lin; // variable, coefficient
    char rel;                              // '<', 'l' (<=), '='
    long rhs;
    int den = 1;                           // rhs / den
    ref::Lin expr() const
    {
        ref::Lin l(ref::Q(-rhs, den));
        l.c.canonicalize();
        for (auto [v, c] : lin) { l.add(ref::Lin::var(v), ref::Q(c)); }
        return l;
    }
    // constraint for the atom or its negation; a negated equality gives two alternatives
    std::vector<ref::Con> con(bool pos) const
    {
        auto l = expr();
        if (rel == '=')
        {
            if (pos) { return {{l, ref::Rel::eq}}; }
            return {{l, ref::Rel::lt}, {l.scaled(-1), ref::Rel::lt}};
        }
        if (pos) { return {{l, rel == '<' ? ref::Rel::lt : ref::Rel::le}}; }
        return {{l.scaled(-1), rel == '<' ? ref::Rel::le : ref::Rel::lt}};
    }
};

inline std::string num_str(long n, int den = 1)
{
    std::string s = n < 0 ? "(- " + std::to_string(-n) + ")" : std::to_string(n);
    return den == 1 ? s : "(/ " + s + " " + std::to_string(den) + ")";
}

inline char const* var_name(int v) { static char const* n[] = {"x", "y", "z", "w", "u", "v", "s", "t"}; return n[v]; }

inline std::string atom_str(Atom const& a)
{
    std::vector<std::string> ms;
    for (auto [v, c] : a.lin) { ms.push_back(c == 1 ? var_name(v) : "(* " + num_str(c) + " " + var_name(v) + ")"); }
    std::string l = ms.empty() ? "0" : ms[0];
    if (ms.size() > 1) { l = "(+"; for (auto& m : ms) { l += " " + m; } l += ")"; }
    return std::string(a.rel == '<' ? "(< " : a.rel == 'l' ? "(<= " : "(= ") + l + " " + num_str(a.rhs, a.den) + ")";
}

// literals of a pool: 1..atoms.size() are atoms, then nb Boolean variables
struct Pool {
    std::string name;
    std::vector<Atom> atoms;
    int nb = 0;
    int reals = 0;
    std::vector<std::uint32_t> cells; // bit i: atom i is true
    std::vector<std::vector<std::vector<ref::Con>>> splits; // background axioms: conjunction of disjunctions of conjunctions
    bool feasible(std::vector<ref::Con>& cons, std::size_t from = 0) const
    {
        if (from == splits.size()) { return ref::feasible(cons); }
        if (from > 0 && !ref::feasible(cons)) { return false; }
        for (auto& alt : splits[from])
        {
            auto n = cons.size();
            cons.insert(cons.end(), alt.begin(), alt.end());
            bool r = feasible(cons, from + 1);
            cons.resize(n);
            if (r) { return true; }
        }
        return false;
    }
    int lits() const { return (int)atoms.size() + nb; }
    void compute()
    {
        reals = 0;
        for (auto& a : atoms) { for (auto [v, c] : a.lin) { reals = std::max(reals, v + 1); } }
        cells.clear();
        std::vector<ref::Con> cons;
        rec(0, 0, cons);
    }
    std::string lit_str(int l) const
    {
        int i = std::abs(l) - 1;
        std::string s = i < (int)atoms.size() ? atom_str(atoms[i]) : std::string(1, (char)('p' + i - (int)atoms.size()));
        return l < 0 ? "(not " + s + ")" : s;
    }
    // truth of a literal in a cell extended by an assignment of the Boolean variables
    bool sat(Cnf const& f) const
    {
        for (auto c : cells)
        {
            for (std::uint32_t b = 0; b < (1u << nb); ++b)
            {
                std::uint64_t a = c | ((std::uint64_t)b << atoms.size());
                if (eval(f, a)) { return true; }
            }
        }
        return false;
    }
    static bool eval(Cnf const& f, std::uint64_t a)
    {
        for (auto& c : f.clauses)
        {
            bool s = false;
            for (int l : c) { if ((a >> (std::abs(l) - 1) & 1) == (l > 0)) { s = true; break; } }
            if (!s) { return false; }
        }
        return true;
    }
    // does every solution of f satisfy c (literals over the pool)?
    bool implies(Cnf const& f, Lits const& c) const
    {
        Cnf g = f;
        for (int l : c) { g.clauses.push_back({-l}); }
        return !sat(g);
    }
    std::string script(Cnf const& f) const
    {
        std::string s = "(set-logic QF_LRA)\n";
        for (int i = 0; i < reals; ++i) { s += std::string("(declare-fun ") + var_name(i) + " () Real)\n"; }
        for (int i = 0; i < nb; ++i) { s += std::string("(declare-fun ") + (char)('p' + i) + " () Bool)\n"; }
        for (auto& c : f.clauses)
        {
            std::string t;
            for (int l : c) { t += (t.empty() ? "" : " ") + lit_str(l); }
            s += "(assert " + (c.empty() ? std::string("false") : c.size() == 1 ? t : "(or " + t + ")") + ")\n";
        }
        return s + "(check-sat)\n(get-model)\n";
    }
private:
    void rec(std::size_t i, std::uint32_t bits, std::vector<ref::Con>& cons)
    {
        if (i == atoms.size()) { cells.push_back(bits); return; }
        for (bool pos : {false, true})
        {
            // a negated equality has two alternatives; the same cell must not be listed twice
            for (auto& alt : atoms[i].con(pos))
            {
                cons.push_back(alt);
                if (feasible(cons)) { rec(i + 1, bits | (pos ? 1u << i : 0u), cons); }
                cons.pop_back();
            }
        }
        if (i == 0)
        {
            std::sort(cells.begin(), cells.end());
            cells.erase(std::unique(cells.begin(), cells.end()), cells.end());
        }
    }
};

inline Pool make_pool(std::string name, std::vector<Atom> atoms, int nb = 0)
{
    Pool p;
    p.name = std::move(name);
    p.atoms = std::move(atoms);
    p.nb = nb;
    p.compute();
    return p;
}

// all clauses with 1..w literals over n literals' variables, no repetition
inline std::vector<Lits> clauses_upto(int n, int w)
{
    std::vector<Lits> r;
    std::function<void(int, Lits&)> rec = [&](int from, Lits& c) {
        if (!c.empty()) { r.push_back(c); }
        if ((int)c.size() == w) { return; }
        for (int v = from; v <= n; ++v)
        {
            for (int s : {1, -1}) { c.push_back(s * v); rec(v + 1, c); c.pop_back(); }
        }
    };
    Lits c;
    rec(1, c);
    std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
    return r;
}

// every partial sign vector over n literals: conjunctions
inline Cnf_family conjunctions(std::string name, int n)
{
    std::uint64_t size = 1;
    for (int i = 0; i < n; ++i) { size *= 3; }
    return {name, size, [=](std::uint64_t i) {
                Cnf f;
                f.vars = n;
                for (int v = 1; v <= n; ++v, i /= 3) { if (i % 3) { f.clauses.push_back({i % 3 == 1 ? v : -v}); } }
                return f;
            }};
}

// the standard pools
inline Pool pool_bounds() // one variable, all kinds of bounds
{
    return make_pool("bounds", {{{{0, 1}}, 'l', 0}, {{{0, 1}}, '<', 0}, {{{0, 1}}, '=', 0}, {{{0, 1}}, 'l', 1}, {{{0, 1}}, '<', 1}, {{{0, 1}}, '=', 1}, {{{0, 2}}, '=', 1}});
}
inline Pool pool_diff() // cycles of differences
{
    return make_pool("diff", {{{{0, 1}, {1, -1}}, 'l', 0}, {{{1, 1}, {2, -1}}, '<', 0}, {{{2, 1}, {0, -1}}, 'l', 0}, {{{0, 1}, {2, -1}}, '=', 1}, {{{1, 1}, {0, -1}}, '<', 1}, {{{0, 1}}, 'l', 0}});
}
inline Pool pool_mixed() // coefficients of all signs, equalities
{
    return make_pool("mixed", {{{{0, 2}, {1, 3}}, 'l', 1}, {{{0, 1}, {1, -2}}, '=', 0}, {{{0, -3}, {1, 1}}, '<', 2}, {{{1, 1}}, '<', 0}, {{{0, 1}, {1, 1}}, '=', 1}, {{{0, 1}}, '=', 0}});
}
inline Pool pool_three() // three variables
{
    return make_pool("three", {{{{0, 1}, {1, 1}, {2, 1}}, 'l', 0}, {{{0, 1}, {1, -1}, {2, 2}}, '=', 1}, {{{2, 1}, {1, -1}}, '<', 0}, {{{0, 1}}, '<', 1}, {{{1, 1}}, 'l', -1}, {{{2, 3}, {0, -1}}, '=', 0}});
}
inline Pool pool_mcsat() // interaction of Boolean variables and atoms
{
    return make_pool("mcsat", {{{{0, 1}, {1, -1}}, '<', 0}, {{{0, 1}, {1, 1}}, '=', 0}, {{{1, 1}}, 'l', 0}, {{{0, 1}}, '=', 1}}, 2);
}
inline std::vector<Pool> all_pools() { return {pool_bounds(), pool_diff(), pool_mixed(), pool_three(), pool_mcsat()}; }

} // namespace mc
#endif
