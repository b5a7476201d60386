// C30: the C++ interface (class Yaga). Every bounded sequence of calls that creates variables and constraints and asserts
// clauses is made on the real facade; the answer, the assignment and the exceptions are judged against the reference.
#include "Yaga.h"
#include "boolsolver.h"
#include "e2e.h"
#include "runner.h"
#include <memory>

using namespace mc;
using namespace yaga;

namespace {

using P = Order_predicate;
struct Spec {
    std::vector<int> vars;
    std::vector<std::pair<long, long>> coef;
    P::Type pred;
    std::pair<long, long> rhs;
    std::string str() const
    {
        std::string s;
        for (std::size_t i = 0; i < vars.size(); ++i) { s += (i ? " + " : "") + std::to_string(coef[i].first) + "/" + std::to_string(coef[i].second) + "*r" + std::to_string(vars[i]); }
        return s + (pred == P::eq ? " = " : pred == P::lt ? " < " : " <= ") + std::to_string(rhs.first) + "/" + std::to_string(rhs.second);
    }
    ref::Con con(bool pos, int half) const // half: which side of a disequality
    {
        ref::Q r(rhs.first, rhs.second);
        r.canonicalize();
        ref::Lin l(-r);
        for (std::size_t i = 0; i < vars.size(); ++i) { ref::Q c(coef[i].first, coef[i].second); c.canonicalize(); l.add(ref::Lin::var(vars[i]), c); }
        if (pred == P::eq) { return pos ? ref::Con{l, ref::Rel::eq} : ref::Con{half ? l : l.scaled(-1), ref::Rel::lt}; }
        if (pos) { return {l, pred == P::lt ? ref::Rel::lt : ref::Rel::le}; }
        return {l.scaled(-1), pred == P::lt ? ref::Rel::le : ref::Rel::lt};
    }
    bool holds(std::vector<ref::Q> const& v) const
    {
        ref::Q s = 0, r(rhs.first, rhs.second);
        r.canonicalize();
        for (std::size_t i = 0; i < vars.size(); ++i) { ref::Q c(coef[i].first, coef[i].second); c.canonicalize(); s += c * v[vars[i]]; }
        return pred == P::eq ? s == r : pred == P::lt ? s < r : s <= r;
    }
};

std::vector<Spec> const specs = {
    {{0}, {{1, 1}}, P::lt, {1, 1}},
    {{0}, {{-1, 1}}, P::leq, {0, 1}},
    {{0}, {{2, 1}}, P::eq, {1, 1}},
    {{0, 1}, {{1, 1}, {1, 1}}, P::leq, {1, 1}},
    {{1, 0}, {{-1, 1}, {1, 1}}, P::lt, {0, 1}},
    {{0, 1}, {{2, 1}, {-2, 1}}, P::eq, {0, 1}},
    {{1}, {{1, 1}}, P::eq, {1, 1}},
    {{0, 1}, {{0, 1}, {1, 1}}, P::lt, {2, 1}},
    {{1, 0}, {{3, 1}, {3, 1}}, P::leq, {3, 1}},
    {{0, 1}, {{0, 1}, {0, 1}}, P::lt, {0, 1}},
    {{}, {}, P::leq, {0, 1}},
    {{1, 2}, {{1, 1}, {1, 1}}, P::lt, {0, 1}},
    {{2, 0, 1}, {{1, 1}, {1, 1}, {-1, 1}}, P::eq, {1, 1}},
    {{2}, {{1, 3}}, P::leq, {-1, 1}},
    {{1}, {{-3, 2}}, P::lt, {-5, 4}},
    {{2, 1}, {{-1, 2}, {1, 2}}, P::leq, {3, 4}},
};

Rational rat(std::pair<long, long> q) { return Rational((int)q.first) / Rational((int)q.second); }

struct Facade {
    terms::Term_manager tm;
    std::unordered_map<terms::term_t, int> reals;
    std::unordered_map<terms::term_t, Literal> bools;
    Yaga smt{tm, std::ranges::views::all(reals), std::ranges::views::all(bools)};
    Literal constraint(Spec const& s)
    {
        std::vector<Rational> c;
        for (auto q : s.coef) { c.push_back(rat(q)); }
        return smt.linear_constraint(s.vars, c, P(s.pred), rat(s.rhs));
    }
};

// clauses over literals 1..n (constraints) and n+1 (a Boolean variable)
std::vector<Lits> clauses_over(int n)
{
    std::vector<Lits> r;
    std::vector<int> lits;
    for (int i = 1; i <= n; ++i) { lits.push_back(i); lits.push_back(-i); }
    for (std::size_t i = 0; i < lits.size(); ++i)
    {
        r.push_back({lits[i]});
        for (std::size_t j = i + 1; j < lits.size(); ++j) { if (lits[i] != -lits[j]) { r.push_back({lits[i], lits[j]}); } }
    }
    return r;
}

std::vector<std::vector<int>> subsets(int n, int k)
{
    std::vector<std::vector<int>> r;
    std::vector<int> cur;
    std::function<void(int)> rec = [&](int from) {
        if ((int)cur.size() == k) { r.push_back(cur); return; }
        for (int i = from; i < n; ++i) { cur.push_back(i); rec(i + 1); cur.pop_back(); }
    };
    rec(0);
    return r;
}

enum Mode { first, late, refused, again, num_modes };
char const* const mode_names[] = {"constraints first", "clauses as soon as possible", "refused calls in between", "solver reinitialized"};

// truth of the three constraints in some solution
std::vector<bool> cells(std::vector<int> const& s)
{
    std::vector<bool> r(1u << s.size());
    for (std::uint32_t a = 0; a < r.size(); ++a)
    {
        for (std::uint32_t half = 0; half < r.size() && !r[a]; ++half)
        {
            std::vector<ref::Con> k;
            for (std::size_t i = 0; i < s.size(); ++i) { k.push_back(specs[s[i]].con(a >> i & 1, half >> i & 1)); }
            r[a] = ref::feasible(k);
        }
    }
    return r;
}

bool wanted(std::vector<bool> const& cell, std::vector<Lits> const& f, int n)
{
    for (std::uint32_t a = 0; a < cell.size() * 2; ++a)
    {
        if (!cell[a & (cell.size() - 1)]) { continue; }
        if (std::all_of(f.begin(), f.end(), [&](auto& c) { return std::any_of(c.begin(), c.end(), [&](int l) { return (a >> (std::abs(l) - 1) & 1) == (l > 0); }); })) { return true; }
    }
    (void)n;
    return false;
}

void run(std::vector<int> const& s, std::vector<bool> const& cell, std::vector<Lits> const& f, int mode, int opt, bool uf)
{
    Facade x;
    auto start = [&] { if (uf) { x.smt.set_logic(logic::qf_uflra, options(opt)); } else { x.smt.set_logic(logic::qf_lra, options(opt)); } };
    start();
    if (mode == again)
    {
        // something unsatisfiable which must be forgotten
        auto v = x.smt.make(Variable::rational);
        auto b = x.smt.make_bool();
        auto c = x.smt.linear_constraint(std::array{v.ord()}, std::array<Rational, 1>{1}, P::lt, Rational(0));
        x.smt.assert_clause(b, c);
        x.smt.assert_clause(~b);
        x.smt.assert_clause(~c);
        x.smt.init();
        start();
    }
    int n = s.size();
    std::vector<Literal> lits(n + 1, Literal{0});
    std::vector<bool> known(n + 1), done(f.size());
    auto refuse = [&] {
        if (mode != refused) { return; }
        int before = x.smt.solver().trail().model(Variable::rational).num_vars();
        for (int bad : {-1, before, before + 3})
        {
            bool thrown = false;
            try { x.smt.linear_constraint(std::array{bad}, std::array<Rational, 1>{1}, P::lt, Rational(0)); } catch (std::logic_error const&) { thrown = true; }
            if (!thrown) { fail("a constraint over the unknown variable " + std::to_string(bad) + " was accepted"); }
        }
    };
    auto flush = [&] {
        for (std::size_t i = 0; i < f.size(); ++i)
        {
            if (done[i] || !std::all_of(f[i].begin(), f[i].end(), [&](int l) { return known[std::abs(l) - 1]; })) { continue; }
            done[i] = true;
            std::vector<Literal> c;
            for (int l : f[i]) { c.push_back(l > 0 ? lits[l - 1] : ~lits[-l - 1]); }
            if (c.size() == 1) { x.smt.assert_clause(c[0]); } else { x.smt.assert_clause(c[0], c[1]); }
        }
    };
    refuse();
    lits[n] = x.smt.make_bool();
    known[n] = true;
    std::vector<int> ords;
    for (int i = 0; i < 3; ++i) { ords.push_back(x.smt.make(Variable::rational).ord()); if (ords[i] != i) { fail("new real variable number " + std::to_string(i) + " is called " + std::to_string(ords[i])); } }
    for (int i = 0; i < n; ++i)
    {
        if (mode == late) { flush(); }
        lits[i] = x.constraint(specs[s[i]]);
        known[i] = true;
        refuse();
    }
    flush();
    for (int i = 0; i < n; ++i) { if (x.constraint(specs[s[i]]) != lits[i]) { fail("the same constraint got two literals"); } }
    bool sat = x.smt.solver().check() == Solver::Result::sat;
    transitions();
    traces();
    outcome(sat);
    bool want = wanted(cell, f, n);
    state(mix(mix(mode, sat), want * 64 + cell.size()));
    if (sat != want) { fail(std::string("answered ") + (sat ? "sat" : "unsat") + ", " + mode_names[mode] + ", " + options_str(opt) + (uf ? ", QF_UFLRA" : ", QF_LRA")); }
    if (!sat) { return; }
    auto& t = x.smt.solver().trail();
    auto& rm = t.model<Rational>(Variable::rational);
    auto& bm = t.model<bool>(Variable::boolean);
    std::vector<ref::Q> v;
    for (int i = 0; i < 3; ++i) { if (!rm.is_defined(i)) { fail("a real variable has no value"); } v.push_back(ref::Q(rm.value(i).get_str())); }
    if (!bm.is_defined(lits[n].var().ord())) { fail("a Boolean variable has no value"); }
    bool b = bm.value(lits[n].var().ord()) != lits[n].is_negation();
    for (auto& c : f)
    {
        if (!std::any_of(c.begin(), c.end(), [&](int l) { bool val = std::abs(l) - 1 == n ? b : specs[s[std::abs(l) - 1]].holds(v); return val == (l > 0); })) { fail(std::string("the assignment falsifies a clause, ") + mode_names[mode] + ", " + options_str(opt)); }
    }
}

std::string show(std::vector<int> const& s, std::vector<Lits> const& f)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) { r += std::to_string(i + 1) + ": " + specs[s[i]].str() + "; "; }
    for (auto& c : f) { r += mc::str(c); }
    return r;
}

void family(int constraints, int clauses)
{
    auto* sets = new auto(subsets(specs.size(), constraints));
    auto* pool = new auto(clauses_over(constraints + 1));
    auto* choices = new auto(subsets(pool->size(), clauses));
    auto formula = [=](int k) { std::vector<Lits> f; for (int i : (*choices)[k]) { f.push_back((*pool)[i]); } return f; };
    // one item: one set of constraints and a block of clause sets
    std::uint64_t block = 64, blocks = (choices->size() + block - 1) / block;
    add({"calls-" + std::to_string(constraints) + "-" + std::to_string(clauses), sets->size() * blocks, [=](std::uint64_t i) {
             auto& s = (*sets)[i / blocks];
             auto cell = cells(s);
             for (std::uint64_t k = i % blocks * block; k < std::min<std::uint64_t>(choices->size(), (i % blocks + 1) * block); ++k)
             {
                 auto f = formula(k);
                 try
                 {
                     for (int o = 0; o < num_options; ++o) { run(s, cell, f, first, o, o & 1); }
                     for (int m = 1; m < num_modes; ++m) { run(s, cell, f, m, 0, false); run(s, cell, f, m, 3, true); }
                 }
                 catch (Violation& v) { fail(v.msg + "\n" + show(s, f)); }
             }
         },
         [=](std::uint64_t i) { return show((*sets)[i / blocks], formula(i % blocks * block)) + " and the following clause sets"; }});
}

void propositional_family(Cnf_family fam)
{
    add({"propositional-" + fam.name, fam.size, [=](std::uint64_t i) {
             auto f = fam.make(i);
             for (int o = 0; o < num_options; ++o)
             {
                 Facade x;
                 x.smt.set_logic(logic::propositional, options(o));
                 std::vector<Literal> lits;
                 for (int v = 0; v < f.vars; ++v) { lits.push_back(x.smt.make_bool()); }
                 bool thrown = false;
                 try { x.smt.linear_constraint(std::vector<int>{}, std::vector<Rational>{}, P::lt, Rational(0)); } catch (std::logic_error const&) { thrown = true; }
                 if (!thrown) { fail("a linear constraint was accepted by the propositional logic"); }
                 for (auto& c : f.clauses) { Clause k; for (int l : c) { k.push_back(l > 0 ? lits[l - 1] : ~lits[-l - 1]); } x.smt.assert_clause(std::move(k)); }
                 bool sat = x.smt.solver().check() == Solver::Result::sat;
                 transitions();
                 traces();
                 outcome(sat);
                 if (sat != brute_sat(f)) { fail(std::string("answered ") + (sat ? "sat" : "unsat")); }
                 if (x.smt.has_uf()) { fail("the propositional logic has functions"); }
             }
             state(f.hash());
         },
         [=](std::uint64_t i) { return fam.make(i).str(); }});
}

// one facade set up for several logics in turn: each setup offers what its logic has, forgets everything and decides correctly
void switch_family(int length)
{
    std::uint64_t size = 1;
    for (int k = 0; k < length; ++k) { size *= 3; }
    auto name = [=](std::uint64_t i) { std::string s; for (int k = 0; k < length; ++k, i /= 3) { s += i % 3 == 0 ? " propositional" : i % 3 == 1 ? " qf_lra" : " qf_uflra"; } return s; };
    add({"logics-" + std::to_string(length), size * 4 * num_options, [=](std::uint64_t i) {
             int opt = i % num_options;
             bool used = i / num_options & 1, unsat = i / num_options / 2 & 1;
             std::uint64_t seq = i / num_options / 4;
             Facade x;
             for (int k = 0; k < length; ++k, seq /= 3)
             {
                 int l = seq % 3;
                 if (k) { x.smt.init(); }
                 if (l == 0) { x.smt.set_logic(logic::propositional, options(opt)); }
                 else if (l == 1) { x.smt.set_logic(logic::qf_lra, options(opt)); }
                 else { x.smt.set_logic(logic::qf_uflra, options(opt)); }
                 transitions();
                 std::string where = " in setup " + std::to_string(k + 1);
                 if (x.smt.has_uf() != (l == 2)) { fail(std::string(l == 2 ? "no functions in QF_UFLRA" : "a logic without functions has functions") + where); }
                 if (x.smt.get_function_model().has_value() != (l == 2)) { fail("the function model does not fit the logic" + where); }
                 if (!x.smt.solver().db().asserted().empty() || !x.smt.solver().db().learned().empty()) { fail("clauses are left" + where); }
                 auto b = x.smt.make_bool();
                 if (b.var().ord() != 0 || b.is_negation()) { fail("the first Boolean variable is not number 0" + where); }
                 std::optional<Literal> c;
                 if (l > 0)
                 {
                     auto v = x.smt.make(Variable::rational);
                     if (v.ord() != 0) { fail("the first real variable is not number 0" + where); }
                     c = x.smt.linear_constraint(std::array{v.ord()}, std::array<Rational, 1>{1}, P::lt, Rational(k));
                     // outside QF_UFLRA the term of an application is not looked at
                     if (l == 1) { x.smt.make_function_application(Variable::rational, yaga::terms::term_t{5}); }
                 }
                 else
                 {
                     bool thrown = false;
                     try { x.smt.linear_constraint(std::vector<int>{}, std::vector<Rational>{}, P::lt, Rational(0)); } catch (std::logic_error const&) { thrown = true; }
                     if (!thrown) { fail("a linear constraint was accepted by the propositional logic" + where); }
                     auto v = x.smt.make_function_application(Variable::boolean, yaga::terms::term_t{5});
                     if (v.ord() != 1) { fail("the second Boolean variable is not number 1" + where); }
                 }
                 if (c) { x.smt.assert_clause(b, *c); x.smt.assert_clause(~b, ~*c); } else { x.smt.assert_clause(b); }
                 if (unsat) { x.smt.assert_clause(~b); if (c) { x.smt.assert_clause(~*c); } }
                 if (!used && k + 1 < length) { continue; }
                 bool sat = x.smt.solver().check() == Solver::Result::sat;
                 outcome(sat);
                 if (sat == unsat) { fail(std::string("answered ") + (sat ? "sat" : "unsat") + where); }
                 if (sat)
                 {
                     auto& bm = x.smt.solver().trail().model<bool>(Variable::boolean);
                     bool bv = bm.value(0);
                     if (c && bv == (bm.value(c->var().ord()) != c->is_negation())) { fail("the assignment falsifies a clause" + where); }
                     if (c && (ref::Q(x.smt.solver().trail().model<Rational>(Variable::rational).value(0).get_str()) < k) == bv) { fail("the value of the real variable does not fit the constraint" + where); }
                     if (!c && !bv) { fail("the assignment falsifies a clause" + where); }
                 }
             }
             traces();
             state(i);
         },
         [=](std::uint64_t i) { return "set up as" + name(i / num_options / 4) + ", " + options_str(i % num_options) + (i / num_options & 1 ? ", checked each time" : ", checked at the end") + (i / num_options / 2 & 1 ? ", unsatisfiable" : ""); }});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    family(1, 1);
    family(1, 2);
    family(1, 3);
    family(2, 1);
    family(2, 2);
    if (t) { family(2, 3); }
    family(3, 1);
    family(3, 2);
    if (t) { family(3, 3); }
    for (int k = 1; k <= (t ? 6 : 4); ++k) { switch_family(k); }
    auto three = all_clauses(3);
    for (int k = 0; k <= (t ? 4 : 3); ++k) { propositional_family(clause_sets("sets3v-" + std::to_string(k), three, 3, k)); }
    propositional_family(without("full3of4-minus1", full_width(4, 3), 4, 1));
}
