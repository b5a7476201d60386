// C27: reported statistics. Every event of the search is counted by a listener around the real plugins (with the real order
// and restart policy) and compared with the counters of the solver; the programs' reports are compared with such a run.
#include "boolsolver.h"
#include "e2e.h"
#include "proc.h"
#include "Theory_combination.h"
#include <map>

using namespace mc;
using yaga::Clause;
using yaga::Database;
using yaga::Trail;
using yaga::Variable;

extern "C++" int mc_sat_main(int, char**) asm("mc_sat_main");
extern "C++" int mc_smt_main(int, char**) asm("mc_smt_main");

namespace {

// counts what passes through it
struct Counting_theory final : yaga::Theory {
    yaga::Bool_theory inner;
    long decisions = 0, conflicts = 0, clauses = 0, learned = 0, restarts = 0;
    std::vector<Clause> propagate(Database& db, Trail& t) override
    {
        auto c = inner.propagate(db, t);
        if (!c.empty() && t.decision_level() > 0) { ++conflicts; clauses += c.size(); }
        return c;
    }
    void decide(Database& db, Trail& t, Variable v) override { ++decisions; inner.decide(db, t, v); }
    void on_init(Database& db, Trail& t) override { decisions = conflicts = clauses = learned = restarts = 0; inner.on_init(db, t); }
    void on_variable_resize(Variable::Type ty, int n) override { inner.on_variable_resize(ty, n); }
    void on_before_backtrack(Database& db, Trail& t, int l) override { inner.on_before_backtrack(db, t, l); }
    void on_learned_clause(Database& db, Trail& t, Clause const& c) override { ++learned; inner.on_learned_clause(db, t, c); }
    void on_conflict_resolved(Database& db, Trail& t, Clause const& c) override { inner.on_conflict_resolved(db, t, c); }
    void on_restart(Database& db, Trail& t) override { ++restarts; inner.on_restart(db, t); }
};

// restarts after every few learned clauses
struct Eager_restart final : public yaga::Restart {
    int left = 2;
    bool should_restart() const override { return left <= 0; }
    void on_learned_clause(Database&, Trail&, Clause const&) override { --left; }
    void on_restart(Database&, Trail&) override { left = 2; }
};

struct Counted {
    bool sat;
    std::map<std::string, long> seen;
};

// each check reports its own events: a second check of a decided problem starts counting from zero
void count_twice(Cnf const& f, int ph)
{
    yaga::terms::Term_manager tm;
    yaga::Solver solver{tm};
    auto& th = solver.set_theory<Counting_theory>();
    th.inner.set_phase(phase(ph));
    solver.set_variable_order<yaga::Evsids>();
    solver.set_restart_policy<yaga::Glucose_restart>();
    solver.trail().set_model<bool>(Variable::boolean, f.vars);
    for (auto& c : f.clauses) { Clause k; for (int l : c) { k.push_back(lit(l)); } solver.db().assert_clause(std::move(k)); }
    auto first = solver.check();
    transitions(th.decisions + th.conflicts + 1);
    for (int round = 2; round <= 3; ++round)
    {
        if (round == 2) { solver.trail().clear(); }
        auto again = solver.check();
        if (again != first) { fail("check number " + std::to_string(round) + " of the same solver gives another answer; phase " + std::to_string(ph)); }
        std::pair<char const*, std::pair<long, long>> all[] = {
            {"conflicts", {solver.num_conflicts(), th.conflicts}}, {"decisions", {solver.num_decisions(), th.decisions}}, {"restarts", {solver.num_restarts(), th.restarts}},
            {"conflict clauses", {solver.num_conflict_clauses(), th.clauses}}, {"learned clauses", {solver.num_learned_clauses(), th.learned}}};
        for (auto& [name, v] : all) { if (v.first != v.second) { fail("check number " + std::to_string(round) + ": the solver reports " + std::to_string(v.first) + " " + name + ", the check had " + std::to_string(v.second) + "; phase " + std::to_string(ph)); } }
    }
}

Counted count(Cnf const& f, int ph, bool judge, int policy = 0)
{
    yaga::terms::Term_manager tm;
    yaga::Solver solver{tm};
    auto& th = solver.set_theory<Counting_theory>();
    th.inner.set_phase(phase(ph));
    solver.set_variable_order<yaga::Evsids>();
    if (policy == 0) { solver.set_restart_policy<yaga::Glucose_restart>(); } else { solver.set_restart_policy<Eager_restart>(); }
    solver.trail().set_model<bool>(Variable::boolean, f.vars);
    for (auto& c : f.clauses) { Clause k; for (int l : c) { k.push_back(lit(l)); } solver.db().assert_clause(std::move(k)); }
    Counted r;
    r.sat = solver.check() == yaga::Solver::Result::sat;
    r.seen = {{"conflicts", th.conflicts}, {"decisions", th.decisions}, {"restarts", th.restarts}};
    transitions(th.decisions + th.conflicts + 1);
    traces();
    outcome(r.sat ? 1 : 0);
    if (th.restarts) { outcome(2); }
    if (judge)
    {
        std::pair<char const*, std::pair<long, long>> all[] = {
            {"conflicts", {solver.num_conflicts(), th.conflicts}}, {"decisions", {solver.num_decisions(), th.decisions}}, {"restarts", {solver.num_restarts(), th.restarts}},
            {"conflict clauses", {solver.num_conflict_clauses(), th.clauses}}, {"learned clauses", {solver.num_learned_clauses(), th.learned}}};
        for (auto& [name, v] : all) { if (v.first != v.second) { fail("the solver reports " + std::to_string(v.first) + " " + name + ", the search had " + std::to_string(v.second) + "; phase " + std::to_string(ph)); } }
    }
    std::uint64_t h = f.hash();
    for (auto& [_, v] : r.seen) { h = mix(h, v); }
    state(h);
    return r;
}

std::optional<long> reported(std::string const& out, std::string const& name)
{
    std::optional<long> r;
    for (auto& l : lines(out))
    {
        if (l.rfind(name + " = ", 0) != 0) { continue; }
        if (r) { return -2; }
        r = atol(l.c_str() + name.size() + 3);
    }
    return r;
}

// several conflicts at once: after `depth` decisions the theory rejects the assignment with a list of false clauses
struct Rejecting_theory final : yaga::Theory {
    yaga::Bool_theory inner;
    std::vector<std::vector<int>> subsets;
    int depth;
    bool done = false;
    long decisions = 0, conflicts = 0, clauses = 0, learned = 0, restarts = 0;
    std::string log;
    std::vector<Clause> propagate(Database& db, Trail& t) override
    {
        auto c = inner.propagate(db, t);
        if (c.empty() && !done && t.decision_level() == depth)
        {
            done = true;
            auto& m = t.model<bool>(Variable::boolean);
            for (auto& s : subsets)
            {
                Clause k;
                for (int v : s) { k.push_back(m.value(v) ? ~yaga::Literal{v} : yaga::Literal{v}); }
                c.push_back(std::move(k));
            }
        }
        if (!c.empty() && t.decision_level() > 0) { ++conflicts; clauses += c.size(); }
        return c;
    }
    void decide(Database& db, Trail& t, Variable v) override { ++decisions; log += " d" + std::to_string(v.ord()); inner.decide(db, t, v); }
    void on_init(Database& db, Trail& t) override { inner.on_init(db, t); }
    void on_variable_resize(Variable::Type ty, int n) override { inner.on_variable_resize(ty, n); }
    void on_before_backtrack(Database& db, Trail& t, int l) override { inner.on_before_backtrack(db, t, l); }
    void on_learned_clause(Database& db, Trail& t, Clause const& c) override { ++learned; log += str(dimacs(c)); inner.on_learned_clause(db, t, c); }
    void on_conflict_resolved(Database& db, Trail& t, Clause const& c) override { inner.on_conflict_resolved(db, t, c); }
    void on_restart(Database& db, Trail& t) override { ++restarts; inner.on_restart(db, t); }
};

void rejected_family(int n, int conflicts)
{
    std::uint64_t pool = (1u << n) - 1, size = 1;
    for (int k = 0; k < conflicts; ++k) { size *= pool; }
    auto sets = [=](std::uint64_t i) {
        std::vector<std::vector<int>> r;
        for (int k = 0; k < conflicts; ++k, i /= pool)
        {
            r.emplace_back();
            for (int v = 0; v < n; ++v) { if ((i % pool + 1) >> v & 1) { r.back().push_back(v); } }
        }
        return r;
    };
    add({"several-" + std::to_string(n) + "-" + std::to_string(conflicts), size, [=](std::uint64_t i) {
             auto once = [&](int ph) {
                 yaga::terms::Term_manager tm;
                 yaga::Solver solver{tm};
                 auto& th = solver.set_theory<Rejecting_theory>();
                 th.inner.set_phase(phase(ph));
                 th.subsets = sets(i);
                 th.depth = n;
                 solver.set_variable_order<yaga::Evsids>();
                 solver.set_restart_policy<yaga::Glucose_restart>();
                 solver.trail().set_model<bool>(Variable::boolean, n + 2);
                 auto r = solver.check();
                 transitions(th.decisions + th.conflicts + 1);
                 traces();
                 state(hash(th.log));
                 outcome(r == yaga::Solver::Result::sat);
                 if (config().property == "C28") { return th.log; }
                 std::pair<char const*, std::pair<long, long>> all[] = {
                     {"conflicts", {solver.num_conflicts(), th.conflicts}}, {"decisions", {solver.num_decisions(), th.decisions}}, {"restarts", {solver.num_restarts(), th.restarts}},
                     {"conflict clauses", {solver.num_conflict_clauses(), th.clauses}}, {"learned clauses", {solver.num_learned_clauses(), th.learned}}};
                 for (auto& [name, v] : all) { if (v.first != v.second) { fail("the solver reports " + std::to_string(v.first) + " " + name + ", the search had " + std::to_string(v.second) + "; phase " + std::to_string(ph)); } }
                 return th.log;
             };
             for (int ph = 0; ph < 2; ++ph)
             {
                 auto r = once(ph);
                 if (config().property != "C28") { continue; }
                 for (int round = 1; round <= 2; ++round)
                 {
                     Other_memory m(round);
                     auto q = once(ph);
                     if (q != r) { fail("two runs of the same input differ\nfirst: " + r + "\nother: " + q); }
                 }
             }
         },
         [=](std::uint64_t i) {
             std::string r = "rejected after all decisions because of";
             for (auto& s : sets(i)) { r += " {"; for (int v : s) { r += " " + std::to_string(v); } r += " }"; }
             return r;
         }});
}

void counter_family(Cnf_family fam)
{
    add({"counters-" + fam.name, fam.size, [=](std::uint64_t i) { auto f = fam.make(i); for (int p = 0; p < 3; ++p) { for (int policy = 0; policy < 2; ++policy) { count(f, p, true, policy); } } },
         [=](std::uint64_t i) { return fam.make(i).str(); }});
}

void repeat_family(Cnf_family fam)
{
    add({"repeated-" + fam.name, fam.size, [=](std::uint64_t i) { auto f = fam.make(i); for (int p = 0; p < 3; ++p) { count_twice(f, p); } },
         [=](std::uint64_t i) { return fam.make(i).str(); }});
}

void program_family(Cnf_family fam)
{
    add({"sat-report-" + fam.name, fam.size, [=](std::uint64_t i) {
             auto f = fam.make(i);
             if (std::any_of(f.clauses.begin(), f.clauses.end(), [](auto& c) { return c.empty(); })) { return; }
             std::string text = "p cnf " + std::to_string(f.vars) + " " + std::to_string(f.clauses.size()) + "\n";
             for (auto& c : f.clauses) { for (int l : c) { text += std::to_string(l) + " "; } text += "0\n"; }
             static Memory_file file;
             file.write(text);
             auto e = run_main(mc_sat_main, {"sat", file.path()});
             auto c = count(f, 0, false);
             for (auto& [name, v] : c.seen)
             {
                 auto r = reported(e.out, name);
                 if (r != v) { fail("the program reports " + (r ? std::to_string(*r) : "no number of") + " " + name + ", a run of the same search has " + std::to_string(v) + "\n" + visible(e.out)); }
             }
         },
         [=](std::uint64_t i) { return fam.make(i).str(); }});
}

// scripts whose statistics do not depend on the order of decisions
void smt_family(bool t)
{
    int n = t ? 7 : 5;
    struct Case { std::string script; std::map<std::string, long> want; std::string phase; };
    auto* cases = new std::vector<Case>;
    for (char const* logic : {"QF_LRA", "QF_UFLRA"})
    {
        for (char const* ph : {"positive", "negative", "cache"})
        {
            bool neg = std::string(ph) == "negative";
            // one clause of k literals over k variables, all positive or all negative, plus m units
            for (int k = 2; k <= n; ++k)
            {
                for (int sign = 0; sign < 2; ++sign)
                {
                    for (int m = 0; m <= 2; ++m)
                    {
                        std::string s = std::string("(set-logic ") + logic + ")";
                        for (int v = 0; v < k; ++v) { s += "(declare-const p" + std::to_string(v) + " Bool)"; }
                        for (int v = 0; v < m; ++v) { s += "(declare-const q" + std::to_string(v) + " Bool)(assert q" + std::to_string(v) + ")"; }
                        s += "(assert (or";
                        for (int v = 0; v < k; ++v) { s += sign ? " (not p" + std::to_string(v) + ")" : " p" + std::to_string(v); }
                        s += "))(check-sat)";
                        // the last literal is propagated if all others were decided false
                        bool falsified = neg != (sign == 1);
                        cases->push_back({s, {{"Conflicts", 0}, {"Conflict clauses", 0}, {"Learned clauses", 0}, {"Restarts", 0}, {"Decisions", falsified ? k - 1 : k}}, ph});
                    }
                }
            }
            // all clauses over two variables: one conflict, whatever is decided
            std::string s = std::string("(set-logic ") + logic + ")(declare-const a Bool)(declare-const b Bool)(assert (or a b))(assert (or a (not b)))(assert (or (not a) b))(assert (or (not a) (not b)))(check-sat)";
            cases->push_back({s, {{"Conflicts", 1}, {"Conflict clauses", 1}, {"Learned clauses", 1}, {"Restarts", 0}, {"Decisions", 1}}, ph});
            // unsatisfiable without a decision
            s = std::string("(set-logic ") + logic + ")(declare-const a Bool)(declare-const b Bool)(assert (or a b))(assert (not a))(assert (not b))(check-sat)";
            cases->push_back({s, {{"Conflicts", 0}, {"Conflict clauses", 0}, {"Learned clauses", 0}, {"Restarts", 0}, {"Decisions", 0}}, ph});
        }
    }
    add({"smt-report", cases->size(), [=](std::uint64_t i) {
             auto& c = (*cases)[i];
             static Memory_file file;
             file.write(c.script);
             auto e = run_main(mc_smt_main, {"smt", "--print-stats", "--phase", c.phase, file.path()});
             transitions();
             traces();
             for (auto& [name, v] : c.want)
             {
                 auto r = reported(e.out, name);
                 if (r != v) { fail("the program reports " + (r ? std::to_string(*r) : "no number of") + " " + name + " instead of " + std::to_string(v) + "\n" + visible(e.out)); }
             }
         },
         [=](std::uint64_t i) { return (*cases)[i].script + " " + (*cases)[i].phase; }});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    auto three = all_clauses(3);
    for (int k = 0; k <= (t ? 5 : 4); ++k) { counter_family(clause_sets("sets3v-" + std::to_string(k), three, 3, k)); }
    for (int k = 0; k <= (t ? 4 : 3); ++k) { counter_family(without("full3of4-minus" + std::to_string(k), full_width(4, 3), 4, k)); }
    for (int k = 0; k <= (t ? 3 : 2); ++k) { counter_family(without("full3of5-minus" + std::to_string(k), full_width(5, 3), 5, k)); }
    for (int h = 2; h <= 5; ++h) { for (int k = 0; k <= (h <= 4 ? 2 : 1); ++k) { counter_family(php_without(h, k)); } }
    for (int n = 3; n <= (t ? 6 : 5); ++n) { counter_family(colouring(n, 3)); }
    counter_family(php_without(6, 0));
    counter_family(tseitin(3, 3));
    for (int k = 0; k <= 3; ++k) { repeat_family(clause_sets("sets3v-" + std::to_string(k), three, 3, k)); }
    for (int k = 0; k <= 2; ++k) { repeat_family(without("full3of4-minus" + std::to_string(k), full_width(4, 3), 4, k)); }
    for (int h = 2; h <= 4; ++h) { repeat_family(php_without(h, 1)); }
    repeat_family(php_without(5, 0));
    program_family(clause_sets("sets3v-2", three, 3, 2));
    program_family(without("full3of4-minus2", full_width(4, 3), 4, 2));
    program_family(php_without(3, 2));
    program_family(php_without(4, t ? 2 : 1));
    program_family(php_without(5, 0));
    if (t) { program_family(clause_sets("sets3v-3", three, 3, 3)); program_family(php_without(6, 1)); }
    smt_family(t);
    for (int n = 2; n <= (t ? 5 : 4); ++n) { for (int k = 1; k <= (n <= 3 ? 5 : n == 4 ? 3 + t : 3); ++k) { rejected_family(n, k); } }
}
