// C01: propositional verdicts on exhaustively enumerated clause sets.
#include "boolsolver.h"

using namespace mc;

// C28: everything a run says
static std::string report(Cnf const& f, int ph)
{
    Bool_solver s(phase(ph));
    s.load(f);
    std::string r = s.solver.check() == yaga::Solver::Result::sat ? "sat" : "unsat";
    auto const& m = s.solver.trail().model<bool>(yaga::Variable::boolean);
    for (int i = 0; i < f.vars; ++i) { r += !m.is_defined(i) ? " ?" : m.value(i) ? " 1" : " 0"; }
    for (long v : {s.solver.num_conflicts(), s.solver.num_decisions(), s.solver.num_restarts(), s.solver.num_learned_clauses()}) { r += " " + std::to_string(v); }
    for (auto& c : s.solver.db().learned()) { r += str(dimacs(c)); }
    return r;
}
static void reproducible(Cnf const& f, int ph)
{
    auto r = report(f, ph);
    for (int round = 1; round <= 2; ++round)
    {
        Other_memory m(round);
        auto q = report(f, ph);
        if (q != r) { fail("two runs of the same input differ\nfirst: " + r + "\nother: " + q); }
    }
    transitions(3);
    traces(3);
    state(hash(r + f.str()));
}

static void judge(Cnf const& f, int ph)
{
    if (config().property == "C28") { reproducible(f, ph); return; }
    Bool_solver s(phase(ph));
    s.load(f);
    auto r = s.solver.check();
    transitions(s.solver.num_decisions() + s.solver.num_conflicts() + 1);
    traces();
    if (r == yaga::Solver::Result::sat)
    {
        outcome(1);
        auto m = s.check_model(f);
        if (!m.empty()) { fail(m + " (phase " + std::to_string(ph) + ")"); }
    }
    else
    {
        outcome(0);
        if (brute_sat(f)) { fail("answered unsat but the formula is satisfiable (phase " + std::to_string(ph) + ")"); }
    }
    if (s.solver.num_restarts() > 0) { outcome(2); }
    state(mix(f.hash(), s.solver.num_conflicts() * 7 + s.solver.num_decisions()));
}

static void add_family(Cnf_family fam, int phases = 3)
{
    add({fam.name, fam.size, [=](std::uint64_t i) { auto f = fam.make(i); for (int p = 0; p < phases; ++p) { judge(f, p); } },
         [=](std::uint64_t i) { return fam.make(i).str(); }});
}

// one instance under all rotations of the variable names and a set of polarity masks
static void add_renamed(Cnf_family fam, int rotations, std::vector<std::uint64_t> flips)
{
    auto total = fam.size * rotations * flips.size();
    auto make = [=](std::uint64_t i) {
        auto k = i % fam.size;
        i /= fam.size;
        return transform(fam.make(k), i % rotations, flips[i / rotations]);
    };
    add_family({fam.name + "-renamed", total, make}, 3);
}

// long clauses with known answers: one long clause whose literals are refuted but for one or none; chains of growing Horn clauses
// with one left out or none; all selections from g groups of w variables forbidden but for one or none
static void add_long(bool t)
{
    auto signs = [](Cnf f, int mask) {
        for (auto& c : f.clauses) { for (int& l : c) { if ((mask & 1 && std::abs(l) % 2) || (mask & 2 && std::abs(l) % 3 == 0)) { l = -l; } } if (mask & 4) { std::reverse(c.begin(), c.end()); } }
        if (mask & 8) { std::reverse(f.clauses.begin(), f.clauses.end()); }
        return f;
    };
    std::vector<int> ns{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65, 100};
    std::uint64_t places = 24;
    auto one = [=](std::uint64_t i) {
        int mask = i % 16, n = ns[i / 16 % ns.size()], kind = i / 16 / ns.size() % 3, at = i / 16 / ns.size() / 3;
        int left = at < 12 ? at * n / 12 : at < 23 ? n - 1 - (at - 12) : n; // the exempted literal; n or below 0: none
        Cnf f;
        f.vars = n + 2;
        Lits a;
        for (int k = 1; k <= n; ++k) { a.push_back(k); }
        if (kind == 0)
        {
            f.clauses.push_back(a);
            for (int k = 0; k < n; ++k) { if (k != left) { f.clauses.push_back({-(k + 1), n + 1}); } }
            f.clauses.push_back({-(n + 1), n + 2});
            f.clauses.push_back({-(n + 1), -(n + 2)});
        }
        if (kind == 1)
        {
            for (int k = 0; k <= n; ++k)
            {
                if (k == left) { continue; }
                Lits c;
                for (int j = 1; j <= k; ++j) { c.push_back(-j); }
                if (k < n) { c.push_back(k + 1); }
                f.clauses.push_back(c);
            }
            if (left == n) { f.clauses.push_back(Lits(a)); for (int& l : f.clauses.back()) { l = -l; } } // nothing is left out
        }
        if (kind == 2) // pairs of long clauses that differ in one sign, over long chains
        {
            for (int k = 1; k <= n; ++k) { a[k - 1] = k; }
            auto b = a;
            b.push_back(n + 1), a.push_back(-(n + 1));
            f.clauses = {a, b};
            for (int k = 1; k < n; ++k) { f.clauses.push_back({-k, k + 1}); }
            if (left >= 0 && left < n) { if (left != n - 1) { f.clauses.push_back({-n, n + 2}); } }
            else { f.clauses.push_back({-n, n + 2}); f.clauses.push_back({-n, -(n + 2)}); }
        }
        f.sat = left >= 0 && left < n;
        return signs(f, mask);
    };
    add_family({"long-clauses", 16 * ns.size() * 3 * places, one});
    std::vector<std::pair<int, int>> shapes{{2, 2}, {3, 2}, {4, 2}, {5, 2}, {6, 2}, {7, 2}, {2, 3}, {3, 3}, {4, 3}, {2, 5}, {3, 4}, {2, 9}};
    if (t) { shapes.push_back({8, 2}); shapes.push_back({9, 2}); shapes.push_back({5, 3}); shapes.push_back({3, 6}); shapes.push_back({2, 15}); }
    auto groups = [=](std::uint64_t i) {
        int mask = i % 16, only = i / 16 / shapes.size() % 2, at = i / 16 / shapes.size() / 2;
        auto [g, w] = shapes[i / 16 % shapes.size()];
        Cnf f;
        f.vars = g * w;
        int all = 1;
        for (int k = 0; k < g; ++k)
        {
            Lits c;
            for (int j = 1; j <= w; ++j) { c.push_back(k * w + j); }
            f.clauses.push_back(c);
            all *= w;
            if (only) { for (int j = 1; j <= w; ++j) { for (int l = j + 1; l <= w; ++l) { f.clauses.push_back({-(k * w + j), -(k * w + l)}); } } }
        }
        int left = at < 7 ? (long)at * (all - 1) / 6 : all;
        for (int s = 0; s < all; ++s)
        {
            if (s == left) { continue; }
            Lits c;
            for (int k = 0, r = s; k < g; ++k, r /= w) { c.push_back(-(k * w + 1 + r % w)); }
            f.clauses.push_back(c);
        }
        f.sat = left < all;
        return signs(f, mask);
    };
    add_family({"selections", 16 * shapes.size() * 2 * 8, groups});
}

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    add_long(t);
    auto three = all_clauses(3);
    for (int k = 0; k <= (t ? 7 : 5); ++k) { add_family(clause_sets("sets3v-" + std::to_string(k), three, 3, k)); }
    for (int k = 1; k <= (t ? 4 : 3); ++k) { add_family(raw_sequences("raw2v-" + std::to_string(k), 2, k <= 2 ? 3 : 2, k)); }
    if (t) { add_family(raw_sequences("raw2vw3-3", 2, 3, 3)); }
    add_family(raw_sequences("raw3v-2", 3, t ? 4 : 3, 2));
    add_family(clause_powerset("wide4", full_width(4, 4), 4));
    for (int k = 0; k <= (t ? 5 : 4); ++k) { add_family(without("full3of4-minus" + std::to_string(k), full_width(4, 3), 4, k)); }
    for (int k = 0; k <= (t ? 4 : 3); ++k) { add_family(without("full3of5-minus" + std::to_string(k), full_width(5, 3), 5, k)); }
    for (int k = 0; k <= (t ? 4 : 3); ++k) { add_family(without("full2and3of4-minus" + std::to_string(k), [] { auto p = full_width(4, 3); p.push_back({1, 2}); p.push_back({-1, 3}); p.push_back({-2, -3}); p.push_back({4, -1}); return p; }(), 4, k)); }
    for (int n = 3; n <= (t ? 7 : 6); ++n) { for (int k = 2; k <= 4; ++k) { add_family(colouring(n, k), n <= 6 ? 3 : 1); } }
    // long searches: many conflicts, restarts, removal of subsumed clauses, rescaling of activities
    for (int h = 2; h <= 5; ++h) { for (int k = 0; k <= (h <= 4 ? 2 : 1); ++k) { add_family(php_without(h, k)); } }
    add_renamed(php_without(6, 0), t ? 42 : 6, {0, ~0ull, 0x5555555555555555ull});
    add_renamed(php_without(6, 1), t ? 42 : 1, {0});
    add_renamed(php_without(7, 0), t ? 56 : 2, {0, ~0ull});
    if (t) { add_renamed(php_without(8, 0), 4, {0}); }
    add_family(tseitin(3, 3));
    add_family(tseitin(3, 4));
    {
        auto ts = tseitin(4, 4);
        add_family({"tseitin4x4", t ? ts.size : 256, ts.make}, t ? 3 : 1);
    }
}
