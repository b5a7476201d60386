// C06-C12, C20-C22: all schedules (decision order, phase, value, restart) within bounds of the real solver on small
// problems, every reached state judged by monitors.
#include "uf_search.h"

using namespace mc;

static void explore_family(std::shared_ptr<Pool> p, Cnf_family fam, std::vector<int> bases, int dev, bool values, int restarts, std::vector<int> deduce = {0, 1}, bool cache = false)
{
    std::string name = "search-" + std::string(cache ? "cache-" : "") + p->name + "-" + fam.name + "-d" + (dev < 0 ? "all" : std::to_string(dev)) + (values ? "v" : "");
    auto nb = bases.size(), nd = deduce.size();
    auto text = [=](std::uint64_t i) {
        auto s = p->script(fam.make(i / (nb * nd)));
        return s + "; base order " + std::to_string(bases[i % nb]) + ", deduce-bounds " + std::to_string(deduce[i / nb % nd]) + "\n";
    };
    add({name, fam.size * nb * nd, [=](std::uint64_t i) {
             auto f = fam.make(i / (nb * nd));
             auto expected = p->sat(f);
             Pool_oracle oracle(*p, f);
             auto r = explore([&](Chooser& ch) {
                 Controls ctl;
                 ctl.ch = &ch;
                 ctl.base = bases[i % nb];
                 ctl.values = values;
                 ctl.cache = cache;
                 ctl.max_restarts = restarts;
                 Lra_search s(*p, f, ctl, oracle, deduce[i / nb % nd], (i + i / nb + i / (nb * nd)) % 2);
                 auto sat = s.check();
                 MC_CHECK("C06", sat == expected, "answered " << (sat ? "sat" : "unsat") << ", the problem is " << (expected ? "sat" : "unsat"));
                 MC_CHECK("C22", sat == expected, "answered " << (sat ? "sat" : "unsat") << " after " << s.solver.num_restarts() << " restarts, the problem is " << (expected ? "sat" : "unsat"));
                 if (sat && wants("C06")) { auto m = s.check_model(); MC_CHECK("C06", m.empty(), m); }
             }, dev, 300000);
             if (!r.complete) { capped("schedules of one problem"); }
         },
         text, 60});
}

static void uf_family(std::shared_ptr<Uf_pool> p, Cnf_family fam, std::vector<int> bases, int dev, int restarts, std::vector<int> deduce = {0, 1})
{
    std::string name = "search-uf-" + p->name + "-" + fam.name + "-d" + (dev < 0 ? "all" : std::to_string(dev));
    auto nb = bases.size(), nd = deduce.size();
    auto text = [=](std::uint64_t i) {
        auto s = p->uf_script(fam.make(i / (nb * nd)));
        return s + "; base order " + std::to_string(bases[i % nb]) + ", deduce-bounds " + std::to_string(deduce[i / nb % nd]) + "\n";
    };
    add({name, fam.size * nb * nd, [=](std::uint64_t i) {
             auto f = fam.make(i / (nb * nd));
             auto expected = p->sat(f);
             Pool_oracle oracle(*p, f);
             auto r = explore([&](Chooser& ch) {
                 Controls ctl;
                 ctl.ch = &ch;
                 ctl.base = bases[i % nb];
                 ctl.max_restarts = restarts;
                 Uf_search s(*p, f, ctl, oracle, deduce[i / nb % nd], (i + i / nb + i / (nb * nd)) % 2);
                 auto sat = s.check();
                 MC_CHECK("C06", sat == expected, "answered " << (sat ? "sat" : "unsat") << ", the problem is " << (expected ? "sat" : "unsat"));
                 MC_CHECK("C22", sat == expected, "answered " << (sat ? "sat" : "unsat") << " after restarts, the problem is " << (expected ? "sat" : "unsat"));
                 if (sat && wants("C06")) { auto m = s.check_model(); MC_CHECK("C06", m.empty(), m); }
             }, dev, 300000);
             if (!r.complete) { capped("schedules of one problem"); }
         },
         text, 60});
}

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    std::vector<int> all{0, 1, 2, 3, 4, 5}, some{0, 1, 5}, two{0, 5};
    // Boolean only
    for (int nb : {3, 4})
    {
        auto p = std::make_shared<Pool>(make_pool("bool" + std::to_string(nb), {}, nb));
        auto w = full_width(nb, 3);
        for (int k = 0; k <= 2; ++k) { explore_family(p, without("w3minus" + std::to_string(k), w, nb, k), {0, 2, 5}, nb == 3 ? 3 : k == 2 && !t ? 1 : 2, false, 2, {0}); }
    }
    // four atoms: all clauses of width 3 or 2, some left out
    for (auto pool : {pool_bounds(), pool_diff(), pool_mixed(), pool_three()})
    {
        pool.atoms = {pool.atoms[0], pool.atoms[1], pool.atoms[2], pool.atoms[3]};
        pool.compute();
        auto p = std::make_shared<Pool>(pool);
        for (int k = 0; k <= 1; ++k) { explore_family(p, without("w3minus" + std::to_string(k), full_width(4, 3), 4, k), all, k == 0 || t ? 2 : 1, false, 1); }
        for (int k = 0; k <= 1; ++k) { explore_family(p, without("w2minus" + std::to_string(k), full_width(4, 2), 4, k), all, k == 0 || t ? 2 : 1, true, 1); }
        explore_family(p, clause_sets("wide3", full_width(4, 3), 4, 3), t ? all : std::vector<int>{1}, 1, false, 1);
    }
    for (auto& pool : all_pools())
    {
        auto p = std::make_shared<Pool>(pool);
        int n = p->lits();
        auto w3 = full_width(n, 3);
        explore_family(p, without("w3minus0", w3, n, 0), all, t ? 2 : 1, true, 1);
        explore_family(p, without("w3minus1", w3, n, 1), t ? all : std::vector<int>{1, 5}, 1, false, 1);
        explore_family(p, conjunctions("conj", n), t ? all : std::vector<int>{1}, 1, true, 1);
        explore_family(p, clause_sets("pairs2", clauses_upto(n, 2), n, 2), t ? all : some, t ? 1 : 0, true, 1);
        if (t) { explore_family(p, clause_sets("pairs3", clauses_upto(n, 2), n, 3), {0, 1, 5}, 0, true, 0); }
    }
    for (auto pool : {pool_mixed(), pool_three(), pool_diff(), pool_bounds()})
    {
        if (!t && pool.name != "mixed" && pool.name != "three") { continue; }
        pool.atoms = {pool.atoms[0], pool.atoms[1], pool.atoms[2], pool.atoms[3]};
        pool.compute();
        auto p = std::make_shared<Pool>(pool);
        explore_family(p, clause_sets("bin3", full_width(4, 2), 4, 3), t ? some : std::vector<int>{1}, 1, true, 1);
        if (t) { explore_family(p, clause_sets("bin4", full_width(4, 2), 4, 4), {0, 1}, 1, true, 1); }
    }
    // the cached phase as the default
    {
        auto p = std::make_shared<Pool>(make_pool("bool4", {}, 4));
        for (int k = 0; k <= 2; ++k) { explore_family(p, without("w3minus" + std::to_string(k), full_width(4, 3), 4, k), {0, 2, 5}, t || k < 2 ? 2 : 1, false, 2, {0}, true); }
        for (auto pool : {pool_mixed(), pool_three()})
        {
            auto q = std::make_shared<Pool>(pool);
            int n = q->lits();
            explore_family(q, without("w3minus0", full_width(n, 3), n, 0), {0, 1, 5}, t ? 2 : 1, true, 1, {0, 1}, true);
            explore_family(q, clause_sets("pairs2", clauses_upto(n, 2), n, 2), {1, 5}, t ? 1 : 0, true, 1, {0, 1}, true);
        }
    }
    for (auto& pool : uf_pools())
    {
        auto p = std::make_shared<Uf_pool>(pool);
        int n = p->lits();
        uf_family(p, conjunctions("conj", n), t ? all : std::vector<int>{1, 5}, 1, 1);
        uf_family(p, without("w3minus0", full_width(n, 3), n, 0), all, t ? 2 : 1, 1);
        uf_family(p, clause_sets("pairs2", clauses_upto(n, 2), n, 2), t ? all : some, t ? 1 : 0, 1);
    }
}
