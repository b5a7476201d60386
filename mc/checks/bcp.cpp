// C09 (and C21): the Boolean plugin and the clean-up of learned clauses, driven over all bounded histories of decisions,
// propagations, learned clauses, backtracks and restarts; closure and reasons are judged by a naive reference.
#include "Bool_theory.h"
#include "Database.h"
#include "Event_dispatcher.h"
#include "Subsumption.h"
#include "Trail.h"
#include "runner.h"
#include <algorithm>
#include <deque>
#include <set>

using namespace mc;
using namespace yaga;

namespace {

using Mask = std::pair<unsigned, unsigned>; // positive and negative literals

std::string str(Clause const& c) { std::string s = "{"; for (auto l : c) { s += (l.is_negation() ? " -" : " ") + std::to_string(l.var().ord()); } return s + " }"; }
std::vector<int> canon(Clause const& c) { std::vector<int> s; for (auto l : c) { s.push_back(l.var().ord() * 2 + l.is_negation()); } std::sort(s.begin(), s.end()); return s; }

struct World {
    int n;
    Event_dispatcher dispatcher;
    Subsumption sub;
    Bool_theory theory;
    Trail trail{dispatcher};
    Database db;
    std::vector<std::vector<int>> asserted, learned; // what the clauses should be
    std::deque<Clause> lemmas;                       // reasons that are not in the database
    std::string log;
    std::vector<bool> models;                        // satisfying assignments of everything asserted or given as a lemma
    bool conflict = false, dead = false;

    World(int n, std::vector<Clause> const& f) : n(n)
    {
        dispatcher.add(&sub);
        dispatcher.add(&theory);
        trail.set_model<bool>(Variable::boolean, n);
        for (auto& c : f) { db.assert_clause(c); asserted.push_back(canon(c)); log += str(c); }
        dispatcher.on_init(db, trail);
        for (unsigned a = 0; n <= 8 && a < 1u << n; ++a)
        {
            bool ok = true;
            for (auto& c : f) { ok = ok && sat(c, a); }
            models.push_back(ok);
        }
        log += ":";
        propagate();
    }
    bool sat(Clause const& c, unsigned a) const { for (auto l : c) { if ((a >> l.var().ord() & 1) != (unsigned)l.is_negation()) { return true; } } return false; }
    bool implied(Clause const& c) const { for (unsigned a = 0; a < 1u << n; ++a) { if (models[a] && !sat(c, a)) { return false; } } return true; }
    Model<bool>& model() { return trail.model<bool>(Variable::boolean); }
    int value(Literal l) { return !model().is_defined(l.var().ord()) ? -1 : model().value(l.var().ord()) != l.is_negation(); }
    int level(Literal l) { return trail.decision_level(l.var()).value(); }
    [[noreturn]] void bad(std::string const& s)
    {
        std::string t;
        for (int i = 0; i <= trail.decision_level(); ++i)
        {
            t += " |";
            for (auto a : trail.assigned(i)) { t += (model().value(a.var.ord()) ? " " : " -") + std::to_string(a.var.ord()) + (a.reason ? "<-" + str(*a.reason) : ""); }
        }
        fail(s + "; " + log + "; trail:" + t);
    }

    void propagate()
    {
        auto before = snapshot();
        auto cs = theory.propagate(db, trail);
        transitions();
        conflict = !cs.empty();
        for (auto& c : cs)
        {
            for (auto l : c) { if (value(l) != 0) { bad("the reported conflict " + str(c) + " is not false"); } }
            auto k = canon(c);
            if (std::find(asserted.begin(), asserted.end(), k) == asserted.end() && std::find(learned.begin(), learned.end(), k) == learned.end()) { bad("the reported conflict " + str(c) + " is not a clause of the database"); }
        }
        // the earlier assignment is untouched, every new literal has a reason
        for (int v = 0; v < n; ++v)
        {
            if (before[v] >= 0)
            {
                if (value(Literal{v}) != before[v]) { bad("propagation changed the value of " + std::to_string(v)); }
                continue;
            }
            if (value(Literal{v}) < 0) { continue; }
            auto r = trail.reason({v, Variable::boolean});
            if (!r) { bad("a propagated literal has no reason: " + std::to_string(v)); }
        }
        reasons();
        auto check = [&](std::deque<Clause> const& list, std::vector<std::vector<int>> const& expected, std::string const& what) {
            if (list.size() != expected.size()) { bad("the number of " + what + " clauses changed"); }
            for (std::size_t i = 0; i < list.size(); ++i)
            {
                if (canon(list[i]) != expected[i]) { bad("the " + what + " clause " + str(list[i]) + " changed"); }
                int un = 0, t = 0;
                std::set<int> open;
                for (auto l : list[i]) { t += value(l) == 1; if (value(l) < 0) { open.insert(l.var().ord() * 2 + l.is_negation()); } }
                un = open.size();
                if (conflict || t) { continue; }
                if (un == 0) { bad("no conflict is reported although " + str(list[i]) + " is false"); }
                if (un == 1) { bad("the clause " + str(list[i]) + " is unit after propagation"); }
            }
        };
        check(db.asserted(), asserted, "asserted");
        check(db.learned(), learned, "learned");
        std::uint64_t h = conflict;
        for (int v = 0; v < n; ++v) { h = mix(h, value(Literal{v}) + 2 + (value(Literal{v}) < 0 ? 0 : 8 * level(Literal{v}))); }
        for (auto& l : learned) { for (int x : l) { h = mix(h, x + 100); } h = mix(h, 999); }
        std::uint64_t m = 0;
        for (bool b : models) { m = m * 3 + b; }
        state(mix(h, m));
        outcome(conflict);
    }
    std::vector<int> snapshot() { std::vector<int> r; for (int v = 0; v < n; ++v) { r.push_back(value(Literal{v})); } return r; }
    void reasons()
    {
        for (int v = 0; v < n; ++v)
        {
            if (value(Literal{v}) < 0) { continue; }
            auto r = trail.reason({v, Variable::boolean});
            if (!r) { continue; }
            int t = 0;
            for (auto l : *r)
            {
                if (l.var().ord() == v) { if (value(l) != 1) { bad("the reason " + str(*r) + " of " + std::to_string(v) + " contains the negation of the literal"); } ++t; continue; }
                if (value(l) != 0) { bad("the reason " + str(*r) + " does not imply its literal of variable " + std::to_string(v)); }
                if (level(l) > level(Literal{v})) { bad("the reason " + str(*r) + " of variable " + std::to_string(v) + " is younger than its literal"); }
            }
            if (t == 0) { bad("the reason " + str(*r) + " does not contain variable " + std::to_string(v)); }
        }
    }
    bool occurs(int v)
    {
        for (auto* list : {&db.asserted(), &db.learned()}) { for (auto& c : *list) { for (auto l : c) { if (l.var().ord() == v) { return true; } } } }
        return false;
    }
    void decide(Literal l)
    {
        log += " decide " + std::string(l.is_negation() ? "-" : "") + std::to_string(l.var().ord());
        model().set_value(l.var().ord(), !l.is_negation());
        trail.decide(l.var());
        propagate();
    }
    // another plugin propagates a literal, its reason is not in the database
    void lemma(Clause c)
    {
        int at = 0;
        for (auto l : c) { if (value(l) == 0) { at = std::max(at, level(l)); } }
        log += " lemma " + str(c) + "@" + std::to_string(at);
        lemmas.push_back(c);
        for (unsigned a = 0; a < models.size(); ++a) { if (!sat(c, a)) { models[a] = false; } }
        model().set_value(c[0].var().ord(), !c[0].is_negation());
        trail.propagate(c[0].var(), &lemmas.back(), at);
        propagate();
    }
    void backtrack(int to)
    {
        log += " backtrack " + std::to_string(to);
        dispatcher.on_before_backtrack(db, trail, to);
        trail.backtrack(to);
        propagate();
    }
    void restart()
    {
        log += " restart";
        dispatcher.on_before_backtrack(db, trail, 0);
        trail.clear();
        dispatcher.on_restart(db, trail);
        // the clean-up: what is left must be a subset that subsumes everything
        std::vector<std::vector<int>> now;
        for (auto& c : db.learned()) { now.push_back(canon(c)); }
        for (auto& c : now) { if (std::find(learned.begin(), learned.end(), c) == learned.end()) { bad("a restart made up a learned clause"); } }
        for (auto& c : learned)
        {
            if (std::find(now.begin(), now.end(), c) != now.end()) { continue; }
            bool sub = std::any_of(now.begin(), now.end(), [&](auto& d) { return d.size() < c.size() && std::includes(c.begin(), c.end(), d.begin(), d.end()); });
            if (!sub) { bad("a restart lost a learned clause that contains no other"); }
        }
        learned = now;
        propagate();
    }
    // learned clauses: false, implied, one literal at their highest level; the second literal is at the second highest level
    std::vector<Clause> candidates(int most)
    {
        std::vector<std::pair<int, Clause>> r;
        std::vector<Literal> f;
        for (int v = 0; v < n; ++v) { if (value(Literal{v}) >= 0) { f.push_back(value(Literal{v}) ? ~Literal{v} : Literal{v}); } }
        for (unsigned s = 1; s < 1u << f.size(); ++s)
        {
            Clause c;
            for (std::size_t i = 0; i < f.size(); ++i) { if (s >> i & 1) { c.push_back(f[i]); } }
            std::stable_sort(c.begin(), c.end(), [&](auto a, auto b) { return level(a) > level(b); });
            if (level(c[0]) == 0) { continue; }
            if (c.size() > 1 && level(c[0]) == level(c[1])) { continue; }
            if (!implied(c)) { continue; }
            bool sub = false; // of interest: small ones first, then anything
            for (auto& [_, d] : r) { auto x = canon(d), y = canon(c); sub = sub || std::includes(y.begin(), y.end(), x.begin(), x.end()); }
            r.push_back({(int)c.size() + (sub ? 10 : 0), c});
        }
        std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first < b.first; });
        std::vector<Clause> out;
        for (auto& [_, c] : r) { out.push_back(c); if ((int)out.size() == most) { break; } }
        return out;
    }
    void learn(std::vector<Clause> cs, bool then_restart)
    {
        int to = 0, top = 0;
        for (auto& c : cs)
        {
            db.learn_clause(c);
            learned.push_back(canon(c));
            log += " learn " + str(c);
            dispatcher.on_learned_clause(db, trail, db.learned().back());
            to = std::max(to, c.size() > 1 ? level(c[1]) : 0);
            top = std::max(top, level(c[0]));
        }
        if (then_restart) { restart(); return; }
        log += " backjump " + std::to_string(to);
        dispatcher.on_before_backtrack(db, trail, to);
        trail.backtrack(to);
        for (std::size_t i = db.learned().size() - cs.size(); i < db.learned().size(); ++i)
        {
            auto& c = db.learned()[i];
            if (value(c[0]) < 0)
            {
                trail.propagate(c[0].var(), &c, to);
                model().set_value(c[0].var().ord(), !c[0].is_negation());
            }
        }
        propagate();
    }
};

void step(World& w, Chooser& c, bool lemmas)
{
    if (w.conflict)
    {
        auto cs = w.candidates(3);
        if (cs.empty() || w.trail.decision_level() == 0) { w.dead = true; return; } // unsatisfiable
        // one clause, all clauses of the same backjump level, or one clause and a restart
        int k = c.choose(2 * cs.size() + 1);
        if (k < (int)cs.size()) { w.learn({cs[k]}, false); return; }
        if (k < 2 * (int)cs.size()) { w.learn({cs[k - cs.size()]}, true); return; }
        std::vector<Clause> same;
        auto lev = [&](Clause const& x) { return x.size() > 1 ? w.level(x[1]) : 0; };
        for (auto& x : cs) { if (lev(x) == lev(cs[0]) && w.level(x[0]) > lev(x)) { same.push_back(x); } }
        std::sort(same.begin(), same.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
        w.learn(same, false);
        return;
    }
    std::vector<std::function<void()>> ops;
    for (int v = 0; v < w.n; ++v)
    {
        if (w.value(Literal{v}) >= 0 || !w.occurs(v)) { continue; }
        ops.push_back([&w, v] { w.decide(Literal{v}); });
        ops.push_back([&w, v] { w.decide(~Literal{v}); });
    }
    if (lemmas && w.trail.decision_level() > 0)
    {
        // the theories propagate variables of the formula at the current level, new variables also below it
        for (int v = 0; v < w.n; ++v)
        {
            if (w.value(Literal{v}) >= 0) { continue; }
            for (int l = w.occurs(v) ? w.trail.decision_level() : 1; l <= w.trail.decision_level(); ++l)
            {
                auto d = w.trail.assigned(l).front().var.ord();
                auto f = w.value(Literal{d}) ? ~Literal{d} : Literal{d};
                ops.push_back([&w, v, f] { w.lemma({Literal{v}, f}); });
                if (w.occurs(v)) { ops.push_back([&w, v, f] { w.lemma({~Literal{v}, f}); }); }
            }
        }
    }
    for (int l = 0; l < w.trail.decision_level(); ++l) { ops.push_back([&w, l] { w.backtrack(l); }); }
    if (w.trail.decision_level() > 0) { ops.push_back([&w] { w.restart(); }); }
    if (ops.empty()) { w.dead = true; return; }
    ops[c.choose(ops.size())]();
}

void family(std::string name, int n, std::vector<std::vector<Clause>> const* formulas, int depth, int dev, bool lemmas)
{
    add({name, formulas->size(), [=](std::uint64_t i) {
             explore([&](Chooser& c) {
                 World w(n + lemmas, (*formulas)[i]);
                 for (int d = 0; d < depth && !w.dead; ++d) { step(w, c, lemmas); }
                 traces();
             }, dev);
         },
         [=](std::uint64_t i) { std::string s; for (auto& c : (*formulas)[i]) { s += str(c) + " "; } return s; }, 120});
}

// all sets of m clauses of the given sizes over n variables in which variable v first occurs positively and in order (up to renaming)
std::vector<std::vector<Clause>>* sets(int n, int m, int min, int max, std::uint64_t stride = 1)
{
    std::vector<Clause> u;
    int all = 1;
    for (int i = 0; i < n; ++i) { all *= 3; }
    for (int k = 1; k < all; ++k)
    {
        Clause c;
        for (int v = 0, r = k; v < n; ++v, r /= 3)
        {
            if (r % 3 == 1) { c.push_back(Literal{v}); }
            if (r % 3 == 2) { c.push_back(~Literal{v}); }
        }
        if ((int)c.size() >= min && (int)c.size() <= max) { if (k % 5 == 1) { std::reverse(c.begin(), c.end()); } u.push_back(c); }
    }
    auto* out = new std::vector<std::vector<Clause>>;
    std::vector<int> idx;
    std::uint64_t counter = 0;
    std::function<void(int)> rec = [&](int from) {
        if ((int)idx.size() == m)
        {
            // normal form: every variable occurs, its first occurrence is positive, first occurrences are ordered
            std::vector<int> seen;
            std::vector<Clause> f;
            for (int i : idx) { f.push_back(u[i]); }
            for (auto& c : f)
            {
                for (auto l : c)
                {
                    if (std::find(seen.begin(), seen.end(), l.var().ord()) != seen.end()) { continue; }
                    if (l.is_negation()) { return; }
                    seen.push_back(l.var().ord());
                }
            }
            if ((int)seen.size() < n) { return; }
            if (counter++ % stride == 0) { out->push_back(f); }
            return;
        }
        for (int i = from; i < (int)u.size(); ++i) { idx.push_back(i); rec(i + 1); idx.pop_back(); }
    };
    rec(0);
    return out;
}

// long clauses over n variables (n is prime): falsify them in one order, backtrack, falsify them in another one, backtrack to the
// start of the second round, and once more; the orders visit the variables with a stride; one variable may be made true instead
std::vector<std::vector<Clause>> long_clauses(int n)
{
    Clause a, b, c, d, e;
    for (int v = 0; v < n; ++v) { a.push_back(Literal{v}); }
    for (int v = n - 1; v >= 0; --v) { b.push_back(Literal{v}); }
    for (int v = 0; v < n; ++v) { c.push_back(v % 3 == 2 ? ~Literal{v} : Literal{v}); }
    for (int v = 0; v < n; v += 2) { d.push_back(Literal{v}); }
    for (int v = 1; v < n; ++v) { e.push_back(Literal{v * 2 % n}); }
    std::vector<Clause> f{a};
    for (int k : {0, n / 2, n - 1}) { f.push_back(b); for (auto& l : f.back()) { if (l.var().ord() == k) { l = ~l; } } }
    return {{a}, {b, c}, {a, d, e}, {c, d, {~Literal{0}, Literal{1}}, {~Literal{n - 1}, Literal{n / 2}}}, f};
}

void wide(int n, std::vector<int> strides, std::vector<int> starts, std::vector<int> levels)
{
    auto* fs = new std::vector<std::vector<Clause>>(long_clauses(n));
    auto k = strides.size() * starts.size();
    add({"bcp-wide" + std::to_string(n), k * k * fs->size(), [=](std::uint64_t i) {
             auto order = [&](std::uint64_t i) { std::vector<int> r; for (int j = 0; j < n; ++j) { r.push_back((starts[i % starts.size()] + strides[i / starts.size()] * j) % n); } return r; };
             auto first = order(i % k), second = order(i / k % k);
             for (int lev : levels)
             {
                 for (int truth : {-1, 0, n / 2, n - 1})
                 {
                     World w(n, (*fs)[i / k / k]);
                     auto fill = [&](std::vector<int> const& o, int skip) {
                         for (int v : o)
                         {
                             if (w.conflict || v == skip || w.value(Literal{v}) >= 0) { continue; }
                             w.decide(v == truth ? Literal{v} : ~Literal{v});
                             if (!w.conflict || truth >= 0) { continue; }
                             // the last formula: one variable was implied both ways, the others are false
                             Clause c;
                             for (int u = 0; u < n; ++u) { if (w.value(Literal{u}) == 0 && !w.trail.reason({u, Variable::boolean})) { c.push_back(Literal{u}); } }
                             std::stable_sort(c.begin(), c.end(), [&](auto a, auto b) { return w.level(a) > w.level(b); });
                             if ((int)c.size() != n - 1 || w.level(c[0]) == w.level(c[1])) { fail("an impossible conflict; " + w.log); }
                             w.learn({c}, lev % 3 == 1);
                         }
                     };
                     fill(first, -1);
                     w.backtrack(std::min(lev, w.trail.decision_level()));
                     if (w.conflict) { fail("a conflict after a backtrack to a level without one; " + w.log); }
                     int start = w.trail.decision_level();
                     fill(second, lev % 2 ? first[0] : -1);
                     w.backtrack(std::min(start + (n - start) / 2, w.trail.decision_level()));
                     fill(first, second[0]);
                     w.restart();
                     fill(second, -1);
                     outcome(3 + w.learned.size());
                     traces();
                 }
             }
         },
         [=](std::uint64_t i) { std::string s; for (auto& c : (*fs)[i / k / k]) { s += str(c) + " "; } return s + "orders " + std::to_string(i % k) + ", " + std::to_string(i / k % k); }, 120});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    wide(7, {1, 2, 3, 4, 5, 6}, {0, 1, 2, 3, 4, 5, 6}, {0, 1, 2, 3, 4, 5});
    wide(11, t ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 10} : std::vector<int>{1, 2, 4, 7, 10}, t ? std::vector<int>{0, 1, 2, 3, 5, 8, 10} : std::vector<int>{0, 1, 2, 5, 10}, t ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{0, 1, 3, 6, 9});
    wide(23, t ? std::vector<int>{1, 2, 5, 11, 21, 22} : std::vector<int>{1, 5, 22}, t ? std::vector<int>{0, 1, 2, 11, 22} : std::vector<int>{0, 2, 22}, t ? std::vector<int>{0, 1, 2, 3, 9, 15, 20, 21} : std::vector<int>{0, 3, 14});
    wide(67, {1, 13, 66}, {0, 2, 34}, t ? std::vector<int>{0, 1, 20, 50, 64, 65} : std::vector<int>{0, 40});
    family("bcp-3x3", 3, sets(3, 3, 1, 3), t ? 7 : 5, -1, false);
    family("bcp-3x4", 3, sets(3, 4, 2, 3), t ? 6 : 5, t ? -1 : 3, true);
    family("bcp-4x2-long", 4, sets(4, 2, 3, 4), t ? 6 : 5, t ? -1 : 3, true);
    family("bcp-4x3", 4, sets(4, 3, 2, 3), t ? 6 : 5, t ? 4 : 2, false);
    family("bcp-4x4", 4, sets(4, 4, 2, 2), t ? 8 : 6, t ? 4 : 2, true);
    static std::vector<std::vector<Clause>> longs;
    for (unsigned s = 0; s < 16; ++s)
    {
        // one long clause and chains
        Clause a, b;
        for (int v = 0; v < 5; ++v) { a.push_back(Literal{v}); }
        for (int v = 4; v >= 0; --v) { b.push_back(s >> (v % 4) & 1 ? ~Literal{v} : Literal{v}); }
        longs.push_back({a, b});
        longs.push_back({a, b, {~Literal{4}, Literal{0}}, {~Literal{2}, ~Literal{1}, Literal{3}}});
    }
    family("bcp-5-long", 5, &longs, t ? 7 : 6, t ? 5 : 3, false);
}
