// C11, C12, C07: the arithmetic plugin alone, driven over all bounded histories of asserted literals, decided values, new
// constraints, backtracks and restarts; the monitors of mc/search.h recompute bounds, values and conflicts from the trail.
#include "search.h"

using namespace mc;
using namespace yaga;

namespace {

struct Theory_oracle final : Oracle {
    bool entailed(Clause const& c, std::function<Con_copy const&(int)> const& con) override
    {
        std::vector<std::vector<ref::Con>> alts;
        for (auto l : c)
        {
            auto& k = con(l.var().ord());
            if (!k.is) { continue; } // a Boolean variable without meaning does not help
            bool pos = l.is_negation() != k.flip; // truth of the constraint when the literal is false
            ref::Lin e(-k.rhs);
            for (auto& [v, q] : k.lin) { e.add(ref::Lin::var(v), q); }
            if (k.rel == '=') { if (pos) { alts.push_back({{e, ref::Rel::eq}}); } else { alts.push_back({{e, ref::Rel::lt}, {e.scaled(-1), ref::Rel::lt}}); } }
            else if (pos) { alts.push_back({{e, k.rel == '<' ? ref::Rel::lt : ref::Rel::le}}); }
            else { alts.push_back({{e.scaled(-1), k.rel == '<' ? ref::Rel::le : ref::Rel::lt}}); }
        }
        std::vector<ref::Con> cur;
        std::function<bool(std::size_t)> rec = [&](std::size_t i) {
            if (i == alts.size()) { return ref::feasible(cur); }
            for (auto& a : alts[i]) { cur.push_back(a); bool r = rec(i + 1); cur.pop_back(); if (r) { return true; } }
            return false;
        };
        return !rec(0);
    }
};

struct Spec {
    std::vector<int> vars;
    std::vector<int> coefs;
    Order_predicate::Type pred;
    int rhs;
    std::string text() const
    {
        std::string s;
        for (std::size_t i = 0; i < vars.size(); ++i) { s += (i ? " + " : "") + std::to_string(coefs[i]) + "*r" + std::to_string(vars[i]); }
        return s + (pred == Order_predicate::eq ? " = " : pred == Order_predicate::lt ? " < " : " <= ") + std::to_string(rhs);
    }
};

struct Setup {
    int reals;
    Linear_arithmetic::Options options;
    bool bools = false;  // literals may be propagated together
    bool low = false;    // literals may be propagated below the current level, as clauses do that become unit late
    int wide = 0;        // one value per decision; > 1: the literals are decided at the start only
};

struct World {
    Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    Database db;
    Linear_arithmetic lra;
    Monitor m;
    Setup const& s;
    std::vector<Literal> lits;
    std::vector<Spec> const& late;
    std::size_t next_late = 0;
    std::string log;
    bool conflict = false;
    int base_level = 0;

    World(Theory_oracle& o, Setup const& s, std::vector<Spec> const& first, std::vector<Spec> const& late) : m(o, &lra, s.options.prop_bounds, 0), s(s), late(late)
    {
        dispatcher.add(&lra);
        lra.set_options(s.options);
        trail.set_model<bool>(Variable::boolean, 0);
        trail.set_model<Rational>(Variable::rational, s.reals);
        for (auto& f : first) { make(f); }
        dispatcher.on_init(db, trail);
        propagate();
    }
    // as the plugins do: variables are given by decreasing decision level, unassigned variables first
    Literal make(Spec f)
    {
        std::vector<int> at(f.vars.size());
        for (std::size_t i = 0; i < at.size(); ++i) { at[i] = (int)i; }
        std::stable_sort(at.begin(), at.end(), [&](int a, int b) {
            auto level = [&](int i) { return trail.decision_level(Variable{f.vars[i], Variable::rational}).value_or(1 << 30); };
            return level(a) > level(b);
        });
        Spec g = f;
        for (std::size_t i = 0; i < at.size(); ++i) { g.vars[i] = f.vars[at[i]]; g.coefs[i] = f.coefs[at[i]]; }
        f = g;
        std::vector<Rational> c;
        for (int x : f.coefs) { c.push_back(Rational(x)); }
        auto k = lra.constraint(trail, f.vars, c, Order_predicate(f.pred), Rational(f.rhs));
        if (k.lit().var().ord() >= (int)trail.model<bool>(Variable::boolean).num_vars()) { fail("a constraint without a variable on the trail"); }
        if (std::none_of(lits.begin(), lits.end(), [&](auto l) { return l.var() == k.lit().var(); })) { lits.push_back(k.lit()); }
        // as the plugins do: a constraint whose variables all have values is propagated by its creator
        auto models = lra.relevant_models(trail);
        if (!defined(k.lit()) && std::all_of(f.vars.begin(), f.vars.end(), [&](int v) { return models.owned().is_defined(v); })) { lra.propagate(trail, models, k); }
        return k.lit();
    }
    void propagate()
    {
        auto cs = lra.propagate(db, trail);
        transitions();
        conflict = !cs.empty();
        try
        {
            if (conflict) { m.conflicts(trail, cs); }
            else { m.stable(db, trail); }
        }
        catch (Violation& v) { fail(v.msg + "\nhistory:" + log); }
        outcome(conflict);
        state(m.hash(trail));
    }
    bool defined(Literal l) { return trail.model<bool>(Variable::boolean).is_defined(l.var().ord()); }
    void set(Literal l) { trail.model<bool>(Variable::boolean).set_value(l.var().ord(), !l.is_negation()); }
    void decide(Literal l)
    {
        log += " decide " + m.lit_str(l);
        set(l);
        trail.decide(l.var());
    }
    void imply(Literal l) { imply(l, trail.decision_level()); }
    void imply(Literal l, int level)
    {
        log += " propagate " + m.lit_str(l) + (level < trail.decision_level() ? " at level " + std::to_string(level) : "");
        set(l);
        trail.propagate(l.var(), nullptr, level); // the clause behind it is not modelled
    }
    void real(int v, int alt)
    {
        auto before = log;
        log += " decide r" + std::to_string(v);
        if (alt == 0) { lra.decide(db, trail, {v, Variable::rational}); }
        else
        {
            static char const* const vals[] = {"0", "0", "1", "-1", "1/2"};
            Rational r(vals[alt]);
            trail.model<Rational>(Variable::rational).set_value(v, r);
            trail.decide({v, Variable::rational});
        }
        log += "=" + trail.model<Rational>(Variable::rational).value(v).get_str();
        try { m.decided(trail, {v, Variable::rational}); } catch (Violation& x) { fail(x.msg + "\nhistory:" + log); }
    }
    void backtrack(int l)
    {
        log += " backtrack " + std::to_string(l);
        dispatcher.on_before_backtrack(db, trail, l);
        trail.backtrack(l);
    }
    void restart()
    {
        log += " restart";
        dispatcher.on_before_backtrack(db, trail, 0);
        trail.clear();
        dispatcher.on_restart(db, trail);
    }
    bool step(Chooser& c)
    {
        std::vector<std::function<void()>> ops;
        auto models = lra.relevant_models(trail);
        if (!conflict)
        {
            for (auto l : std::vector<Literal>(lits))
            {
                if (defined(l) || s.wide > 1) { continue; }
                ops.push_back([this, l] { decide(l); });
                ops.push_back([this, l] { decide(~l); });
            }
            for (int v = 0; v < s.reals; ++v)
            {
                if (trail.model<Rational>(Variable::rational).is_defined(v)) { continue; }
                ops.push_back([this, v] { real(v, 0); });
                for (int alt = 1; alt < (s.low || s.wide ? 1 : 5); ++alt)
                {
                    static char const* const vals[] = {"0", "0", "1", "-1", "1/2"};
                    if (lra.find_bounds(v).is_allowed(models, Rational(vals[alt]))) { ops.push_back([this, v, alt] { real(v, alt); }); }
                }
            }
            if (next_late < late.size())
            {
                ops.push_back([this] { log += " create " + late[next_late].text(); make(late[next_late++]); });
            }
            if (s.low)
            {
                for (auto l : std::vector<Literal>(lits))
                {
                    if (defined(l)) { continue; }
                    for (int k = trail.decision_level() - 1; k >= 0; --k)
                    {
                        ops.push_back([this, l, k] { imply(l, k); });
                        ops.push_back([this, l, k] { imply(~l, k); });
                    }
                }
            }
            if (s.bools)
            {
                // a decision and a consequence of it arrive together
                for (std::size_t i = 0; i < lits.size(); ++i)
                {
                    for (std::size_t j = 0; j < lits.size(); ++j)
                    {
                        if (i == j || defined(lits[i]) || defined(lits[j])) { continue; }
                        for (int sign = 0; sign < 4; ++sign)
                        {
                            auto a = sign & 1 ? ~lits[i] : lits[i], b = sign & 2 ? ~lits[j] : lits[j];
                            ops.push_back([this, a, b] { decide(a); imply(b); });
                        }
                    }
                }
            }
        }
        for (int l = trail.decision_level() - 1; l >= (s.wide > 1 ? base_level : 0); --l)
        {
            ops.push_back([this, l] { backtrack(l); });
            // backtracking with a learned literal
            if (s.bools || conflict) { for (auto x : std::vector<Literal>(lits)) { for (auto y : {x, ~x}) {
                auto lev = trail.decision_level(x.var());
                if (lev && *lev > l) { ops.push_back([this, l, y] { backtrack(l); imply(y); }); }
            } } }
        }
        if (trail.decision_level() > 0 && s.wide < 2) { ops.push_back([this] { restart(); }); }
        if (ops.empty()) { return false; }
        ops[c.choose(ops.size())]();
        propagate();
        return true;
    }
};

std::vector<Spec> const& universe(int reals)
{
    using P = Order_predicate;
    static std::vector<Spec> const two = {
        {{0}, {1}, P::leq, 0}, {{0}, {1}, P::lt, 1}, {{0}, {1}, P::eq, 0}, {{0}, {-1}, P::lt, 0},
        {{0, 1}, {1, 1}, P::leq, 0}, {{0, 1}, {1, -1}, P::lt, 0}, {{0, 1}, {1, 1}, P::eq, 1}, {{0, 1}, {2, -1}, P::leq, 1},
        {{1}, {1}, P::lt, 1}, {{1}, {1}, P::eq, 1}, {{0, 1}, {1, -1}, P::eq, 0},
    };
    static std::vector<Spec> const three = {
        {{0, 1, 2}, {1, 1, 1}, P::leq, 1}, {{0, 1, 2}, {1, -1, 2}, P::lt, 0}, {{0, 1, 2}, {1, 1, -1}, P::eq, 0}, {{0, 2}, {1, -1}, P::leq, 0},
        {{0}, {1}, P::leq, 0}, {{1}, {-1}, P::lt, 0}, {{2}, {1}, P::eq, 1}, {{1, 2}, {1, 1}, P::lt, 1}, {{2}, {1}, P::lt, 2},
    };
    return reals == 2 ? two : three;
}

void family(std::string name, Setup s, int size, int depth, int dev, std::vector<Spec> late)
{
    auto& u = universe(s.reals);
    std::vector<std::vector<Spec>>* sets = new std::vector<std::vector<Spec>>;
    std::vector<Spec> cur;
    std::function<void(int)> rec = [&](int from) {
        if ((int)cur.size() == size) { sets->push_back(cur); return; }
        for (int i = from; i < (int)u.size(); ++i) { cur.push_back(u[i]); rec(i + 1); cur.pop_back(); }
    };
    rec(0);
    add({name, sets->size(), [=](std::uint64_t i) {
             Theory_oracle o;
             explore([&](Chooser& c) {
                 World w(o, s, (*sets)[i], late);
                 for (int d = 0; d < depth && w.step(c); ++d) { }
                 traces();
             }, dev);
         },
         [=](std::uint64_t i) { std::string r; for (auto& f : (*sets)[i]) { r += f.text() + "; "; } return r; }, 200});
}

// constraints of 4 and 5 variables: the watched variables move through the whole constraint
void wide_family(std::string name, Setup s, std::vector<std::vector<Spec>> sets, int depth)
{
    int signs = s.wide > 1 ? 1 : 0;
    auto n = sets.size();
    auto all = std::make_shared<std::vector<std::vector<Spec>>>(std::move(sets));
    std::uint64_t size = !signs ? n : (*all)[0].size() == 1 ? n * 3 : n * 9;
    add({name, size, [=](std::uint64_t i) {
             Theory_oracle o;
             explore([&](Chooser& c) {
                 static std::vector<Spec> const none;
                 World w(o, s, (*all)[i % n], none);
                 if (signs)
                 {
                     int k = i / n;
                     for (std::size_t j = 0; j < w.lits.size(); ++j, k /= 3)
                     {
                         if (k % 3 == 2 || w.defined(w.lits[j]) || w.conflict) { continue; }
                         w.decide(k % 3 ? ~w.lits[j] : w.lits[j]);
                         w.propagate();
                     }
                     w.base_level = w.trail.decision_level();
                 }
                 for (int d = 0; d < depth && w.step(c); ++d) { }
                 traces();
             });
         },
         [=](std::uint64_t i) { std::string r = signs ? "signs " + std::to_string(i / n) + ": " : ""; for (auto& f : (*all)[i % n]) { r += f.text() + "; "; } return r; }, 200});
}

// one constraint over n variables between bounds of the variables, all asserted in one of several orders, with a backtrack; then
// values for all variables, another backtrack and other values
void boxes(std::string name, Linear_arithmetic::Options opt, int most, int backs)
{
    std::uint64_t size = (std::uint64_t)(most - 1) * 4 * 4 * 5 * 3 * 4;
    add({name, size, [=](std::uint64_t i) {
             auto take = [&](int n) { int r = i % n; i /= n; return r; };
             int n = 2 + take(most - 1), pattern = take(4), pred = take(4), box = take(5), order = take(3), late = take(4);
             Theory_oracle o;
             for (int free = 0; free < n; ++free)
             {
                 Spec main{{}, {}, pred == 0 ? Order_predicate::lt : pred == 1 ? Order_predicate::leq : Order_predicate::eq, 3};
                 std::vector<Spec> specs;
                 for (int v = 0; v < n; ++v)
                 {
                     main.vars.push_back(v);
                     int c = pattern == 0 ? 1 : pattern == 1 ? (v % 2 ? -1 : 2) : pattern == 2 ? v - 2 + (v >= 2) : (v % 3 == 1 ? -3 : v + 1);
                     main.coefs.push_back(c);
                     if (v == free && box < 4) { continue; }
                     int sign = c > 0 ? 1 : -1;
                     // bounds that matter for an upper bound of the sum, for a lower bound, both, mixed
                     if (box == 0 || box == 2 || box == 4 || (box == 3 && v % 2)) { specs.push_back({{v}, {-sign}, v % 3 == 2 ? Order_predicate::lt : Order_predicate::leq, 1 - v % 2}); }
                     if (box == 1 || box == 2 || box == 4 || (box == 3 && v % 2 == 0)) { specs.push_back({{v}, {2 * sign}, Order_predicate::leq, v % 2 + 2}); }
                 }
                 specs.insert(order == 0 ? specs.begin() : order == 1 ? specs.end() : specs.begin() + specs.size() / 2, main);
                 // last of all a bound of the variable that had none, or of a pair
                 if (late > 0)
                 {
                     int c = main.coefs[free], sign = (c > 0) == (box == 1) ? 1 : -1;
                     if (late < 3) { specs.push_back({{free}, {sign}, late == 1 ? Order_predicate::leq : Order_predicate::lt, late == 1 ? -2 : -9 - n}); }
                     else { specs.push_back({{std::min(free, (free + 1) % n), std::max(free, (free + 1) % n)}, {sign, n % 2 ? 1 : -1}, Order_predicate::leq, -40}); }
                 }
                 for (int back = 0; back < backs; ++back)
                 {
                     Setup s{n, opt, false, false, 1};
                     std::vector<Spec> none;
                     World w(o, s, specs, none);
                     auto settle = [&] {
                         if (w.conflict && w.trail.decision_level() > 0) { w.backtrack(w.trail.decision_level() - 1); w.propagate(); }
                         return !w.conflict;
                     };
                     auto literals = [&](int shift) {
                         auto lits = w.lits;
                         for (std::size_t k = 0; k < lits.size(); ++k)
                         {
                             auto l = lits[(k * (order == 1 && lits.size() % 3 ? 3 : 1) + shift) % lits.size()];
                             if (w.defined(l)) { continue; }
                             bool neg = pred == 3 && lits.size() == w.lits.size() && w.lra.constraint(l.var().ord()).size() == n && n > 1;
                             w.decide(neg ? ~l : l);
                             w.propagate();
                             if (!settle()) { return false; }
                         }
                         return true;
                     };
                     auto values = [&](int shift, int count) {
                         for (int k = 0; k < n && count > 0; ++k)
                         {
                             int v = (k * (n % 2 ? 2 : 1) + shift) % n;
                             if (w.trail.model<Rational>(Variable::rational).is_defined(v)) { continue; }
                             w.real(v, 0);
                             --count;
                             w.propagate();
                             if (!settle()) { return false; }
                         }
                         return true;
                     };
                     auto undo = [&](int num, int den) { if (w.trail.decision_level() > 0) { w.backtrack(w.trail.decision_level() * num / den); w.propagate(); } return !w.conflict; };
                     if (!literals(0) || !undo(back, backs) || !literals(1) || !values(free, n - back % 2) || !undo(back + 1, backs + 1) || !values(back, n) || !undo(1, 3) || !values(1, 2)) { outcome(5); }
                     traces();
                 }
             }
         },
         [=](std::uint64_t i) { return "shape " + std::to_string(i); }, 200});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    using P = Order_predicate;
    std::vector<Spec> late2 = {{{0, 1}, {1, 2}, P::lt, 1}, {{1}, {1}, P::leq, 0}, {{0}, {2}, P::eq, 1}};
    std::vector<Spec> late3 = {{{0, 1}, {1, 2}, P::lt, 1}, {{0, 1, 2}, {1, 1, 1}, P::eq, 1}};
    for (int o = 0; o < 2; ++o)
    {
        Linear_arithmetic::Options opt;
        opt.prop_bounds = o;
        opt.prop_rational = o;
        opt.return_all_conflicts = !o;
        std::string suffix = o ? "-deduce" : "";
        if (t || o) { family("arith-2x2" + suffix, {2, opt}, 2, t ? 5 : 4, t ? 4 : 3, late2); }
        family("arith-2x3" + suffix, {2, opt}, 3, t ? 5 : 4, t ? 3 : 2, late2);
        if (t || o) { family("arith-2x3-long" + suffix, {2, opt}, 3, t ? 10 : 5, 2, late2); }
        if (t || o) { family("arith-2x2-together" + suffix, {2, opt, true}, 2, t ? 6 : 4, 2, late2); }
        if (t || !o) { family("arith-3x3-long" + suffix, {3, opt}, 3, t ? 9 : 5, 2, late3); }
        // every history
        if (t) { family("arith-2x3-low" + suffix, {2, opt, false, true}, 3, t ? 5 : 4, -1, {}); }
        if (t || o) { family("arith-3x3-low" + suffix, {3, opt, false, true}, 3, t ? 5 : 4, -1, {}); }
        if (t || o) { family("arith-3x4" + suffix, {3, opt}, 4, t ? 7 : 4, 2, late3); }
    }
    std::vector<std::vector<Spec>> four, five, pairs;
    for (auto p : {P::leq, P::lt, P::eq})
    {
        four.push_back({{{0, 1, 2, 3}, {1, -2, 1, 3}, p, 1}});
        five.push_back({{{0, 1, 2, 3, 4}, {1, -2, 1, 3, -1}, p, 1}});
        pairs.push_back({{{0, 1, 2, 3}, {1, -2, 1, 3}, p, 1}, {{0, 1, 2, 3}, {1, 1, -1, 1}, P::eq, 0}});
        pairs.push_back({{{0, 1, 2, 3}, {1, -2, 1, 3}, p, 1}, {{1, 2, 3}, {2, 1, -1}, P::leq, 0}});
        pairs.push_back({{{0, 1, 2, 3}, {1, -2, 1, 3}, p, 1}, {{0, 3}, {2, 1}, P::lt, 0}});
    }
    if (c.property != "C25")
    {
        Linear_arithmetic::Options opt;
        opt.prop_bounds = false;
        opt.prop_rational = false;
        wide_family("arith-wide4", {4, opt, false, false, 2}, four, t ? 9 : 7);
        wide_family("arith-wide4-literals", {4, opt, false, false, 1}, four, t ? 8 : 6);
        wide_family("arith-wide5", {5, opt, false, false, 2}, five, t ? 8 : 6);
        wide_family("arith-wide4-pairs", {4, opt, false, false, 2}, pairs, t ? 8 : 6);
        boxes("arith-boxes", opt, t ? 10 : 7, t ? 6 : 3);
        opt.prop_bounds = opt.prop_rational = true;
        boxes("arith-boxes-deduce", opt, t ? 10 : 7, t ? 6 : 3);
        wide_family("arith-wide4-deduce", {4, opt, false, false, 1}, four, t ? 7 : 5);
        wide_family("arith-wide4-pairs-deduce", {4, opt, false, false, 1}, pairs, t ? 6 : 4);
    }
}
