// C26: values of decisions. The real Boolean and arithmetic plugins are driven over all bounded histories of their own
// decisions, foreign assignments, backtracks and restarts; a reference record says which value the next decision must get.
// The wiring of the options is observed in the models of problems on which no value is ever forced.
#include "Bool_theory.h"
#include "Database.h"
#include "Event_dispatcher.h"
#include "Linear_arithmetic.h"
#include "Trail.h"
#include "e2e.h"
#include "sexp.h"
#include <algorithm>
#include <deque>
#include <map>

using namespace mc;
using namespace yaga;

namespace {

char const* const phase_names[] = {"positive", "negative", "cache"};
Phase phase_of(int i) { return i == 0 ? Phase::positive : i == 1 ? Phase::negative : Phase::cache; }

// ---- Boolean plugin ----

struct Bool_world {
    int n, grow;
    int phase;
    Event_dispatcher dispatcher;
    Bool_theory theory;
    Trail trail{dispatcher};
    Database db;
    std::vector<int> last; // value to be repeated by the cached phase
    std::string log;
    bool conflict = false;

    Bool_world(int n, int phase, std::vector<Clause> const& f) : n(n), grow(1), phase(phase), last(n, 1)
    {
        dispatcher.add(&theory);
        theory.set_phase(phase_of(phase));
        trail.set_model<bool>(Variable::boolean, n);
        for (auto& c : f) { db.assert_clause(c); }
        dispatcher.on_init(db, trail);
        propagate();
    }
    Model<bool>& model() { return trail.model<bool>(Variable::boolean); }
    void propagate()
    {
        conflict = !theory.propagate(db, trail).empty();
        transitions();
        outcome(conflict);
        std::uint64_t h = phase * 7 + conflict;
        for (int v = 0; v < n; ++v) { h = mix(h, (model().is_defined(v) ? 1 + model().value(v) : 0) * 4 + last[v]); }
        state(h);
    }
    void own(int v)
    {
        log += " decide(" + std::to_string(v) + ")";
        int before = trail.decision_level();
        theory.decide(db, trail, {v, Variable::boolean});
        if (!model().is_defined(v) || trail.decision_level() != before + 1 || trail.decision_level({v, Variable::boolean}) != before + 1) { fail("variable " + std::to_string(v) + " was not decided at a new level;" + log); }
        if (trail.reason({v, Variable::boolean})) { fail("a decision has a reason;" + log); }
        int expected = phase == 0 ? 1 : phase == 1 ? 0 : last[v];
        if (model().value(v) != (expected == 1)) { fail("with the " + std::string(phase_names[phase]) + " phase variable " + std::to_string(v) + " was decided " + (expected ? "false" : "true") + " instead of " + (expected ? "true" : "false") + ";" + log); }
        propagate();
    }
    void foreign(Literal l)
    {
        log += std::string(" set(") + (l.is_negation() ? "-" : "") + std::to_string(l.var().ord()) + ")";
        model().set_value(l.var().ord(), !l.is_negation());
        trail.decide(l.var());
        propagate();
    }
    void undo(int level, bool restart)
    {
        log += restart ? " restart" : " backtrack(" + std::to_string(level) + ")";
        for (int v = 0; v < n; ++v) { if (model().is_defined(v) && trail.decision_level({v, Variable::boolean}).value() > (restart ? 0 : level)) { last[v] = model().value(v); } }
        dispatcher.on_before_backtrack(db, trail, level);
        if (restart) { trail.clear(); dispatcher.on_restart(db, trail); }
        else { trail.backtrack(level); }
        propagate();
    }
    bool step(Chooser& c)
    {
        std::vector<std::function<void()>> ops;
        if (!conflict)
        {
            for (int v = 0; v < n; ++v)
            {
                if (model().is_defined(v)) { continue; }
                ops.push_back([this, v] { own(v); });
            }
            for (int v = 0; v < n; ++v)
            {
                if (model().is_defined(v)) { continue; }
                ops.push_back([this, v] { foreign(Literal{v}); });
                ops.push_back([this, v] { foreign(~Literal{v}); });
            }
            if (grow > 0)
            {
                ops.push_back([this] {
                    --grow;
                    log += " new-variable";
                    trail.resize(Variable::boolean, ++n);
                    last.push_back(1);
                });
            }
        }
        for (int l = trail.decision_level() - 1; l >= 0; --l) { ops.push_back([this, l] { undo(l, false); }); }
        if (trail.decision_level() > 0) { ops.push_back([this] { undo(0, true); }); }
        if (ops.empty()) { return false; }
        ops[c.choose(ops.size())]();
        return true;
    }
};

void bool_family(std::string name, int n, std::vector<std::vector<Clause>> formulas, int depth, int dev)
{
    auto* fs = new std::vector<std::vector<Clause>>(std::move(formulas));
    add({name, fs->size() * 3, [=](std::uint64_t i) {
             explore([&](Chooser& c) {
                 Bool_world w(n, i % 3, (*fs)[i / 3]);
                 for (int d = 0; d < depth && w.step(c); ++d) { }
                 traces();
             }, dev);
         },
         [=](std::uint64_t i) {
             std::string s = std::string(phase_names[i % 3]) + " phase; clauses:";
             for (auto& c : (*fs)[i / 3]) { s += " {"; for (auto l : c) { s += (l.is_negation() ? " -" : " ") + std::to_string(l.var().ord()); } s += " }"; }
             return s;
         }, 120});
}

// ---- arithmetic plugin: one variable between all bounds ----

struct Lra_world {
    Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    Database db;
    Linear_arithmetic lra;
    std::map<int, ref::Q> last;
    std::string log;
    struct Atom { int var; ref::Q value; char rel; Literal lit; };
    std::vector<Atom> atoms; // the meaning of lit is var rel value; rel: < l >  g = !

    Lra_world(int reals)
    {
        dispatcher.add(&lra);
        trail.set_model<bool>(Variable::boolean, 0);
        trail.set_model<Rational>(Variable::rational, reals);
        dispatcher.on_init(db, trail);
        lra.propagate(db, trail);
    }
    // create the literal of a bound
    Literal make(int var, char rel, ref::Q value)
    {
        for (auto& a : atoms) { if (a.var == var && a.rel == rel && a.value == value) { return a.lit; } }
        std::vector<int> vars{var};
        bool neg = rel == '>' || rel == 'g';
        std::vector<Rational> coef{Rational(neg ? -1 : 1)};
        ref::Q r = neg ? ref::Q(-value) : value;
        auto pred = rel == '=' || rel == '!' ? Order_predicate::eq : rel == '<' || rel == '>' ? Order_predicate::lt : Order_predicate::leq;
        auto k = lra.constraint(trail, vars, coef, pred, Rational(r.get_str().c_str()));
        atoms.push_back({var, value, rel, rel == '!' ? ~k.lit() : k.lit()});
        return atoms.back().lit;
    }
    bool truth(Literal l) { return trail.model<bool>(Variable::boolean).value(l.var().ord()) != l.is_negation(); }
    bool defined(Literal l) { return trail.model<bool>(Variable::boolean).is_defined(l.var().ord()); }
    void put(Literal l, bool decide)
    {
        trail.model<bool>(Variable::boolean).set_value(l.var().ord(), !l.is_negation());
        if (decide) { trail.decide(l.var()); } else { trail.propagate(l.var(), nullptr, trail.decision_level()); }
    }
    bool propagate() { transitions(); return lra.propagate(db, trail).empty(); }
    bool allowed(int var, ref::Q const& q)
    {
        for (auto& a : atoms)
        {
            if (a.var != var || !defined(a.lit)) { continue; }
            bool t = a.rel == '<' ? q < a.value : a.rel == 'l' ? q <= a.value : a.rel == '>' ? q > a.value : a.rel == 'g' ? q >= a.value : a.rel == '=' ? q == a.value : q != a.value;
            if (t != truth(a.lit)) { return false; }
        }
        return true;
    }
    std::string atom_str(Atom const& a) { return "r" + std::to_string(a.var) + " " + (a.rel == 'l' ? "<=" : a.rel == 'g' ? ">=" : a.rel == '!' ? "!=" : std::string(1, a.rel)) + " " + a.value.get_str(); }
    std::string show() { std::string s; for (auto& a : atoms) { if (defined(a.lit)) { s += (truth(a.lit) ? "; " : "; not ") + atom_str(a); } } return s; }
    ref::Q decide(int var)
    {
        auto keep = last.count(var) ? last[var] : ref::Q(0);
        bool kept = allowed(var, keep);
        ref::Q biggest = 2;
        for (auto& a : atoms) { ref::Q m = a.value < 0 ? ref::Q(-a.value) : a.value; if (m > biggest) { biggest = m; } }
        int span = biggest.get_d() + 4 + atoms.size();
        std::optional<int> smallest;
        for (int k = 0; k <= span && !smallest; ++k) { if (allowed(var, k) || allowed(var, -k)) { smallest = k; } }
        auto sit = show();
        lra.decide(db, trail, {var, Variable::rational});
        transitions();
        auto& m = trail.model<Rational>(Variable::rational);
        if (!m.is_defined(var)) { fail("r" + std::to_string(var) + " got no value" + sit + log); }
        ref::Q got(m.value(var).get_str());
        log += "; r" + std::to_string(var) + ":=" + got.get_str();
        if (!allowed(var, got)) { fail("the value " + got.get_str() + " is not allowed" + sit + log); }
        if (kept && got != keep) { fail("the previous value " + keep.get_str() + " of r" + std::to_string(var) + " is allowed but " + got.get_str() + " was chosen" + sit + log); }
        if (!kept && smallest && (got.get_den() != 1 || (got < 0 ? ref::Q(-got) : got) != *smallest)) { fail("an integer of magnitude " + std::to_string(*smallest) + " is allowed for r" + std::to_string(var) + " but " + got.get_str() + " was chosen" + sit + log); }
        outcome(kept ? 0 : smallest ? 1 : 2);
        last[var] = got;
        state(mix(hash(sit), hash(got.get_str() + "/" + keep.get_str())));
        return got;
    }
    void undo(int level, bool restart = false)
    {
        dispatcher.on_before_backtrack(db, trail, level);
        if (restart) { trail.clear(); dispatcher.on_restart(db, trail); log += "; restart"; }
        else { trail.backtrack(level); log += "; backtrack " + std::to_string(level); }
    }
};

std::vector<ref::Q> const& points(bool t)
{
    static std::vector<ref::Q> const few{-3, ref::Q(-3, 2), -1, ref::Q(-1, 3), 0, ref::Q(1, 4), ref::Q(1, 2), 1, ref::Q(4, 3), 2};
    static std::vector<ref::Q> const many{-7, -3, ref::Q(-5, 2), -2, ref::Q(-3, 2), -1, ref::Q(-2, 3), ref::Q(-1, 3), ref::Q(-1, 5), 0, ref::Q(1, 7), ref::Q(1, 4), ref::Q(1, 2), ref::Q(3, 4), 1, ref::Q(4, 3), 2, ref::Q(5, 2), 4, 9};
    return t ? many : few;
}

// a lower and an upper bound (open, closed, missing, or an equality) and a set of excluded integers
struct Interval { int lo, hi; bool lo_strict, hi_strict; };
std::vector<Interval>* intervals(bool t)
{
    auto* r = new std::vector<Interval>;
    auto& p = points(t);
    int n = p.size();
    for (int lo = -1; lo < n; ++lo)
    {
        for (int hi = -1; hi < n; ++hi)
        {
            for (int s = 0; s < 4; ++s)
            {
                if ((lo < 0 && s & 1) || (hi < 0 && s & 2)) { continue; }
                if (lo >= 0 && hi >= 0 && (hi < lo || (hi == lo && s))) { continue; }
                r->push_back({lo, hi, (s & 1) != 0, (s & 2) != 0});
            }
        }
    }
    return r;
}

void interval_families(bool t)
{
    auto* iv = intervals(t);
    auto& p = points(t);
    std::vector<ref::Q> ex{0, 1, -1, 2, -2};
    std::uint64_t subsets = 1u << ex.size();
    auto assert_interval = [&p](Lra_world& w, Interval const& x, bool decide) {
        bool any = false;
        auto put = [&](Literal l) { w.put(l, decide && !any); any = true; };
        if (x.lo >= 0) { put(w.make(0, x.lo_strict ? '>' : 'g', p[x.lo])); }
        if (x.hi >= 0) { auto l = w.make(0, x.hi_strict ? '<' : 'l', p[x.hi]); if (!w.defined(l)) { put(l); } else if (!w.truth(l)) { return false; } }
        return true;
    };
    auto show_interval = [&p](Interval const& x) {
        return std::string(x.lo < 0 ? "(-inf" : (x.lo_strict ? "(" : "[") + p[x.lo].get_str()) + ", " + (x.hi < 0 ? "inf)" : p[x.hi].get_str() + (x.hi_strict ? ")" : "]"));
    };
    // fresh variable, all exclusions
    add({"value-intervals", iv->size() * subsets, [=](std::uint64_t i) {
             auto& x = (*iv)[i / subsets];
             Lra_world w(1);
             if (!assert_interval(w, x, false)) { return; }
             for (std::size_t k = 0; k < ex.size(); ++k)
             {
                 if (!(i % subsets >> k & 1)) { continue; }
                 auto l = w.make(0, '!', ex[k]);
                 w.put(l, false);
             }
             if (!w.propagate()) { return; } // no value is left
             w.decide(0);
             traces();
         },
         [=](std::uint64_t i) { std::string s = show_interval((*iv)[i / subsets]) + " without"; for (std::size_t k = 0; k < ex.size(); ++k) { if (i % subsets >> k & 1) { s += " " + ex[k].get_str(); } } return s; }, 20});
    // two intervals one after another, with and without a restart between them: the second decision keeps the first value if it can
    std::uint64_t m = iv->size();
    add({"value-kept", m * m * 2, [=](std::uint64_t i) {
             auto &x = (*iv)[i / 2 / m], &y = (*iv)[i / 2 % m];
             Lra_world w(2);
             for (int round = 0; round < 3; ++round)
             {
                 if (!assert_interval(w, round == 1 ? y : x, true)) { return; }
                 if (!w.propagate()) { fail("an interval with a value is reported as a conflict" + w.show()); }
                 w.decide(0);
                 if (!w.propagate()) { fail("a conflict after an allowed value" + w.show()); }
                 w.decide(1);
                 w.undo(0, i % 2);
                 w.propagate();
             }
             traces();
         },
         [=](std::uint64_t i) { return show_interval((*iv)[i / 2 / m]) + " then " + show_interval((*iv)[i / 2 % m]) + (i % 2 ? " with a restart" : ""); }, 20});
    // every value that is chosen is excluded for the next decision: the choice goes on as long as the interval has values
    int rounds = t ? 100 : 40;
    add({"value-exclusions", m * 2, [=](std::uint64_t i) {
             auto& x = (*iv)[i / 2];
             int mode = i % 2; // the excluding literals are propagated, decided
             Lra_world w(1);
             if (!assert_interval(w, x, false)) { return; }
             bool point = x.lo >= 0 && x.lo == x.hi;
             for (int r = 0; r < rounds; ++r)
             {
                 if (!w.propagate())
                 {
                     if (!point || r == 0) { fail("an interval with a value is reported as a conflict" + w.show()); }
                     break;
                 }
                 int before = w.trail.decision_level();
                 auto got = w.decide(0);
                 if (!w.propagate()) { fail("a conflict after an allowed value" + w.show()); }
                 w.undo(before);
                 auto l = w.make(0, '!', got);
                 if (!w.defined(l)) { w.put(l, mode == 1); }
                 else if (!w.truth(l) && !point) { fail("the value " + got.get_str() + " is taken to be the only one" + w.show()); }
                 else { break; }
             }
             traces();
         },
         [=](std::uint64_t i) { return show_interval((*iv)[i / 2]) + " without the values chosen so far" + (i % 2 ? ", excluded by decisions" : ""); }, 20});
}

// all histories over two variables with bounds
void value_histories(std::string name, int reals, int depth, int dev)
{
    static std::vector<std::tuple<int, char, ref::Q>> const pool{{0, '<', 0}, {0, 'g', ref::Q(1, 2)}, {0, '!', 0}, {1, '>', 2}, {1, '=', ref::Q(-1, 2)}, {0, 'l', 3}, {1, 'l', ref::Q(5, 2)}, {0, '!', 1}};
    std::uint64_t sets = 0;
    auto* at = new std::vector<std::vector<int>>;
    for (int s = 0; s < 1 << pool.size(); ++s) { if (__builtin_popcount(s) == 3) { at->push_back({}); for (int k = 0; k < (int)pool.size(); ++k) { if (s >> k & 1) { at->back().push_back(k); } } } }
    sets = at->size();
    add({name, sets, [=](std::uint64_t i) {
             explore([&](Chooser& c) {
                 Lra_world w(reals);
                 std::vector<Literal> lits;
                 for (int k : (*at)[i]) { auto [v, r, q] = pool[k]; lits.push_back(w.make(v, r, q)); }
                 bool conflict = false;
                 for (int d = 0; d < depth; ++d)
                 {
                     std::vector<std::function<void()>> ops;
                     if (!conflict)
                     {
                         for (int v = 0; v < reals; ++v) { if (!w.trail.model<Rational>(Variable::rational).is_defined(v)) { ops.push_back([&w, v] { w.decide(v); }); } }
                         for (auto l : lits) { if (!w.defined(l)) { for (auto x : {l, ~l}) { ops.push_back([&w, x] { w.log += "; decide a literal"; w.put(x, true); }); } } }
                     }
                     for (int l = w.trail.decision_level() - 1; l >= 0; --l) { ops.push_back([&w, l] { w.undo(l); }); }
                     if (w.trail.decision_level() > 0) { ops.push_back([&w] { w.undo(0, true); }); }
                     if (ops.empty()) { break; }
                     ops[c.choose(ops.size())]();
                     conflict = !w.propagate();
                 }
                 traces();
             }, dev);
         },
         [=](std::uint64_t i) { std::string s; for (int k : (*at)[i]) { auto [v, r, q] = pool[k]; s += "r" + std::to_string(v) + " " + r + " " + q.get_str() + "; "; } return s; }, 120});
}

// ---- the options reach the plugins: formulas on which the phase alone gives the values ----

// every clause positive: nothing is ever forced to be false, so with the positive phase (and the cached one, which starts with
// true) every variable is true; every clause negative: with the negative phase every variable is false
void wiring(bool t)
{
    int n = 4;
    std::vector<unsigned> u;
    for (unsigned m = 1; m < 1u << n; ++m) { if (__builtin_popcount(m) >= 2) { u.push_back(m); } }
    std::uint64_t k = u.size(), size = k * k * (t ? k : 1);
    char const* logics[] = {"QF_LRA", "QF_UFLRA"};
    auto script = [=](std::uint64_t i, int logic, bool negative) {
        std::string s = std::string("(set-logic ") + logics[logic] + ")";
        for (int v = 0; v < n; ++v) { s += "(declare-fun p" + std::to_string(v) + " () Bool)"; }
        for (unsigned m : {u[i % k], u[i / k % k], u[i / k / k % k]})
        {
            s += "(assert (or";
            for (int v = 0; v < n; ++v) { if (m >> v & 1) { s += negative ? " (not p" + std::to_string(v) + ")" : " p" + std::to_string(v); } }
            s += "))";
        }
        return s + "(check-sat)(get-model)";
    };
    add({"wiring", size * 6 * 4, [=](std::uint64_t i) {
             int phase = i % 3, logic = i / 3 % 2, flags = i / 6 % 4;
             Options o;
             o.phase = phase_of(phase);
             o.prop_rational = flags & 1;
             o.deduce_bounds = flags & 2;
             auto r = run_smt(script(i / 24, logic, phase == 1), o);
             if (!r.error.empty() || r.out.rfind("sat", 0) != 0) { fail("the problem is satisfiable, the output is " + r.out + r.error); }
             unsigned used = u[i / 24 % k] | u[i / 24 / k % k] | u[i / 24 / k / k % k];
             for (int v = 0; v < n; ++v)
             {
                 if (!(used >> v & 1)) { continue; }
                 auto want = "(define-fun p" + std::to_string(v) + " () Bool " + (phase == 1 ? "false" : "true") + ")";
                 std::string flat; // one blank between tokens
                 for (char ch : r.out) { if (isspace((unsigned char)ch)) { if (!flat.empty() && flat.back() != ' ') { flat += ' '; } } else { flat += ch; } }
                 if (flat.find(want) == std::string::npos) { fail("with the " + std::string(phase_names[phase]) + " phase nothing forces p" + std::to_string(v) + " to be " + (phase == 1 ? "true" : "false") + ", but the model is " + flat); }
             }
             transitions();
             traces();
             outcome(phase);
         },
         [=](std::uint64_t i) { return script(i / 24, i / 3 % 2, i % 3 == 1) + " " + phase_names[i % 3]; }, 20});
}

// ---- many variables ----

void many_variables(bool t)
{
    auto* sizes = new std::vector<int>;
    for (int n = 4; n <= (t ? 40 : 18); ++n) { sizes->push_back(n); }
    for (int n : {31, 32, 33, 63, 64, 65, 100, 128, 129}) { sizes->push_back(n); }
    if (t) { sizes->push_back(256); sizes->push_back(300); }
    std::uint64_t dims[] = {3, 6, 4, 2, 3, 3};
    std::uint64_t size = sizes->size();
    for (auto d : dims) { size *= d; }
    auto split = [=](std::uint64_t i) { std::vector<int> r; for (auto d : dims) { r.push_back(i % d); i /= d; } r.push_back((*sizes)[i]); return r; };
    add({"phase-many", size, [=](std::uint64_t i) {
             auto d = split(i);
             int n = d[6], pattern = d[1], to = d[2], restart = d[3], clauses = d[4], order = d[5];
             std::vector<Clause> f;
             for (int v = 0; v + 1 < n && clauses; v += clauses == 1 ? 2 : 3) { f.push_back({v % 4 ? Literal{v} : ~Literal{v}, v % 5 ? ~Literal{v + 1} : Literal{v + 1}}); }
             Bool_world w(n, d[0], f);
             auto all = [&](int shift, bool own) {
                 for (int k = 0; k < w.n && !w.conflict; ++k)
                 {
                     int v = order == 0 ? k : order == 1 ? w.n - 1 - k : (k * 2 + (k * 2 >= w.n ? 1 - w.n % 2 : 0)) % w.n;
                     if (w.model().is_defined(v)) { continue; }
                     bool neg = pattern == 0 ? true : pattern == 1 ? v % 2 : pattern == 2 ? v < w.n / 2 : pattern == 3 ? v >= w.n / 2 : pattern == 4 ? (v + shift) % 3 == 0 : (v * 7 + shift) % 11 < 5;
                     if (own) { w.own(v); } else { w.foreign(neg ? ~Literal{v} : Literal{v}); }
                 }
             };
             auto back = [&](int part) {
                 int l = w.trail.decision_level();
                 if (l == 0) { return; }
                 w.undo(restart ? 0 : part == 0 ? 0 : part == 1 ? l / 3 : part == 2 ? l / 2 : l - 1, restart);
             };
             for (int round = 0; round < 3; ++round)
             {
                 all(round, false);
                 back(to);
                 if (round == 1) { w.log += " new-variable"; w.trail.resize(Variable::boolean, ++w.n); w.last.push_back(1); w.propagate(); }
                 all(round, true);
                 back((to + round) % 4);
             }
             traces();
         },
         [=](std::uint64_t i) {
             auto d = split(i);
             return std::to_string(d[6]) + " variables, " + phase_names[d[0]] + " phase, pattern " + std::to_string(d[1]) + ", backtrack " + std::to_string(d[2]) + (d[3] ? " as restart" : "") + ", clauses " + std::to_string(d[4]) + ", order " + std::to_string(d[5]);
         }, 60});

    // values of many real variables
    add({"value-many", sizes->size() * 5 * 4 * 3, [=](std::uint64_t i) {
             int pattern = i % 5, to = i / 5 % 4, order = i / 20 % 3, n = (*sizes)[i / 60];
             Lra_world w(n);
             auto at = [&](int k) { return order == 0 ? k : order == 1 ? n - 1 - k : (k * 2 + (k * 2 >= n ? 1 - n % 2 : 0)) % n; };
             auto bounds = [&](int round) {
                 for (int v = 0; v < n; ++v)
                 {
                     ref::Q q((v * 3 + pattern + round) % 9 - 4, (v + pattern) % 3 + 1);
                     q.canonicalize();
                     if ((v + round) % (pattern + 2) == 0 && !w.trail.model<Rational>(Variable::rational).is_defined(v)) { auto l = w.make(v, round % 2 ? '<' : 'g', q); if (!w.defined(l)) { w.put(l, v % 2); } }
                     if (!w.propagate()) { return false; }
                 }
                 return true;
             };
             for (int round = 0; round < 3; ++round)
             {
                 int before = w.trail.decision_level();
                 if (bounds(round))
                 {
                     for (int k = 0; k < n; ++k)
                     {
                         if (w.trail.model<Rational>(Variable::rational).is_defined(at(k))) { continue; }
                         w.decide(at(k));
                         if (!w.propagate()) { fail("a conflict after an allowed value" + w.log); }
                     }
                 }
                 int l = w.trail.decision_level();
                 w.undo(to == 0 ? 0 : to == 1 ? before : to == 2 ? l / 2 : std::max(0, l - 1), false);
                 if (round == 1 && w.trail.decision_level() > 0) { w.undo(0, true); }
                 w.propagate();
             }
             traces();
         },
         [=](std::uint64_t i) { return std::to_string((*sizes)[i / 60]) + " variables, pattern " + std::to_string(i % 5) + ", backtrack " + std::to_string(i / 5 % 4) + ", order " + std::to_string(i / 20 % 3); }, 60});

    // nothing is forced in long clauses either
    char const* logics[] = {"QF_LRA", "QF_UFLRA"};
    auto script = [=](std::uint64_t i) {
        int n = (*sizes)[i / 24];
        bool negative = i % 3 == 1;
        std::string s = std::string("(set-logic ") + logics[i / 3 % 2] + ")";
        for (int v = 0; v < n; ++v) { s += "(declare-fun p" + std::to_string(v) + " () Bool)"; }
        int shape = i / 6 % 4, width = shape == 0 ? n : shape == 1 ? n - 1 : shape == 2 ? 2 : (n + 1) / 2;
        for (int from = 0; from < n; from += shape == 1 ? 1 : width)
        {
            s += "(assert (or";
            for (int k = 0; k < width; ++k) { int v = (from + k) % n; s += negative ? " (not p" + std::to_string(v) + ")" : " p" + std::to_string(v); }
            s += "))";
        }
        return s + "(check-sat)(get-model)";
    };
    add({"wiring-many", sizes->size() * 24, [=](std::uint64_t i) {
             Options o;
             o.phase = phase_of(i % 3);
             auto r = run_smt(script(i), o);
             if (!r.error.empty() || r.out.rfind("sat", 0) != 0) { fail("the problem is satisfiable, the output is " + r.out + r.error); }
             std::string flat; // one blank between tokens
             for (char ch : r.out) { if (isspace((unsigned char)ch)) { if (!flat.empty() && flat.back() != ' ') { flat += ' '; } } else { flat += ch; } }
             for (int v = 0; v < (*sizes)[i / 24]; ++v)
             {
                 auto want = "(define-fun p" + std::to_string(v) + " () Bool " + (i % 3 == 1 ? "false" : "true") + ")";
                 if (flat.find(want) == std::string::npos) { fail("with the " + std::string(phase_names[i % 3]) + " phase nothing forces p" + std::to_string(v) + " to be " + (i % 3 == 1 ? "true" : "false") + ", but the model is " + flat); }
             }
             transitions();
             traces();
         },
         [=](std::uint64_t i) { return script(i) + " " + phase_names[i % 3]; }, 30});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    auto L = [](int i) { return Literal{i}; };
    std::vector<std::vector<Clause>> fs{
        {{L(0), L(1), L(2)}},
        {{~L(0), L(1)}, {~L(1), L(2)}},
        {{L(0), L(1)}, {~L(0), ~L(1), L(2)}},
        {{~L(0), ~L(1)}, {~L(2), L(0)}},
        {{L(0)}, {L(1), ~L(2)}},
        {{L(0), L(1)}, {~L(1), L(2)}, {~L(2), ~L(0)}},
    };
    bool_family("phase-histories", 3, fs, t ? 7 : 6, -1);
    bool_family("phase-long", 3, fs, t ? 14 : 10, t ? 5 : 3);
    interval_families(t);
    value_histories("value-histories", 2, t ? 7 : 5, -1);
    value_histories("value-histories-long", 2, t ? 12 : 8, t ? 5 : 3);
    wiring(t);
    many_variables(t);
}
