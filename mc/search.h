// Controlled search: the real solver (main loop, conflict analysis, theories) driven by an order, a phase, a value and a
// restart policy that take every nondeterministic step from a Chooser, with monitors that judge every state it reaches.
#ifndef MC_SEARCH_H
#define MC_SEARCH_H
#include "Bool_theory.h"
#include "Evsids.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Restart.h"
#include "Solver.h"
#include "Theory_combination.h"
#include "lra_pool.h"
#include "ref.h"
#include "runner.h"
#include <deque>
#include <map>
#include <memory>
#include <sstream>
#include <unordered_map>

namespace mc {

using yaga::Clause;
using yaga::Database;
using yaga::Literal;
using yaga::Rational;
using yaga::Trail;
using yaga::Variable;

inline ref::Q to_q(Rational const& r) { return ref::Q(r.get_str()); }

// report a violation if this run decides property p
inline bool wants(char const* p) { return config().property == p; }
#define MC_CHECK(prop, cond, msg) do { if (mc::wants(prop) && !(cond)) { std::ostringstream mc_os; mc_os << msg; mc::fail(mc_os.str()); } } while (false)

// linear constraint of a Boolean variable, copied out of the implementation
struct Con_copy {
    bool known = false;
    bool is = false;                             // the variable stands for a constraint
    std::vector<std::pair<int, ref::Q>> lin;
    char rel = '=';                              // meaning of the positive literal: '<', 'l', '='
    ref::Q rhs;
    bool flip = false;                           // the positive literal stands for the negation of `lin rel rhs`
    int key = 0;
};

inline std::string str(Clause const& c)
{
    std::ostringstream os;
    os << "(";
    for (std::size_t i = 0; i < c.size(); ++i) { os << (i ? " " : "") << (c[i].is_negation() ? "-" : "") << c[i].var().ord(); }
    os << ")";
    return os.str();
}

inline std::vector<int> canon(Clause const& c)
{
    std::vector<int> r;
    for (auto l : c) { r.push_back(l.is_negation() ? -l.var().ord() - 1 : l.var().ord() + 1); }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

// Oracle for consequences of an instance, shared by all schedules of the instance.
struct Oracle {
    virtual ~Oracle() = default;
    std::map<std::string, int> con_ids;                // canonical text of a derived constraint -> id
    std::map<std::vector<int>, bool> memo;
    int con_id(std::string const& s) { return con_ids.emplace(s, (int)con_ids.size()).first->second; }
    // is the clause a consequence? lits: (variable ordinal, sign); cons gives the constraint of a variable
    virtual bool entailed(Clause const& c, std::function<Con_copy const&(int)> const& con) = 0;
};

class Monitor {
public:
    Monitor(Oracle& oracle, yaga::Linear_arithmetic* lra, bool deduce, int named) : oracle(oracle), lra(lra), deduce(deduce), named(named) {}

    // variables < named mean the same in all schedules of the instance
    Con_copy const& con(int ord)
    {
        if (ord >= (int)cons.size()) { cons.resize(ord + 1); }
        auto& c = cons[ord];
        if (!c.known)
        {
            c.known = true;
            auto k = lra ? lra->constraint(ord) : yaga::Linear_constraint<Rational>{};
            c.is = lra && !k.empty();
            if (c.is)
            {
                auto ci = k.coef().begin();
                for (auto v : k.vars()) { c.lin.emplace_back(v, to_q(*ci)); ++ci; }
                std::sort(c.lin.begin(), c.lin.end(), [](auto& a, auto& b) { return a.first < b.first; });
                c.rel = k.pred() == yaga::Order_predicate::eq ? '=' : k.pred() == yaga::Order_predicate::lt ? '<' : 'l';
                c.rhs = to_q(k.rhs());
                c.flip = k.lit().is_negation();
                std::string key = std::string(1, c.rel) + (c.flip ? "!" : "") + c.rhs.get_str();
                for (auto& [v, q] : c.lin) { key += " " + std::to_string(v) + ":" + q.get_str(); }
                c.key = 1000 + oracle.con_id(key);
            }
        }
        return c;
    }

    std::string lit_str(Literal l)
    {
        auto& c = con(l.var().ord());
        if (!c.is) { return (l.is_negation() ? "-b" : "b") + std::to_string(l.var().ord()); }
        std::string s = (l.is_negation() != c.flip) ? "not[" : "[";
        for (auto& [v, q] : c.lin) { s += q.get_str() + "*r" + std::to_string(v) + " "; }
        return s + (c.rel == 'l' ? "<=" : std::string(1, c.rel)) + " " + c.rhs.get_str() + "]";
    }
    std::string show(Clause const& c) { std::string s; for (auto l : c) { s += (s.empty() ? "" : " or ") + lit_str(l); } return "{" + s + "}"; }
    std::string show(Trail& t)
    {
        std::string s = "trail:";
        for (int i = 0; i <= t.decision_level(); ++i)
        {
            s += " |" + std::to_string(i) + ":";
            for (auto a : t.assigned(i))
            {
                if (a.var.type() == Variable::rational) { s += " r" + std::to_string(a.var.ord()) + "=" + t.model<Rational>(Variable::rational).value(a.var.ord()).get_str(); }
                else { auto l = Literal{a.var.ord()}; s += " " + lit_str(t.model<bool>(Variable::boolean).value(a.var.ord()) ? l : ~l) + (a.reason ? "<-" + str(*a.reason) : ""); }
            }
        }
        return s;
    }

    static std::optional<bool> value(Trail& t, Literal l)
    {
        auto const& m = t.model<bool>(Variable::boolean);
        if (!m.is_defined(l.var().ord())) { return {}; }
        return m.value(l.var().ord()) != l.is_negation();
    }

    bool entailed(Clause const& c)
    {
        std::vector<int> key;
        for (auto l : c)
        {
            auto& k = con(l.var().ord());
            int id = l.var().ord() < named ? l.var().ord() + 1 : k.is ? k.key : 100000 + l.var().ord();
            key.push_back(l.is_negation() ? -id : id);
        }
        std::sort(key.begin(), key.end());
        auto it = oracle.memo.find(key);
        if (it == oracle.memo.end())
        {
            std::function<Con_copy const&(int)> f = [this](int o) -> Con_copy const& { return con(o); };
            it = oracle.memo.emplace(key, oracle.entailed(c, f)).first;
        }
        return it->second;
    }

    // --- events ---
    void entry(Database& db, Trail& t) // first thing in a round of propagation
    {
        if (!pending) { return; }
        pending = false;
        after_backtrack(db, t);
        learned.clear();
        restarted = false;
    }

    void conflicts(Trail& t, std::vector<Clause> const& cs)
    {
        remember(t);
        for (auto& c : cs)
        {
            if (wants("C07") || wants("C09"))
            {
                for (auto l : c)
                {
                    auto v = value(t, l);
                    MC_CHECK("C07", v && !*v, "a reported conflict is not false: " << show(c) << ", literal " << lit_str(l) << (v ? " is true\n" : " is unassigned\n") << show(t));
                    MC_CHECK("C09", v && !*v, "a reported conflict is not false: " << show(c) << ", literal " << lit_str(l) << (v ? " is true\n" : " is unassigned\n") << show(t));
                }
            }
            if (wants("C07")) { MC_CHECK("C07", entailed(c), "a reported conflict is not a consequence: " << show(c) << "\n" << show(t)); }
        }
        // the conflict may have left propagated literals behind
        if (wants("C07")) { reasons(t); }
    }

    void resolved(Trail& t, Clause const& c)
    {
        if (wants("C07"))
        {
            int trues = 0;
            for (auto l : c) { auto v = value(t, l); MC_CHECK("C07", v, "a resolved reason has an unassigned literal: " << show(c)); trues += *v; }
            MC_CHECK("C07", trues == 1, "a resolved reason has " << trues << " true literals: " << show(c) << "\n" << show(t));
            MC_CHECK("C07", entailed(c), "a resolved reason is not a consequence: " << show(c) << "\n" << show(t));
        }
    }

    void on_learned(Trail& t, Clause const& c)
    {
        learned.push_back(c);
        if (wants("C07") || wants("C21"))
        {
            for (auto l : c)
            {
                auto v = value(t, l);
                MC_CHECK("C07", v && !*v, "a learned clause is not false when it is learned: " << show(c) << "\n" << show(t));
                MC_CHECK("C21", v && !*v, "a learned clause is not false when it is learned: " << show(c) << "\n" << show(t));
            }
            MC_CHECK("C07", entailed(c), "a learned clause is not a consequence: " << show(c) << "\n" << show(t));
            MC_CHECK("C21", entailed(c), "a learned clause is not a consequence: " << show(c) << "\n" << show(t));
        }
        if (wants("C08"))
        {
            int top = -1, n = 0;
            for (auto l : c)
            {
                auto v = value(t, l);
                MC_CHECK("C08", v && !*v, "the derived clause is not false: " << show(c) << "\n" << show(t));
                int lev = *t.decision_level(l.var());
                if (lev > top) { top = lev; n = 1; }
                else if (lev == top) { ++n; }
            }
            if (n > 1)
            {
                MC_CHECK("C08", top > 0 && t.assigned(top).front().var.type() == Variable::rational, "the derived clause has " << n << " literals at level " << top << ", which was not opened by a real-valued decision: " << show(c) << "\n" << show(t));
                for (auto l : c)
                {
                    if (*t.decision_level(l.var()) == top) { MC_CHECK("C08", t.reason(l.var()) == nullptr, "the derived clause has several literals at its highest level and " << lit_str(l) << " has a reason: " << show(c) << "\n" << show(t)); }
                }
            }
            Shape s;
            s.top = top;
            s.n = n;
            s.second = 0;
            for (auto l : c) { int lev = *t.decision_level(l.var()); if (lev < top) { s.second = std::max(s.second, lev); } }
            for (auto l : c) { if (*t.decision_level(l.var()) == top) { s.tops.push_back(l); } }
            shapes.push_back(s);
        }
    }

    void before_backtrack(Database& db, Trail& t, int level)
    {
        pending = true;
        target = level;
        snapshot.clear();
        if (wants("C10"))
        {
            for (auto [type, m] : t.models())
            {
                for (int o = 0; o < (int)m->num_vars(); ++o)
                {
                    Variable v{o, type};
                    if (auto l = t.decision_level(v)) { snapshot.push_back({v, *l, t.reason(v), val(t, v)}); }
                }
            }
        }
        if (wants("C21") || wants("C22") || wants("C09") || wants("C08"))
        {
            asserted.clear();
            for (auto& c : db.asserted()) { asserted.push_back(canon(c)); }
            clauses.clear();
            for (auto& c : db.learned()) { clauses.push_back(canon(c)); }
        }
    }

    void restart(Database& db, Trail& t)
    {
        restarted = true;
        for (char const* p : {"C22", "C10"})
        {
            MC_CHECK(p, t.empty() && t.decision_level() == 0, "the trail is not empty after a restart: " << show(t));
            for (auto [type, m] : t.models())
            {
                for (int o = 0; o < (int)m->num_vars(); ++o) { MC_CHECK(p, !m->is_defined(o) && !t.decision_level({o, type}) && !t.reason({o, type}), "a variable still has a value, level or reason after a restart"); }
            }
        }
        for (char const* p : {"C21", "C22"})
        {
            if (!wants(p)) { continue; }
            std::vector<std::vector<int>> now;
            for (auto& c : db.asserted()) { now.push_back(canon(c)); }
            MC_CHECK(p, now == asserted, "a restart changed the asserted clauses");
        }
        if (wants("C21"))
        {
            // the surviving clauses: exactly those that no other learned clause is strictly contained in
            std::vector<std::vector<int>> now, expected;
            for (auto& c : db.learned()) { now.push_back(canon(c)); }
            for (auto& c : clauses)
            {
                bool sub = false;
                for (auto& d : clauses) { sub = sub || (d.size() < c.size() && std::includes(c.begin(), c.end(), d.begin(), d.end())); }
                if (!sub) { expected.push_back(c); }
            }
            std::sort(now.begin(), now.end());
            std::sort(expected.begin(), expected.end());
            auto u = [](auto v) { v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
            MC_CHECK("C21", u(now) == u(expected), "after a restart " << now.size() << " learned clauses are left, " << expected.size() << " expected");
        }
    }

    // propagation finished without a conflict
    void stable(Database& db, Trail& t)
    {
        remember(t);
        if (wants("C07")) { reasons(t); }
        if (wants("C09"))
        {
            for (auto* list : {&db.asserted(), &db.learned()})
            {
                for (auto& c : *list)
                {
                    int un = 0;
                    bool sat = false;
                    for (auto l : c) { auto v = value(t, l); if (!v) { ++un; } else if (*v) { sat = true; break; } }
                    MC_CHECK("C09", sat || un >= 2 || (un == 1 && repeated(t, c)), "after propagation without conflict the clause " << show(c) << (un ? " is unit\n" : " is false\n") << show(t));
                }
            }
            reasons(t);
        }
        if (wants("C10")) { trail_consistent(t); }
        if (lra && (wants("C11") || wants("C12"))) { arithmetic(t); }
    }

    // C31: a clause that makes the search continue elsewhere says something no clause of the database said before
    void progress(Database& db, Trail& t, Clause const& c)
    {
        if (!wants("C31")) { return; }
        int top = -1, n = 0;
        for (auto l : c) { int lev = t.decision_level(l.var()).value_or(-1); if (lev > top) { top = lev; n = 1; } else if (lev == top) { ++n; } }
        MC_CHECK("C31", top > 0, "the conflict does not depend on a decision, but the search goes on: " << show(c) << "\n" << show(t));
        if (n != 1) { return; } // a literal is decided instead of the value of a real variable
        auto mine = canon(c);
        auto subsumes = [&](Clause const& k) {
            if (&k == &c) { return false; }
            auto o = canon(k);
            return std::includes(mine.begin(), mine.end(), o.begin(), o.end());
        };
        for (auto& k : db.asserted()) { MC_CHECK("C31", !subsumes(k), "the search learned " << show(c) << ", which the asserted clause " << show(k) << " says already\n" << show(t)); }
        for (auto& k : db.learned())
        {
            if (std::any_of(learned.begin(), learned.end(), [&](auto& o) { return canon(o) == canon(k); })) { continue; } // from the same conflict
            MC_CHECK("C31", !subsumes(k), "the search learned " << show(c) << ", which the learned clause " << show(k) << " says already\n" << show(t));
        }
    }
    void bounded()
    {
        MC_CHECK("C31", num_conflicts < max_conflicts && num_decisions < max_decisions, "the search had " << num_conflicts << " conflicts and " << num_decisions << " decisions without an answer");
        if (wants("C31")) { peak = std::max(peak, num_conflicts); if (getenv("MC_PEAK") && num_conflicts % 50 == 49) { fprintf(stderr, "peak %ld conflicts %ld decisions\n", num_conflicts, num_decisions); } }
    }
    long peak = 0;
    static constexpr long max_conflicts = 2000, max_decisions = 20000;

    // what happened, for the statistics
    long num_decisions = 0, num_conflicts = 0, num_clauses = 0, num_learned = 0, num_restarts = 0;
    void statistics(yaga::Solver const& s)
    {
        std::pair<char const*, std::pair<long, long>> all[] = {{"decisions", {s.num_decisions(), num_decisions}}, {"conflicts", {s.num_conflicts(), num_conflicts}}, {"conflict clauses", {s.num_conflict_clauses(), num_clauses}}, {"learned clauses", {s.num_learned_clauses(), num_learned}}, {"restarts", {s.num_restarts(), num_restarts}}};
        for (auto& [name, v] : all) { MC_CHECK("C27", v.first == v.second, "the solver reports " << v.first << " " << name << ", the search had " << v.second); }
    }

    // values each variable had last, seen at every stable state and every conflict
    std::map<int, bool> last_bool;
    std::map<int, ref::Q> last_decided;
    std::optional<yaga::Phase> phase; // strategy in force for Boolean decisions
    void remember(Trail& t)
    {
        if (!wants("C26")) { return; }
        auto const& m = t.model<bool>(Variable::boolean);
        for (int o = 0; o < (int)m.num_vars(); ++o) { if (m.is_defined(o)) { last_bool[o] = m.value(o); } }
    }
    // the values a decision may choose: asked before it is made
    struct Prospect { bool keep = false; std::optional<long> smallest; } prospect;
    void before_decision(Trail& t, Variable v)
    {
        if (!wants("C26") || !lra || v.type() != Variable::rational) { return; }
        auto models = lra->relevant_models(t);
        auto& b = lra->find_bounds(v.ord());
        auto it = last_decided.find(v.ord());
        prospect = {};
        prospect.keep = b.is_allowed(models, it == last_decided.end() ? Rational(0) : Rational(it->second.get_str().c_str()));
        ref::Q most = 0;
        for (auto p : {b.lower_bound(models), b.upper_bound(models)}) { if (p) { auto q = to_q(p->value()); most = std::max(most, q < 0 ? ref::Q(-q) : q); } }
        long span = most > 10000 ? -1 : (long)most.get_d() + 2 + (long)t.model<bool>(Variable::boolean).num_vars();
        for (long k = 0; k <= span && !prospect.smallest; ++k) { if (b.is_allowed(models, Rational((int)k)) || b.is_allowed(models, Rational((int)-k))) { prospect.smallest = k; } }
    }
    void decided_by_strategy(Trail& t, Variable v, bool chosen)
    {
        if (!wants("C26")) { return; }
        if (v.type() == Variable::boolean)
        {
            if (!phase) { return; }
            auto it = last_bool.find(v.ord());
            bool e = *phase == yaga::Phase::positive || (*phase == yaga::Phase::cache && (it == last_bool.end() || it->second));
            if (t.model<bool>(Variable::boolean).value(v.ord()) != e) { fail("variable " + std::to_string(v.ord()) + " was decided " + (e ? "false" : "true") + ", the " + (*phase == yaga::Phase::positive ? "positive" : *phase == yaga::Phase::negative ? "negative" : "cached") + " phase gives the opposite\n" + show(t)); }
        }
        else if (v.type() == Variable::rational && lra && !chosen)
        {
            auto q = to_q(t.model<Rational>(Variable::rational).value(v.ord()));
            auto it = last_decided.find(v.ord());
            auto keep = it == last_decided.end() ? ref::Q(0) : it->second;
            if (prospect.keep && q != keep) { fail("r" + std::to_string(v.ord()) + " was decided " + q.get_str() + " although its previous value " + keep.get_str() + " is allowed\n" + show(t)); }
            if (!prospect.keep && prospect.smallest && (q.get_den() != 1 || (q < 0 ? ref::Q(-q) : q) != *prospect.smallest)) { fail("r" + std::to_string(v.ord()) + " was decided " + q.get_str() + " although an integer of magnitude " + std::to_string(*prospect.smallest) + " is allowed\n" + show(t)); }
            last_decided[v.ord()] = q;
        }
    }

    // a real variable has just been decided
    void decided(Trail& t, Variable v)
    {
        if (!lra || !wants("C12") || v.type() != Variable::rational) { return; }
        auto const& m = t.model<Rational>(Variable::rational);
        MC_CHECK("C12", m.is_defined(v.ord()), "the decided variable has no value");
        values(t);
        for (int o = 0; o < (int)t.model<bool>(Variable::boolean).num_vars(); ++o)
        {
            auto& c = con(o);
            auto b = value(t, Literal{o});
            if (!c.is || !b) { continue; }
            auto e = eval(c);
            MC_CHECK("C12", !e || *e == *b, "the value " << to_q(m.value(v.ord())) << " decided for r" << v.ord() << " makes " << lit_str(Literal{o}) << (*e ? " true" : " false") << " which is assigned otherwise\n" << show(t));
        }
    }

    // unit constraints on v: is the value allowed by them?
    struct Unit_bounds {
        std::optional<ref::Q> lo, hi;
        bool lo_strict = false, hi_strict = false;
        std::vector<ref::Q> neq;
        bool allowed(ref::Q const& q) const
        {
            if (lo && (q < *lo || (q == *lo && lo_strict))) { return false; }
            if (hi && (q > *hi || (q == *hi && hi_strict))) { return false; }
            return std::find(neq.begin(), neq.end(), q) == neq.end();
        }
    };
    Unit_bounds unit_bounds(Trail& t, int var)
    {
        values(t);
        Unit_bounds u;
        for (int o = 0; o < (int)t.model<bool>(Variable::boolean).num_vars(); ++o)
        {
            auto& c = con(o);
            auto b = value(t, Literal{o});
            if (!c.is || !b) { continue; }
            ref::Q coef, rhs = c.rhs;
            bool unit = false, other = false;
            for (auto& [v, q] : c.lin)
            {
                if (v == var) { unit = true; coef = q; }
                else if (!vals[v]) { other = true; break; }
                else { rhs -= q * *vals[v]; }
            }
            if (!unit || other) { continue; }
            rhs /= coef;
            bool pos = *b != c.flip;
            bool up = coef > 0;     // coef * x <= rhs
            if (c.rel == '=')
            {
                if (!pos) { u.neq.push_back(rhs); continue; }
                lower(u, rhs, false);
                upper(u, rhs, false);
                continue;
            }
            bool strict = (c.rel == '<') == pos;
            if (up == pos) { upper(u, rhs, strict); }
            else { lower(u, rhs, strict); }
        }
        return u;
    }

    // with bound deduction: do the recorded bounds (checked by C11) leave a single value?
    bool deduced_single(Trail& t, Variable v)
    {
        if (!deduce || v.type() != Variable::rational) { return false; }
        auto models = lra->relevant_models(t);
        auto& b = lra->find_bounds(v.ord());
        auto lo = b.lower_bound(models), hi = b.upper_bound(models);
        return lo && hi && lo->value() == hi->value() && !lo->is_strict() && !hi->is_strict();
    }

    // does the implementation allow the value?
    bool allowed(Trail& t, int var, Rational const& r) { auto models = lra->relevant_models(t); return lra->find_bounds(var).is_allowed(models, r); }

    // hash of the assignment
    std::uint64_t hash(Trail& t)
    {
        std::uint64_t h = 7;
        for (int i = 1; i <= t.decision_level(); ++i)
        {
            for (auto a : t.assigned(i)) { h = mix(h, (std::uint64_t)a.var.ord() * 2 + a.var.type()); h = mix(h, mc::hash(val(t, a.var))); }
            h = mix(h, 99);
        }
        return h;
    }

    int stable_points = 0;
private:
    Oracle& oracle;
    yaga::Linear_arithmetic* lra;
    bool deduce;
    int named;
    std::vector<Con_copy> cons;
    struct Rec { Variable var; int level; Clause const* reason; std::string value; };
    std::vector<Rec> snapshot;
    struct Shape { int top, n, second; Clause tops; };
    std::vector<Shape> shapes;
    std::vector<Clause> learned;
    std::vector<std::vector<int>> asserted, clauses;
    std::vector<std::optional<ref::Q>> vals;
    bool pending = false, restarted = false;
    int target = 0;

    static void lower(Unit_bounds& u, ref::Q const& q, bool s) { if (!u.lo || q > *u.lo) { u.lo = q; u.lo_strict = s; } else if (q == *u.lo) { u.lo_strict |= s; } }
    static void upper(Unit_bounds& u, ref::Q const& q, bool s) { if (!u.hi || q < *u.hi) { u.hi = q; u.hi_strict = s; } else if (q == *u.hi) { u.hi_strict |= s; } }

    static bool repeated(Trail& t, Clause const& c)
    {
        // the unassigned literal occurs more than once
        int n = 0;
        std::optional<Literal> first;
        for (auto l : c) { if (!value(t, l)) { if (!first) { first = l; } if (l == *first) { ++n; } } }
        return n > 1;
    }

    static std::string val(Trail& t, Variable v)
    {
        auto& m = t.model(v.type());
        if (!m.is_defined(v.ord())) { return "?"; }
        return v.type() == Variable::boolean ? (t.model<bool>(Variable::boolean).value(v.ord()) ? "T" : "F") : t.model<Rational>(Variable::rational).value(v.ord()).get_str();
    }

    void values(Trail& t)
    {
        auto const& m = t.model<Rational>(Variable::rational);
        vals.assign(m.num_vars(), {});
        for (int i = 0; i < (int)m.num_vars(); ++i) { if (m.is_defined(i)) { vals[i] = to_q(m.value(i)); } }
    }

    // value of the positive literal under vals
    std::optional<bool> eval(Con_copy const& c)
    {
        ref::Q s = 0;
        for (auto& [v, q] : c.lin) { if (!vals[v]) { return {}; } s += q * *vals[v]; }
        bool r = c.rel == '=' ? s == c.rhs : c.rel == '<' ? s < c.rhs : s <= c.rhs;
        return r != c.flip;
    }

    void reasons(Trail& t)
    {
        for (auto a : t.recent())
        {
            if (!a.reason || a.var.type() != Variable::boolean) { continue; }
            int lev = *t.decision_level(a.var);
            bool found = false;
            for (auto l : *a.reason)
            {
                auto v = value(t, l);
                if (l.var() == a.var)
                {
                    for (char const* p : {"C07", "C09"}) { MC_CHECK(p, v && *v, "the reason " << show(*a.reason) << " of variable " << a.var.ord() << " does not contain the literal that is true\n" << show(t)); }
                    found = true;
                }
                else
                {
                    for (char const* p : {"C07", "C09"})
                    {
                        MC_CHECK(p, v && !*v, "the reason " << show(*a.reason) << " does not imply " << lit_str(Literal{a.var.ord()}) << ": " << lit_str(l) << " is not false\n" << show(t));
                        MC_CHECK(p, *t.decision_level(l.var()) <= lev, "the reason " << show(*a.reason) << " implies " << lit_str(Literal{a.var.ord()}) << " at level " << lev << " but " << lit_str(l) << " became false at a later level\n" << show(t));
                    }
                }
            }
            for (char const* p : {"C07", "C09"}) { MC_CHECK(p, found, "the reason of variable " << a.var.ord() << " does not mention it: " << show(*a.reason)); }
            if (wants("C07")) { MC_CHECK("C07", entailed(*a.reason), "the reason " << show(*a.reason) << " is not a consequence\n" << show(t)); }
        }
    }

    void trail_consistent(Trail& t)
    {
        std::map<std::pair<int, int>, std::vector<int>> where;
        for (int i = 0; i <= t.decision_level(); ++i)
        {
            for (auto a : t.assigned(i))
            {
                where[{a.var.type(), a.var.ord()}].push_back(i);
                MC_CHECK("C10", a.reason == t.reason(a.var), "the reason in the list of level " << i << " differs from the reason of the variable\n" << show(t));
            }
        }
        for (auto [type, m] : t.models())
        {
            for (int o = 0; o < (int)m->num_vars(); ++o)
            {
                Variable v{o, type};
                auto l = t.decision_level(v);
                auto it = where.find({type, o});
                MC_CHECK("C10", l.has_value() == m->is_defined(o), "variable " << o << " of type " << type << (l ? " has a level but no value" : " has a value but no level") << "\n" << show(t));
                MC_CHECK("C10", l.has_value() == (it != where.end()), "variable " << o << " of type " << type << (l ? " has a level but is not on the trail" : " is on the trail but has no level") << "\n" << show(t));
                if (!l) { MC_CHECK("C10", !t.reason(v), "an unassigned variable has a reason"); continue; }
                std::vector<int> e;
                for (int i = *l; i <= t.decision_level(); ++i) { e.push_back(i); if (t.assigned(i).size() && i > *l && false) { break; } }
                // a variable is listed from its level up to the level that was current when it was assigned
                auto& w = it->second;
                bool ok = !w.empty() && w.front() == *l;
                for (std::size_t i = 1; i < w.size(); ++i) { ok = ok && w[i] == w[i - 1] + 1; }
                MC_CHECK("C10", ok, "variable " << o << " of type " << type << " has level " << *l << " but is listed at other levels\n" << show(t));
            }
        }
    }

    void arithmetic(Trail& t)
    {
        values(t);
        auto models = lra->relevant_models(t);
        int nb = t.model<bool>(Variable::boolean).num_vars();
        if (wants("C12"))
        {
            for (int o = 0; o < nb; ++o)
            {
                auto& c = con(o);
                if (!c.is) { continue; }
                auto e = eval(c);
                if (!e) { continue; }
                auto b = value(t, Literal{o});
                MC_CHECK("C12", b, "all variables of " << lit_str(Literal{o}) << " have values but it has none\n" << show(t));
                MC_CHECK("C12", *b == *e, lit_str(Literal{o}) << " is " << (*e ? "true" : "false") << " but is assigned otherwise\n" << show(t));
                int lev = 0;
                for (auto& [v, q] : c.lin) { lev = std::max(lev, *t.decision_level({v, Variable::rational})); }
                MC_CHECK("C12", *t.decision_level({o, Variable::boolean}) <= lev, lit_str(Literal{o}) << " was assigned at level " << *t.decision_level({o, Variable::boolean}) << ", its last variable at level " << lev << "\n" << show(t));
            }
        }
        if (!wants("C11")) { return; }
        for (int x = 0; x < (int)vals.size(); ++x)
        {
            if (vals[x]) { continue; }
            auto u = unit_bounds(t, x);
            auto& b = lra->find_bounds(x);
            auto lo = b.lower_bound(models);
            auto hi = b.upper_bound(models);
            std::optional<ref::Q> l, h;
            if (lo) { l = to_q(lo->value()); }
            if (hi) { h = to_q(hi->value()); }
            bool ls = lo && lo->is_strict(), hs = hi && hi->is_strict();
            if (!deduce)
            {
                MC_CHECK("C11", l == u.lo && (!l || ls == u.lo_strict), "lower bound of r" << x << " is " << (l ? l->get_str() : "none") << (ls ? " (strict)" : "") << ", the true constraints give " << (u.lo ? u.lo->get_str() : "none") << (u.lo_strict ? " (strict)" : "") << "\n" << show(t));
                MC_CHECK("C11", h == u.hi && (!h || hs == u.hi_strict), "upper bound of r" << x << " is " << (h ? h->get_str() : "none") << (hs ? " (strict)" : "") << ", the true constraints give " << (u.hi ? u.hi->get_str() : "none") << (u.hi_strict ? " (strict)" : "") << "\n" << show(t));
            }
            else
            {
                MC_CHECK("C11", !u.lo || (l && (*l > *u.lo || (*l == *u.lo && (ls || !u.lo_strict)))), "lower bound of r" << x << " is weaker than the true unit constraints give\n" << show(t));
                MC_CHECK("C11", !u.hi || (h && (*h < *u.hi || (*h == *u.hi && (hs || !u.hi_strict)))), "upper bound of r" << x << " is weaker than the true unit constraints give\n" << show(t));
                // never stronger than the true constraints imply: the values a bound excludes are impossible
                if (l && !(u.lo && *u.lo == *l && u.lo_strict == ls)) { MC_CHECK("C11", impossible(t, x, *l, ls, true), "lower bound " << *l << (ls ? " (strict)" : "") << " of r" << x << " is stronger than the true constraints imply\n" << show(t)); }
                if (h && !(u.hi && *u.hi == *h && u.hi_strict == hs)) { MC_CHECK("C11", impossible(t, x, *h, hs, false), "upper bound " << *h << (hs ? " (strict)" : "") << " of r" << x << " is stronger than the true constraints imply\n" << show(t)); }
            }
            // excluded values
            auto cand = u.neq;
            if (u.lo) { cand.push_back(*u.lo); }
            if (u.hi) { cand.push_back(*u.hi); }
            if (l) { cand.push_back(*l); }
            if (h) { cand.push_back(*h); }
            for (auto i : {-1, 0, 1}) { cand.push_back(i); }
            auto n = cand.size();
            if (u.lo && u.hi) { cand.push_back((*u.lo + *u.hi) / 2); }
            for (std::size_t i = 0; i < n; ++i) { cand.push_back(cand[i] + 1); cand.push_back(cand[i] - 1); }
            for (auto& q : cand)
            {
                Rational r(q.get_str().c_str());
                bool a = b.is_allowed(models, r);
                bool e = u.allowed(q);
                bool neq = std::find(u.neq.begin(), u.neq.end(), q) != u.neq.end();
                MC_CHECK("C11", (b.inequality(models, r) != nullptr) == neq, "value " << q << " of r" << x << (neq ? " is excluded by a true constraint but not recorded" : " is recorded as excluded without a true constraint") << "\n" << show(t));
                if (!deduce) { MC_CHECK("C11", a == e, "value " << q << " of r" << x << " is " << (a ? "" : "not ") << "allowed, the true constraints say otherwise\n" << show(t)); }
                else { MC_CHECK("C11", !a || e, "value " << q << " of r" << x << " is allowed although a true constraint forbids it\n" << show(t)); }
            }
        }
    }

    bool impossible(Trail& t, int x, ref::Q const& bound, bool strict, bool lower_bound)
    {
        std::vector<ref::Con> k;
        std::vector<ref::Con> neqs;
        for (int o = 0; o < (int)t.model<bool>(Variable::boolean).num_vars(); ++o)
        {
            auto& c = con(o);
            auto b = value(t, Literal{o});
            if (!c.is || !b) { continue; }
            bool pos = *b != c.flip;
            ref::Lin l(-c.rhs);
            for (auto& [v, q] : c.lin) { if (vals[v]) { l.c += q * *vals[v]; } else { l.add(ref::Lin::var(v), q); } }
            if (c.rel == '=') { if (pos) { k.push_back({l, ref::Rel::eq}); } }
            else if (pos) { k.push_back({l, c.rel == '<' ? ref::Rel::lt : ref::Rel::le}); }
            else { k.push_back({l.scaled(-1), c.rel == '<' ? ref::Rel::le : ref::Rel::lt}); }
        }
        // x below the bound (or equal to a strict one)
        ref::Lin d(-bound);
        d.add(ref::Lin::var(x), 1);
        k.push_back({lower_bound ? d : d.scaled(-1), strict ? ref::Rel::le : ref::Rel::lt});
        return !ref::feasible(k);
    }

    void after_backtrack(Database& db, Trail& t)
    {
        if (wants("C10") && !restarted)
        {
            std::map<std::pair<int, int>, int> kept;
            for (auto& r : snapshot)
            {
                if (r.level > target) { continue; }
                kept[{r.var.type(), r.var.ord()}] = 1;
                auto l = t.decision_level(r.var);
                MC_CHECK("C10", l, "backtracking to level " << target << " lost variable " << r.var.ord() << " of type " << r.var.type() << " assigned at level " << r.level << "\n" << show(t));
                MC_CHECK("C10", *l == r.level && t.reason(r.var) == r.reason && val(t, r.var) == r.value, "backtracking to level " << target << " changed the value, level or reason of variable " << r.var.ord() << " of type " << r.var.type() << "\n" << show(t));
            }
            for (auto& r : snapshot)
            {
                if (r.level <= target) { continue; }
                auto l = t.decision_level(r.var);
                if (!l) { MC_CHECK("C10", val(t, r.var) == "?" && !t.reason(r.var), "a variable undone by backtracking keeps a value or reason\n" << show(t)); continue; }
                // reassigned by the learned clauses
                bool by_learned = false;
                for (auto& c : learned) { for (auto x : c) { by_learned = by_learned || x.var() == r.var; } }
                MC_CHECK("C10", by_learned, "variable " << r.var.ord() << " of type " << r.var.type() << " assigned at level " << r.level << " survived backtracking to level " << target << "\n" << show(t));
            }
            trail_consistent(t);
        }
        if (wants("C08") && !restarted && !learned.empty())
        {
            bool uip = false, split = false;
            for (auto& s : shapes) { (s.n == 1 ? uip : split) = true; }
            MC_CHECK("C08", uip != split, "clauses that imply a literal and clauses that need a decision are learned together");
            for (std::size_t i = 0; i < shapes.size(); ++i)
            {
                auto& s = shapes[i];
                if (s.n == 1)
                {
                    MC_CHECK("C08", target == s.second, "the search returned to level " << target << " for a clause with levels " << s.top << " and " << s.second << ": " << show(learned[i]) << "\n" << show(t));
                    MC_CHECK("C08", t.decision_level() == target, "the decision level is " << t.decision_level() << " after returning to level " << target);
                    auto v = value(t, s.tops[0]);
                    MC_CHECK("C08", v, "the literal implied by the learned clause " << show(learned[i]) << " is not set after backjumping\n" << show(t));
                    MC_CHECK("C08", shapes.size() > 1 || (*v && *t.decision_level(s.tops[0].var()) == target && t.reason(s.tops[0].var()) && canon(*t.reason(s.tops[0].var())) == canon(learned[i])), "the literal implied by the learned clause " << show(learned[i]) << " is not set with that clause as its reason\n" << show(t));
                }
                else
                {
                    MC_CHECK("C08", target == s.top - 1, "the search returned to level " << target << " for a clause with several literals at level " << s.top << "\n" << show(t));
                    if (i == 0)
                    {
                        MC_CHECK("C08", t.decision_level() == s.top && t.assigned(s.top).size() == 1, "no literal of " << show(learned[i]) << " was decided\n" << show(t));
                    }
                }
            }
            if (split)
            {
                bool one = false;
                for (auto& s : shapes) { for (auto l : s.tops) { one = one || (t.assigned(t.decision_level()).front().var == l.var() && value(t, l).value_or(false)); } }
                MC_CHECK("C08", one, "the decision after returning is not one of the literals of the learned clause\n" << show(t));
            }
        }
        if (wants("C08") || wants("C09"))
        {
            // asserted and learned clauses are never changed by backtracking
            if (!restarted)
            {
                std::vector<std::vector<int>> now;
                for (auto& c : db.asserted()) { now.push_back(canon(c)); }
                for (char const* p : {"C08", "C09"}) { MC_CHECK(p, now == asserted, "asserted clauses changed"); }
            }
        }
        shapes.clear();
    }
};

// every nondeterministic choice of a search
struct Controls {
    Chooser* ch = nullptr;
    int base = 0;          // base order, see Controlled_order
    int max_restarts = 1;
    bool values = false;   // also choose values of real variables
    bool cache = false;    // the default phase is the cached one
    int max_steps = 2000;
};

class Controlled_restart final : public yaga::Restart {
public:
    Controlled_restart(Controls& c) : c(c) {}
    bool should_restart() const override
    {
        if (used >= c.max_restarts) { return false; }
        bool r = c.ch->choose(2) == 1;
        used += r;
        return r;
    }
private:
    Controls& c;
    mutable int used = 0;
};

inline constexpr int num_bases = 6;

class Controlled_order final : public yaga::Variable_order {
public:
    Controlled_order(Controls& c, Monitor& m, yaga::Bool_theory* bcp, std::unique_ptr<yaga::Variable_order> real) : c(c), m(m), bcp(bcp), real(std::move(real)) {}
    std::optional<Rational> chosen; // value for the picked real variable

    std::optional<Variable> pick(Database& db, Trail& t) override
    {
        m.stable(db, t);
        state(mix(m.hash(t), salt));
        chosen.reset();
        std::vector<Variable> un;
        for (auto [type, model] : t.models())
        {
            for (int o = 0; o < (int)model->num_vars(); ++o) { if (!model->is_defined(o)) { un.push_back({o, type}); } }
        }
        std::optional<Variable> first;
        bool ask_real = c.base == 5 && real;
        if (ask_real)
        {
            first = real->pick(db, t);
            if (first)
            {
                MC_CHECK("C20", std::find(un.begin(), un.end(), *first) != un.end(), "the order picked a variable that has a value: " << first->ord() << " of type " << first->type() << "\n" << m.show(t));
                if (std::find(un.begin(), un.end(), *first) == un.end()) { first.reset(); }
            }
            if (first) { judge_pick(t, *first, un); }
            else { MC_CHECK("C20", un.empty(), "the order reported completion while variable " << un[0].ord() << " of type " << un[0].type() << " has no value\n" << m.show(t)); }
        }
        if (un.empty()) { return {}; }
        if (++steps > c.max_steps) { fail("no answer after " + std::to_string(steps) + " decisions"); }
        transitions();
        auto rank = [&](Variable v) -> int {
            bool b = v.type() == Variable::boolean;
            switch (c.base)
            {
            case 0: return (b ? 0 : 1000) + v.ord();
            case 1: return (b ? 1000 : 0) + v.ord();
            case 2: return (b ? 0 : 1000) + 500 - v.ord();
            case 3: return (b ? 1000 : 0) + 500 - v.ord();
            case 4: return v.ord() * 2 + (b ? 0 : 1);
            default: return (b ? 0 : 1000) + v.ord();
            }
        };
        std::stable_sort(un.begin(), un.end(), [&](auto a, auto b) { return rank(a) < rank(b); });
        if (first) { std::stable_partition(un.begin(), un.end(), [&](auto v) { return v == *first; }); }
        bool pos = c.base != 2 && c.base != 3;
        // options: default, then every other variable/phase/value
        struct Opt { Variable v; int alt; };
        std::vector<Opt> opts;
        for (auto v : un)
        {
            int alts = v.type() == Variable::boolean ? (c.cache ? 3 : 2) : c.values ? 4 : 1;
            for (int a = 0; a < alts; ++a) { opts.push_back({v, a}); }
        }
        int k = c.ch->choose((int)opts.size());
        auto [v, alt] = opts[k];
        if (v.type() == Variable::boolean)
        {
            if (bcp)
            {
                m.phase = c.cache && alt == 0 ? yaga::Phase::cache : ((alt == (c.cache ? 1 : 0)) == pos) ? yaga::Phase::positive : yaga::Phase::negative;
                bcp->set_phase(*m.phase);
            }
        }
        else if (alt > 0)
        {
            auto u = m.unit_bounds(t, v.ord());
            std::optional<ref::Q> q;
            if (alt == 1) { q = u.lo ? (u.lo_strict ? (u.hi ? ref::Q((*u.lo * 3 + *u.hi) / 4) : ref::Q(*u.lo + ref::Q(1, 3))) : *u.lo) : u.hi ? ref::Q(*u.hi - 7) : ref::Q(-5, 2); }
            if (alt == 2) { q = u.hi ? (u.hi_strict ? (u.lo ? ref::Q((*u.lo + *u.hi * 3) / 4) : ref::Q(*u.hi - ref::Q(1, 3))) : *u.hi) : u.lo ? ref::Q(*u.lo + 7) : ref::Q(5, 2); }
            if (alt == 3) { q = u.lo && u.hi ? ref::Q((*u.lo + *u.hi) / 2) : ref::Q(1, 2); }
            if (q && u.allowed(*q))
            {
                q->canonicalize();
                Rational r(q->get_str().c_str());
                if (m.allowed(t, v.ord(), r)) { chosen = r; }
            }
        }
        return v;
    }
    bool is_before(Variable l, Variable r) const override
    {
        bool d = c.base == 5 && real ? real->is_before(l, r) : c.base == 2 || c.base == 3 ? l.ord() > r.ord() : l.ord() < r.ord();
        return c.ch->choose(2) == 0 ? d : !d;
    }
    // reference activity: sums of exponentially growing increments
    bool generalized = false, effectively = false;
    std::map<std::pair<int, int>, long double> activity;
    long double inc = 1;
    void bump(Clause const& k)
    {
        for (auto l : k)
        {
            activity[{Variable::boolean, l.var().ord()}] += inc;
            if (!generalized) { continue; }
            auto& con = m.con(l.var().ord());
            if (con.is) { for (auto& [v, q] : con.lin) { activity[{Variable::rational, v}] += inc; } }
        }
    }
    bool single_value(Trail& t, Variable v)
    {
        if (v.type() != Variable::rational) { return false; }
        auto u = m.unit_bounds(t, v.ord());
        return u.lo && u.hi && *u.lo == *u.hi && !u.lo_strict && !u.hi_strict;
    }
    void judge_pick(Trail& t, Variable v, std::vector<Variable> const& un)
    {
        if (!wants("C20")) { return; }
        if (effectively && (single_value(t, v) || m.deduced_single(t, v))) { return; }
        for (auto o : un)
        {
            if (effectively && single_value(t, o)) { fail("variable " + std::to_string(v.ord()) + " of type " + std::to_string(v.type()) + " was picked although r" + std::to_string(o.ord()) + " has a single possible value\n" + m.show(t)); }
            auto a = activity[{v.type(), v.ord()}], b = activity[{o.type(), o.ord()}];
            if (a < b * (1 - 1e-4L)) { fail("variable " + std::to_string(v.ord()) + " of type " + std::to_string(v.type()) + " of activity " + std::to_string((double)a) + " was picked, but variable " + std::to_string(o.ord()) + " of type " + std::to_string(o.type()) + " has activity " + std::to_string((double)b) + "\n" + m.show(t)); }
        }
    }
    void on_init(Database& db, Trail& t) override
    {
        activity.clear();
        for (auto& k : db.asserted()) { bump(k); }
        if (real) { real->on_init(db, t); }
    }
    void on_variable_resize(Variable::Type ty, int n) override { if (real) { real->on_variable_resize(ty, n); } }
    void on_before_backtrack(Database& db, Trail& t, int l) override { if (real) { real->on_before_backtrack(db, t, l); } }
    void on_learned_clause(Database& db, Trail& t, Clause const& k) override { bump(k); inc *= 1.05L; if (real) { real->on_learned_clause(db, t, k); } }
    void on_conflict_resolved(Database& db, Trail& t, Clause const& k) override { bump(k); if (real) { real->on_conflict_resolved(db, t, k); } }
    void on_restart(Database& db, Trail& t) override { if (real) { real->on_restart(db, t); } }
    std::uint64_t salt = 0;
    int steps = 0;
private:
    Controls& c;
    Monitor& m;
    yaga::Bool_theory* bcp;
    std::unique_ptr<yaga::Variable_order> real;
};

// forwards to the combination of the real theories and reports to the monitor
class Observed_theory final : public yaga::Theory {
public:
    Monitor* m = nullptr;
    Controlled_order* order = nullptr;
    yaga::Theory_combination all;
    std::vector<Clause> propagate(Database& db, Trail& t) override
    {
        m->entry(db, t);
        auto c = all.propagate(db, t);
        if (!c.empty())
        {
            if (t.decision_level() > 0) { ++m->num_conflicts; m->num_clauses += c.size(); }
            m->bounded();
            m->conflicts(t, c);
        }
        return c;
    }
    void decide(Database& db, Trail& t, Variable v) override
    {
        ++m->num_decisions;
        m->bounded();
        m->before_decision(t, v);
        if (v.type() == Variable::rational && order->chosen)
        {
            t.model<Rational>(Variable::rational).set_value(v.ord(), *order->chosen);
            t.decide(v);
        }
        else { all.decide(db, t, v); }
        m->decided_by_strategy(t, v, order->chosen.has_value());
        m->decided(t, v);
    }
    void on_init(Database& db, Trail& t) override { all.on_init(db, t); }
    void on_variable_resize(Variable::Type ty, int n) override { all.on_variable_resize(ty, n); }
    void on_before_backtrack(Database& db, Trail& t, int l) override { m->before_backtrack(db, t, l); all.on_before_backtrack(db, t, l); }
    void on_learned_clause(Database& db, Trail& t, Clause const& c) override { ++m->num_learned; m->progress(db, t, c); m->on_learned(t, c); all.on_learned_clause(db, t, c); }
    void on_conflict_resolved(Database& db, Trail& t, Clause const& c) override { m->resolved(t, c); all.on_conflict_resolved(db, t, c); }
    void on_restart(Database& db, Trail& t) override { ++m->num_restarts; m->restart(db, t); all.on_restart(db, t); }
};

// consequences of a clause set over a pool
struct Pool_oracle final : Oracle {
    Pool const& p;
    Cnf const& f;
    Pool_oracle(Pool const& p, Cnf const& f) : p(p), f(f) {}
    std::map<int, int> lit_of; // variable ordinal -> pool literal (with sign)
    std::map<int, int> bool_of; // Boolean variable ordinal -> 0-1 variable of the pool
    std::map<int, int> real_of; // rational variable ordinal -> real variable of the pool (empty: the same)
    bool entailed(Clause const& c, std::function<Con_copy const&(int)> const& con) override
    {
        // the negated clause: literals of the pool fix bits of a cell, other constraints are added to it
        std::vector<ref::Con> extra;
        std::vector<std::vector<ref::Con>> splits;
        std::uint64_t need = 0, val = 0;
        bool theory_only = true;
        std::vector<std::pair<Con_copy const*, bool>> all;
        for (auto l : c)
        {
            auto& k = con(l.var().ord());
            if (k.is) { all.emplace_back(&k, l.is_negation() != k.flip); }  // truth of `lin rel rhs` when the literal is false
            else { theory_only = false; }
        }
        // a consequence of the theory alone?
        if (theory_only && !feasible(all, {})) { return true; }
        std::vector<std::pair<Con_copy const*, bool>> rest;
        std::deque<Con_copy> own;
        for (auto l : c)
        {
            auto it = lit_of.find(l.var().ord());
            if (it != lit_of.end())
            {
                int pl = it->second;
                bool v = l.is_negation() == (pl > 0); // value of the pool literal that makes l false
                std::uint64_t bit = 1ull << (std::abs(pl) - 1);
                if (need & bit && ((val & bit) != 0) != v) { return true; } // the clause is a tautology
                need |= bit;
                if (v) { val |= bit; }
            }
            else
            {
                auto& k = con(l.var().ord());
                if (!k.is && bool_of.contains(l.var().ord()))
                {
                    // a Boolean term represented by a 0-1 variable
                    auto& c = own.emplace_back();
                    c.is = true;
                    c.lin = {{-1 - bool_of.at(l.var().ord()), 1}};
                    c.rel = '=';
                    c.rhs = 1;
                    rest.emplace_back(&c, l.is_negation());
                    continue;
                }
                if (!k.is) { return false; } // a fresh Boolean variable without meaning
                rest.emplace_back(&k, l.is_negation() != k.flip);
            }
        }
        for (auto cell : p.cells)
        {
            for (std::uint32_t b = 0; b < (1u << p.nb); ++b)
            {
                std::uint64_t a = cell | ((std::uint64_t)b << p.atoms.size());
                if ((a & need) != val || !Pool::eval(f, a)) { continue; }
                if (rest.empty()) { return false; }
                std::vector<std::pair<Atom const*, bool>> atoms;
                for (std::size_t i = 0; i < p.atoms.size(); ++i) { atoms.emplace_back(&p.atoms[i], cell >> i & 1); }
                if (feasible(rest, atoms)) { return false; }
            }
        }
        return true;
    }
private:
    bool feasible(std::vector<std::pair<Con_copy const*, bool>> const& a, std::vector<std::pair<Atom const*, bool>> const& atoms)
    {
        std::vector<std::vector<ref::Con>> alts;
        for (auto& [k, pos] : a)
        {
            ref::Lin l(-k->rhs);
            for (auto& [v, q] : k->lin) { l.add(ref::Lin::var(v < 0 ? -1 - v : real_of.empty() ? v : real_of.at(v)), q); }
            if (k->rel == '=')
            {
                if (pos) { alts.push_back({{l, ref::Rel::eq}}); }
                else { alts.push_back({{l, ref::Rel::lt}, {l.scaled(-1), ref::Rel::lt}}); }
            }
            else if (pos) { alts.push_back({{l, k->rel == '<' ? ref::Rel::lt : ref::Rel::le}}); }
            else { alts.push_back({{l.scaled(-1), k->rel == '<' ? ref::Rel::le : ref::Rel::lt}}); }
        }
        for (auto& [at, pos] : atoms) { alts.push_back(at->con(pos)); }
        std::vector<ref::Con> cur;
        return rec(alts, 0, cur);
    }
    bool rec(std::vector<std::vector<ref::Con>> const& alts, std::size_t i, std::vector<ref::Con>& cur)
    {
        if (i == alts.size()) { return p.feasible(cur); }
        for (auto& a : alts[i])
        {
            cur.push_back(a);
            bool r = rec(alts, i + 1, cur);
            cur.pop_back();
            if (r) { return true; }
        }
        return false;
    }
};

// One run of the real solver on a clause set over a pool, under the choices of `ctl`. Returns the answer.
struct Lra_search {
    Pool const& p;
    Cnf const& f;
    Controls& ctl;
    Pool_oracle& oracle;
    bool deduce;
    yaga::terms::Term_manager tm;
    yaga::Solver solver{tm};
    Observed_theory* th;
    yaga::Bool_theory* bcp;
    yaga::Linear_arithmetic* lra = nullptr;
    std::vector<Literal> lits; // literal of each pool literal
    std::unique_ptr<Monitor> mon;

    Lra_search(Pool const& p, Cnf const& f, Controls& ctl, Pool_oracle& oracle, bool deduce, bool prop_rational) : p(p), f(f), ctl(ctl), oracle(oracle), deduce(deduce)
    {
        auto& t = solver.trail();
        t.set_model<bool>(Variable::boolean, 0);
        t.set_model<Rational>(Variable::rational, std::max(p.reals, 0));
        th = &solver.set_theory<Observed_theory>();
        bcp = &th->all.add_theory<yaga::Bool_theory>();
        lra = &th->all.add_theory<yaga::Linear_arithmetic>();
        yaga::Linear_arithmetic::Options o;
        o.prop_bounds = deduce;
        o.prop_rational = prop_rational;
        lra->set_options(o);
        th->on_variable_resize(Variable::rational, std::max(p.reals, 0));
        for (auto& a : p.atoms)
        {
            std::vector<int> vars;
            std::vector<Rational> coef;
            for (auto [v, c] : a.lin) { vars.push_back(v); coef.push_back(Rational((int)c)); }
            auto pred = a.rel == '=' ? yaga::Order_predicate::eq : a.rel == '<' ? yaga::Order_predicate::lt : yaga::Order_predicate::leq;
            lits.push_back(lra->constraint(t, vars, coef, pred, Rational((int)a.rhs) / Rational(a.den)).lit());
        }
        for (int i = 0; i < p.nb; ++i)
        {
            int n = t.model<bool>(Variable::boolean).num_vars();
            t.resize(Variable::boolean, n + 1);
            lits.push_back(Literal{n});
        }
        oracle.lit_of.clear();
        for (std::size_t i = 0; i < lits.size(); ++i) { oracle.lit_of.emplace(lits[i].var().ord(), lits[i].is_negation() ? -(int)(i + 1) : (int)(i + 1)); }
        mon = std::make_unique<Monitor>(oracle, lra, deduce, t.model<bool>(Variable::boolean).num_vars());
        th->m = mon.get();
        std::unique_ptr<yaga::Variable_order> real;
        if (ctl.base == 5)
        {
            if (p.atoms.empty()) { real = std::make_unique<yaga::Evsids>(); }
            else { real = std::make_unique<yaga::Generalized_vsids>(*lra); }
            for (auto [type, m] : t.models()) { real->on_variable_resize(type, m->num_vars()); }
        }
        th->order = &solver.set_variable_order<Controlled_order>(ctl, *mon, bcp, std::move(real));
        th->order->generalized = !p.atoms.empty();
        th->order->effectively = prop_rational && !p.atoms.empty();
        solver.set_restart_policy<Controlled_restart>(ctl);
        th->order->salt = f.hash();
        for (auto& c : f.clauses)
        {
            Clause k;
            for (int l : c) { k.push_back(l > 0 ? lits[l - 1] : ~lits[-l - 1]); }
            solver.db().assert_clause(std::move(k));
        }
    }

    bool check()
    {
        bool sat = solver.check() == yaga::Solver::Result::sat;
        mon->statistics(solver);
        traces();
        outcome(sat);
        return sat;
    }

    // "" iff the final assignment is total and satisfies the instance
    std::string check_model()
    {
        auto& t = solver.trail();
        for (auto [type, m] : t.models()) { for (int o = 0; o < (int)m->num_vars(); ++o) { if (!m->is_defined(o)) { return "answered sat but variable " + std::to_string(o) + " of type " + std::to_string(type) + " has no value"; } } }
        std::uint64_t a = 0;
        std::vector<ref::Q> v;
        for (int i = 0; i < p.reals; ++i) { v.push_back(to_q(t.model<Rational>(Variable::rational).value(i))); }
        for (std::size_t i = 0; i < p.atoms.size(); ++i)
        {
            ref::Q s = 0, r(p.atoms[i].rhs, p.atoms[i].den);
            r.canonicalize();
            for (auto [x, c] : p.atoms[i].lin) { s += v[x] * ref::Q(c); }
            if (p.atoms[i].rel == '=' ? s == r : p.atoms[i].rel == '<' ? s < r : s <= r) { a |= 1ull << i; }
        }
        for (int i = 0; i < p.nb; ++i) { if (Monitor::value(t, lits[p.atoms.size() + i]).value_or(false)) { a |= 1ull << (p.atoms.size() + i); } }
        if (!Pool::eval(f, a)) { return "answered sat but the assignment does not satisfy the problem: " + mon->show(t); }
        return "";
    }
};

} // namespace mc
#endif
