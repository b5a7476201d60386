// C29: events and propagation of composed components. Recording components behind the real dispatcher, the real combination
// of theories and the real solver; scripted theories for the joint fixpoint; a real theory's view of the trail.
#include "Bool_theory.h"
#include "Database.h"
#include "Event_dispatcher.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Rational.h"
#include "Restart.h"
#include "Theory_combination.h"
#include "Trail.h"
#include "boolsolver.h"
#include "runner.h"
#include <algorithm>
#include <map>
#include <set>
#include <sstream>

using namespace mc;
using namespace yaga;

namespace {

struct Event {
    std::string what;
    void const* db = nullptr;
    void const* trail = nullptr;
    void const* clause = nullptr;
    long a = 0, b = 0;
    bool operator==(Event const&) const = default;
    std::string str() const { return what + "(" + std::to_string(a) + "," + std::to_string(b) + ")"; }
};

struct Log {
    std::vector<std::pair<int, Event>> all; // (component, event) in order
};

template <typename Base> struct Recorder : public Base {
    int id;
    Log* log;
    Recorder(int id, Log* log) : id(id), log(log) {}
    void put(Event e) { log->all.push_back({id, std::move(e)}); }
    void on_init(Database& d, Trail& t) override { put({"init", &d, &t}); }
    void on_variable_resize(Variable::Type ty, int n) override { put({"resize", nullptr, nullptr, nullptr, ty, n}); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { put({"backtrack", &d, &t, nullptr, l}); }
    void on_learned_clause(Database& d, Trail& t, Clause const& c) override { put({"learned", &d, &t, &c}); }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& c) override { put({"resolved", &d, &t, &c}); }
    void on_restart(Database& d, Trail& t) override { put({"restart", &d, &t}); }
};

struct Theory_recorder : public Recorder<Theory> {
    using Recorder::Recorder;
    std::vector<Clause> propagate(Database& d, Trail& t) override { put({"propagate", &d, &t}); return {}; }
    void decide(Database& d, Trail& t, Variable v) override { put({"decide", &d, &t, nullptr, v.type(), v.ord()}); }
};

// every event of a bounded history reaches each component added before it, once, in order of addition, unaltered
struct Forward {
    Event_dispatcher own;
    Trail trail{own};
    Database db;
    Clause c[2] = {Clause{Literal{0}}, Clause{Literal{1}, Literal{0}}};

    // events to send: 0 init, 1-4 resize, 5-6 backtrack, 7-8 learned, 9-10 resolved, 11 restart
    template <typename L> Event send(L& to, int e)
    {
        switch (e)
        {
        case 0: to.on_init(db, trail); return {"init", &db, &trail};
        case 1: case 2: case 3: case 4: {
            auto ty = (e - 1) / 2 ? Variable::rational : Variable::boolean;
            int n = (e - 1) % 2 ? 3 : 1;
            to.on_variable_resize(ty, n);
            return {"resize", nullptr, nullptr, nullptr, ty, n};
        }
        case 5: case 6: to.on_before_backtrack(db, trail, e - 5); return {"backtrack", &db, &trail, nullptr, e - 5};
        case 7: case 8: to.on_learned_clause(db, trail, c[e - 7]); return {"learned", &db, &trail, &c[e - 7]};
        case 9: case 10: to.on_conflict_resolved(db, trail, c[e - 9]); return {"resolved", &db, &trail, &c[e - 9]};
        default: to.on_restart(db, trail); return {"restart", &db, &trail};
        }
    }
};

std::string show(std::vector<std::pair<int, Event>> const& l)
{
    std::string s;
    for (auto& [i, e] : l) { s += " " + std::to_string(i) + ":" + e.str(); }
    return s.empty() ? " (nothing)" : s;
}

void dispatcher_history(std::vector<int> const& ops)
{
    Forward f;
    Event_dispatcher d;
    Log log;
    std::vector<std::unique_ptr<Recorder<Event_listener>>> all;
    std::vector<int> present;
    std::uint64_t h = 1;
    for (int op : ops)
    {
        std::vector<std::pair<int, Event>> want;
        log.all.clear();
        if (op == 12)
        {
            int id = all.size();
            all.push_back(std::make_unique<Recorder<Event_listener>>(id, &log));
            d.add(all.back().get());
            present.push_back(id);
        }
        else if (op == 13) { d.remove(all.empty() ? nullptr : all.front().get()); if (!all.empty()) { std::erase(present, 0); } }
        else if (op == 14) { d.remove(all.empty() ? nullptr : all.back().get()); if (!all.empty()) { std::erase(present, int(all.size()) - 1); } }
        else { auto e = f.send(d, op); for (int id : present) { want.push_back({id, e}); } }
        transitions();
        h = mix(h, present.size() * 16 + op);
        if (log.all != want) { fail("after operation " + std::to_string(op) + " the components got" + show(log.all) + ", expected" + show(want)); }
    }
    state(h);
    traces();
}

void theories_history(std::vector<int> const& ops)
{
    Forward f;
    Theory_combination d;
    Log log;
    int count = 0;
    std::map<int, int> size;
    std::map<int, std::map<int, int>> known; // number of variables each theory has been told
    std::uint64_t h = 2;
    f.trail.set_model<bool>(Variable::boolean, 3);
    f.trail.set_model<Rational>(Variable::rational, 3);
    for (int op : ops)
    {
        std::vector<std::pair<int, Event>> want;
        log.all.clear();
        bool exact = true;
        if (op == 12) { d.add_theory<Theory_recorder>(count++, &log); exact = false; }
        else if (op == 13 || op == 14)
        {
            Variable v{op - 13, op == 13 ? Variable::boolean : Variable::rational};
            d.decide(f.db, f.trail, v);
            for (int i = 0; i < count; ++i) { want.push_back({i, {"decide", &f.db, &f.trail, nullptr, v.type(), v.ord()}}); }
        }
        else if (op == 15)
        {
            if (!d.propagate(f.db, f.trail).empty()) { fail("a conflict out of nothing"); }
            for (int i = 0; i < count; ++i) { want.push_back({i, {"propagate", &f.db, &f.trail}}); }
            exact = false;
            std::set<int> asked;
            for (auto& [i, e] : log.all) { if (e != Event{"propagate", &f.db, &f.trail}) { fail("unexpected event in propagate:" + show(log.all)); } asked.insert(i); }
            if (int(asked.size()) != count) { fail("not all theories were asked to propagate:" + show(log.all)); }
        }
        else
        {
            auto e = f.send(d, op);
            if (e.what == "resize") { size[e.a] = e.b; }
            for (int i = 0; i < count; ++i) { want.push_back({i, e}); }
        }
        transitions();
        for (auto& [i, e] : log.all) { if (e.what == "resize") { known[i][e.a] = e.b; } }
        for (int i = 0; i < count; ++i)
        {
            for (auto& [ty, n] : size) { if (known[i][ty] != n) { fail("theory " + std::to_string(i) + " knows " + std::to_string(known[i][ty]) + " variables of type " + std::to_string(ty) + " instead of " + std::to_string(n)); } }
        }
        if (op == 12) { for (auto& [i, e] : log.all) { if (i != count - 1 || e.what != "resize") { fail("adding a theory caused" + show(log.all)); } } }
        h = mix(h, count * 16 + op);
        if (exact && log.all != want) { fail("after operation " + std::to_string(op) + " the theories got" + show(log.all) + ", expected" + show(want)); }
        int n = 0;
        for (auto th : d.theories()) { if (dynamic_cast<Theory_recorder*>(th)->id != n++) { fail("order of theories"); } }
        if (n != count) { fail("number of theories"); }
    }
    state(h);
    traces();
}

std::vector<int> digits(std::uint64_t i, int base, int len)
{
    std::vector<int> r;
    for (int k = 0; k < len; ++k) { r.push_back(i % base); i /= base; }
    return r;
}
std::uint64_t power(std::uint64_t b, int e) { std::uint64_t r = 1; while (e--) { r *= b; } return r; }

// ---- joint fixpoint ----

constexpr int rule_vars = 4;
// from: -1 (always), or a variable; to: a variable, or rule_vars for a conflict. low: propagate at the level of `from`
struct Rule { int from, to; };
Rule rule(int k) { return {k / (rule_vars + 1) - 1, k % (rule_vars + 1)}; }
constexpr int num_rules = (rule_vars + 1) * (rule_vars + 1);

struct Scripted : public Theory {
    std::vector<Rule> rules;
    bool lazy, low;
    int* asked;
    std::vector<Clause>* given;
    Scripted(std::vector<Rule> r, bool lazy, bool low, int* asked, std::vector<Clause>* given) : rules(r), lazy(lazy), low(low), asked(asked), given(given) {}
    std::vector<Clause> propagate(Database&, Trail& t) override
    {
        if (++*asked > 200) { fail("propagation does not end"); }
        auto& m = t.model<bool>(Variable::boolean);
        for (bool again = true; again;)
        {
            again = false;
            for (auto& r : rules)
            {
                if (r.from >= 0 && !m.is_defined(r.from)) { continue; }
                if (r.to == rule_vars) { *given = {r.from < 0 ? Clause{} : Clause{~Literal{r.from}}}; if (r.from < 0) { *given = {Clause{~Literal{0}}}; } return *given; }
                if (m.is_defined(r.to)) { continue; }
                m.set_value(r.to, true);
                t.propagate(Variable{r.to, Variable::boolean}, nullptr, low ? (r.from < 0 ? 0 : *t.decision_level(Variable{r.from, Variable::boolean})) : t.decision_level());
                if (lazy) { return {}; }
                again = true;
            }
        }
        return {};
    }
    void decide(Database&, Trail&, Variable) override {}
};

// item: three rules, the theory each belongs to, lazy/eager, low/high
constexpr int fix_modes = 27 * 4;
void fixpoint(std::uint64_t i, int n)
{
    int mode = i % fix_modes;
    i /= fix_modes;
    std::vector<Rule> per[3];
    std::vector<Rule> all;
    int owners = mode % 27;
    for (int k = 0; k < n; ++k) { Rule r = rule(i % num_rules); i /= num_rules; per[owners % 3].push_back(r); owners /= 3; all.push_back(r); }
    bool lazy = mode / 27 & 1, low = mode / 54;
    Event_dispatcher own;
    Trail trail{own};
    Database db;
    trail.set_model<bool>(Variable::boolean, rule_vars);
    auto& m = trail.model<bool>(Variable::boolean);
    Theory_combination d;
    int asked = 0;
    std::vector<Clause> given;
    for (auto& p : per) { d.add_theory<Scripted>(p, lazy, low, &asked, &given); }
    for (int step = 0; step < 3; ++step)
    {
        if (step > 0 && !m.is_defined(step - 1)) { trail.decide(Variable{step - 1, Variable::boolean}); m.set_value(step - 1, true); }
        else if (step > 0) { continue; }
        auto c = d.propagate(db, trail);
        transitions();
        std::string what;
        for (auto& r : all) { what += " " + std::to_string(r.from) + "->" + std::to_string(r.to); }
        outcome(!c.empty());
        if (!c.empty())
        {
            if (c != given) { fail("the conflict is not the one found by a theory;" + what); }
            break;
        }
        for (auto& r : all)
        {
            if (r.from >= 0 && !m.is_defined(r.from)) { continue; }
            if (r.to == rule_vars) { fail("a conflict was not reported;" + what); }
            if (!m.is_defined(r.to)) { fail("propagation ended before variable " + std::to_string(r.to) + " was propagated;" + what); }
        }
    }
    std::uint64_t h = 3;
    for (int v = 0; v < rule_vars; ++v) { h = mix(h, m.is_defined(v) * 8 + (m.is_defined(v) ? *trail.decision_level(Variable{v, Variable::boolean}) : 0)); }
    state(h);
    traces();
}

// ---- a plugin's view of the trail: every assignment is shown while it is in force ----

struct Viewer : public Theory {
    std::vector<Variable> shown;
    std::vector<Clause> propagate(Database&, Trail& t) override { shown.clear(); for (auto a : assigned(t)) { shown.push_back(a.var); } return {}; }
    void decide(Database&, Trail&, Variable) override {}
};

void view(std::vector<int> const& ops, int n)
{
    Event_dispatcher own;
    Trail trail{own};
    Database db;
    trail.set_model<bool>(Variable::boolean, n);
    auto& m = trail.model<bool>(Variable::boolean);
    Viewer v;
    std::set<int> seen; // assignments shown since they were made
    std::uint64_t h = 4;
    auto first = [&] { for (int i = 0; i < n; ++i) { if (!m.is_defined(i)) { return i; } } return -1; };
    for (int op : ops)
    {
        int x = first();
        auto drop = [&](int l) {
            v.on_before_backtrack(db, trail, l);
            trail.backtrack(l);
            std::erase_if(seen, [&](int y) { return !m.is_defined(y); });
        };
        if (op == 0) { if (x < 0) { return; } m.set_value(x, true); trail.decide(Variable{x, Variable::boolean}); }
        else if (op <= 3)
        {
            int l = op == 1 ? trail.decision_level() : op == 2 ? trail.decision_level() - 1 : 0;
            if (x < 0 || l < 0 || (op == 3 && trail.decision_level() < 2)) { return; }
            m.set_value(x, true);
            trail.propagate(Variable{x, Variable::boolean}, nullptr, l);
        }
        else if (op <= 5) { int l = op == 4 ? trail.decision_level() - 1 : 0; if (l < 0 || (op == 5 && trail.decision_level() < 2)) { return; } drop(l); }
        else if (op == 6) { v.on_before_backtrack(db, trail, 0); trail.clear(); v.on_restart(db, trail); seen.clear(); }
        else
        {
            v.propagate(db, trail);
            for (auto y : v.shown) { if (!m.is_defined(y.ord())) { fail("an unassigned variable is shown to the plugin"); } seen.insert(y.ord()); }
            // everything assigned at this level must have been shown
            for (auto a : trail.recent()) { if (!seen.contains(a.var.ord())) { fail("the assignment of variable " + std::to_string(a.var.ord()) + " was not shown to the plugin"); } }
        }
        transitions();
        h = mix(h, seen.size() * 64 + trail.decision_level() * 8 + op);
    }
    state(h);
    traces();
}

// ---- the events of the real solver ----

struct Shared {
    Log log;
    Solver* solver = nullptr;
    std::vector<std::pair<int, Event>> pending;
};

void judge_event(Shared& s, int who, Event const& e, Trail& t, Database& db, Clause const* c)
{
    // the theory, the order and the restart policy get the same events one after the other
    int expected = s.pending.size();
    if (who != expected) { fail("component " + std::to_string(who) + " got " + e.str() + " before component " + std::to_string(expected)); }
    if (!s.pending.empty() && !(s.pending.front().second == e)) { fail("components got different events: " + s.pending.front().second.str() + " and " + e.str()); }
    s.pending.push_back({who, e});
    if (s.pending.size() == 3) { s.pending.clear(); transitions(); }
    if (&t != &s.solver->trail() || &db != &s.solver->db()) { fail("an event of another solver"); }
    if (e.what == "learned")
    {
        bool in = std::any_of(db.learned().begin(), db.learned().end(), [&](auto& k) { return &k == c; });
        if (!in) { fail("a learned clause was reported which is not in the database"); }
    }
    if (e.what == "backtrack" && !(e.a >= 0 && (e.a < t.decision_level() || e.a == 0))) { fail("backtrack to level " + std::to_string(e.a) + " announced at level " + std::to_string(t.decision_level())); }
    if (e.what == "restart" && !t.empty()) { fail("a restart was reported before the trail was cleared"); }
}

template <typename Base, int who> struct Watch : public Base {
    Shared* s;
    template <typename... A> explicit Watch(Shared* s, A&&... a) : Base(std::forward<A>(a)...), s(s) {}
};

struct Watch_theory : public Theory {
    Shared* s;
    Bool_theory inner;
    int level = 0;          // level at the last backtrack event
    int announced = -1;
    std::multiset<std::vector<int>> learned;
    Watch_theory(Shared* s) : s(s) {}
    std::vector<Clause> propagate(Database& d, Trail& t) override
    {
        if (!s->pending.empty()) { fail("an event was not delivered to all components"); }
        check(d, t);
        auto r = inner.propagate(d, t);
        level = t.decision_level();
        return r;
    }
    // every loss of a decision level has been announced, with the right level
    void check(Database&, Trail& t)
    {
        int now = t.decision_level();
        if (announced >= 0) { if (now != announced && now != announced + 1) { fail("backtracking to level " + std::to_string(announced) + " was announced, the trail is at level " + std::to_string(now)); } }
        else if (now < level) { fail("the trail went from level " + std::to_string(level) + " to " + std::to_string(now) + " without an announcement"); }
        announced = -1;
        level = now;
    }
    void decide(Database& d, Trail& t, Variable v) override { check(d, t); inner.decide(d, t, v); level = t.decision_level(); }
    void on_init(Database& d, Trail& t) override { judge_event(*s, 0, {"init"}, t, d, nullptr); inner.on_init(d, t); }
    void on_variable_resize(Variable::Type ty, int n) override { inner.on_variable_resize(ty, n); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { announced = l; judge_event(*s, 0, {"backtrack", nullptr, nullptr, nullptr, l}, t, d, nullptr); inner.on_before_backtrack(d, t, l); }
    void on_learned_clause(Database& d, Trail& t, Clause const& c) override { judge_event(*s, 0, {"learned", nullptr, nullptr, &c}, t, d, &c); inner.on_learned_clause(d, t, c); }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& c) override { judge_event(*s, 0, {"resolved", nullptr, nullptr, &c}, t, d, nullptr); inner.on_conflict_resolved(d, t, c); }
    void on_restart(Database& d, Trail& t) override { judge_event(*s, 0, {"restart"}, t, d, nullptr); inner.on_restart(d, t); }
};

struct Watch_order : public Variable_order {
    Shared* s;
    Evsids inner;
    Watch_order(Shared* s) : s(s) {}
    std::optional<Variable> pick(Database& d, Trail& t) override { return inner.pick(d, t); }
    bool is_before(Variable a, Variable b) const override { return inner.is_before(a, b); }
    void on_init(Database& d, Trail& t) override { judge_event(*s, 1, {"init"}, t, d, nullptr); inner.on_init(d, t); }
    void on_variable_resize(Variable::Type ty, int n) override { inner.on_variable_resize(ty, n); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { judge_event(*s, 1, {"backtrack", nullptr, nullptr, nullptr, l}, t, d, nullptr); inner.on_before_backtrack(d, t, l); }
    void on_learned_clause(Database& d, Trail& t, Clause const& c) override { judge_event(*s, 1, {"learned", nullptr, nullptr, &c}, t, d, &c); inner.on_learned_clause(d, t, c); }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& c) override { judge_event(*s, 1, {"resolved", nullptr, nullptr, &c}, t, d, nullptr); inner.on_conflict_resolved(d, t, c); }
    void on_restart(Database& d, Trail& t) override { judge_event(*s, 1, {"restart"}, t, d, nullptr); inner.on_restart(d, t); }
};

struct Watch_restart : public Restart {
    Shared* s;
    int limit, left;
    long learned = 0, restarts = 0, asked_true = 0;
    Watch_restart(Shared* s, int limit) : s(s), limit(limit), left(limit) {}
    bool should_restart() const override { bool r = left <= 0; if (r) { ++const_cast<Watch_restart*>(this)->asked_true; } return r; }
    void on_init(Database& d, Trail& t) override { judge_event(*s, 2, {"init"}, t, d, nullptr); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { judge_event(*s, 2, {"backtrack", nullptr, nullptr, nullptr, l}, t, d, nullptr); }
    void on_learned_clause(Database& d, Trail& t, Clause const& c) override { judge_event(*s, 2, {"learned", nullptr, nullptr, &c}, t, d, &c); --left; ++learned; }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& c) override { judge_event(*s, 2, {"resolved", nullptr, nullptr, &c}, t, d, nullptr); }
    void on_restart(Database& d, Trail& t) override { judge_event(*s, 2, {"restart"}, t, d, nullptr); left = limit; ++restarts; }
};

void solver_events(Cnf const& f, int ph, int limit)
{
    terms::Term_manager tm;
    Solver solver{tm};
    Shared s;
    s.solver = &solver;
    auto& th = solver.set_theory<Watch_theory>(&s);
    th.inner.set_phase(phase(ph));
    solver.set_variable_order<Watch_order>(&s);
    auto& re = solver.set_restart_policy<Watch_restart>(&s, limit);
    solver.trail().set_model<bool>(Variable::boolean, f.vars);
    for (auto& c : f.clauses) { Clause k; for (int l : c) { k.push_back(lit(l)); } solver.db().assert_clause(std::move(k)); }
    solver.check();
    if (!s.pending.empty()) { fail("the last event was not delivered to all components"); }
    if (re.asked_true != re.restarts) { fail(std::to_string(re.asked_true) + " restarts were requested, " + std::to_string(re.restarts) + " were made"); }
    if (re.restarts) { outcome(2); }
    state(mix(f.hash(), mix(ph * 8 + limit, re.learned * 64 + re.restarts)));
    traces();
}

void solver_family(Cnf_family fam)
{
    add({"solver-" + fam.name, fam.size, [=](std::uint64_t i) { auto f = fam.make(i); for (int p = 0; p < 3; ++p) { for (int limit : {1, 2, 5, 1000}) { solver_events(f, p, limit); } } },
         [=](std::uint64_t i) { return fam.make(i).str(); }});
}

std::string show_ops(std::vector<int> const& ops) { std::string s; for (int o : ops) { s += " " + std::to_string(o); } return s; }

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    int len = t ? 5 : 4;
    // the first two operations add components, further ones are part of the alphabet
    for (int start = 0; start <= 2; ++start)
    {
        auto ops = [=](std::uint64_t i, int base) { auto d = digits(i, base, len); d.insert(d.begin(), start, 12); return d; };
        add({"dispatcher-" + std::to_string(start), power(15, len), [=](std::uint64_t i) { dispatcher_history(ops(i, 15)); }, [=](std::uint64_t i) { return show_ops(ops(i, 15)); }});
        add({"theories-" + std::to_string(start), power(16, len), [=](std::uint64_t i) { theories_history(ops(i, 16)); }, [=](std::uint64_t i) { return show_ops(ops(i, 16)); }});
    }
    for (int n = 1; n <= (t ? 3 : 3); ++n)
    {
        add({"fixpoint-" + std::to_string(n), power(num_rules, n) * fix_modes, [=](std::uint64_t i) { fixpoint(i, n); }, [=](std::uint64_t i) { return std::to_string(i); }});
    }
    int vl = t ? 9 : 7;
    add({"view", power(8, vl), [=](std::uint64_t i) { view(digits(i, 8, vl), 5); }, [=](std::uint64_t i) { return show_ops(digits(i, 8, vl)); }});
    auto three = all_clauses(3);
    for (int k = 0; k <= (t ? 4 : 3); ++k) { solver_family(clause_sets("sets3v-" + std::to_string(k), three, 3, k)); }
    for (int k = 0; k <= (t ? 3 : 2); ++k) { solver_family(without("full3of4-minus" + std::to_string(k), full_width(4, 3), 4, k)); }
    for (int k = 0; k <= (t ? 2 : 1); ++k) { solver_family(without("full3of5-minus" + std::to_string(k), full_width(5, 3), 5, k)); }
    for (int h = 2; h <= 5; ++h) { for (int k = 0; k <= (h <= 3 ? 2 : h == 4 ? 1 : 0); ++k) { solver_family(php_without(h, k)); } }
    solver_family(colouring(t ? 5 : 4, 3));
    solver_family(tseitin(3, 3));
}
