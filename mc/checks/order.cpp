// C20: the priority queue against a reference under all bounded operation sequences; the two real orders against a
// reference activity record over event histories long enough to rescale.
#include "Database.h"
#include "Event_dispatcher.h"
#include "Evsids.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Trail.h"
#include "Variable_priority_queue.h"
#include "e2e.h"
#include <map>
#include <memory>
#include <sstream>

using namespace mc;
using namespace yaga;

namespace {

//------------------------------------------------------------------------------------------- priority queue

Variable var_of(int i) { return i % 2 ? Variable{i / 2, Variable::rational} : Variable{i / 2, Variable::boolean}; }
int id_of(Variable v) { return v.ord() * 2 + (v.type() == Variable::rational); }

struct Queue {
    Variable_priority_queue q;
    std::map<int, float> ref;
    int n;
    std::string log;
    explicit Queue(int n) : n(n) {}
    void push(int v, float s) { log += " push(" + std::to_string(v) + "," + std::to_string(s) + ")"; q.push(var_of(v), s); ref[v] = s; judge(); }
    void update(int v, float s) { log += " update(" + std::to_string(v) + "," + std::to_string(s) + ")"; q.update(var_of(v), s); if (ref.count(v)) { ref[v] = s; } judge(); }
    void rescale(float f) { log += " rescale(" + std::to_string(f) + ")"; q.rescale(f); for (auto& [v, s] : ref) { s /= f; } judge(); }
    void pop()
    {
        log += " pop";
        auto t = id_of(q.top());
        q.pop();
        ref.erase(t);
        judge();
    }
    void judge()
    {
        transitions();
        if (q.empty() != ref.empty() || q.size() != ref.size()) { fail("size " + std::to_string(q.size()) + ", expected " + std::to_string(ref.size()) + " after" + log); }
        for (int v = 0; v < n; ++v) { if (q.contains(var_of(v)) != (ref.count(v) > 0)) { fail("contains(" + std::to_string(v) + ") is wrong after" + log); } }
        if (ref.empty()) { return; }
        auto t = id_of(q.top());
        float best = -1;
        for (auto& [v, s] : ref) { best = std::max(best, s); }
        if (!ref.count(t) || ref[t] < best) { fail("top is " + std::to_string(t) + ", the maximum is " + std::to_string(best) + " after" + log); }
    }
    // the whole content, in order
    void drain()
    {
        std::size_t seen = 0;
        for (auto v : q.vars()) { seen += ref.count(id_of(v)); }
        if (seen != ref.size()) { fail("vars() does not list the content after" + log); }
        while (!ref.empty()) { pop(); }
        traces();
    }
};

std::string digits(std::uint64_t i, int base, int n) { std::string s; for (int k = 0; k < n; ++k) { s += std::to_string(i % base) + " "; i /= base; } return s; }

void queue_families(bool thorough)
{
    static float const scores[] = {0.f, 1e-12f, 3e-12f, 1.f, 2.f};
    // any content of 6 (7) elements, then two operations, then everything is taken out
    int n = thorough ? 8 : 6;
    std::uint64_t contents = 1;
    for (int i = 0; i < n; ++i) { contents *= 3; }
    int ops = n * 5 + 2;
    auto run_ops = [=](Queue& q, int op) {
        if (op < n * 5) { q.update(op / 5, scores[op % 5]); }
        else if (op == n * 5) { if (!q.ref.empty()) { q.pop(); } }
        else { q.rescale(1e35f); }
    };
    add({"queue-content", contents * ops, [=](std::uint64_t i) {
             for (int second = 0; second < ops; ++second)
             {
                 Queue q(n);
                 auto c = i / ops;
                 for (int k = 0; k < n; ++k) { q.push((k * 5) % n, scores[1 + c % 3]); c /= 3; }
                 run_ops(q, i % ops);
                 run_ops(q, second);
                 q.drain();
             }
         },
         [=](std::uint64_t i) { return "scores " + digits(i / ops, 3, n) + ", operation " + std::to_string(i % ops); }});
    // any sequence of operations from the empty queue over 3 (4) elements
    int m = thorough ? 4 : 3, depth = 6;
    int alphabet = m * 2 + m * 2 + 2;
    std::uint64_t seqs = 1;
    for (int i = 0; i < depth; ++i) { seqs *= alphabet; }
    add({"queue-sequences", seqs, [=](std::uint64_t i) {
             Queue q(m);
             for (int d = 0; d < depth; ++d)
             {
                 int op = i % alphabet;
                 i /= alphabet;
                 if (op < m * 2) { if (q.ref.count(op / 2)) { return; } q.push(op / 2, scores[2 + op % 2]); }
                 else if (op < m * 4) { op -= m * 2; q.update(op / 2, scores[op % 2 ? 4 : 1]); }
                 else if (op == m * 4) { if (q.ref.empty()) { return; } q.pop(); }
                 else { q.rescale(1e35f); }
             }
             q.drain();
         },
         [=](std::uint64_t i) { return "operations " + digits(i, alphabet, depth); }});
    // three and four levels of the heap: patterned contents, all pairs (triples) of updates
    int big = 26;
    auto pattern = [](int p, int k) -> float {
        switch (p)
        {
        case 0: return k;
        case 1: return 26 - k;
        case 2: return 5;
        case 3: return (k * 7) % 26;
        case 4: return k % 2 ? 1 : 20;
        case 5: return k < 5 ? 30 - k : (k * 11) % 13;
        default: return k == 25 ? 1 : 2;
        }
    };
    int bops = big * 3 + 2;
    auto bop = [=](Queue& q, int op) {
        if (op < big * 3) { int v = op / 3; q.update(v, op % 3 == 0 ? 100 : op % 3 == 1 ? -0.f : 13.5f); }
        else if (op == big * 3) { if (!q.ref.empty()) { q.pop(); } }
        else { q.rescale(3e37f); }
    };
    add({"queue-deep", (std::uint64_t)7 * bops * bops, [=](std::uint64_t i) {
             Queue q(big);
             int p = i % 7;
             for (int k = 0; k < big; ++k) { q.push(k, pattern(p, k)); }
             bop(q, i / 7 % bops);
             bop(q, i / 7 / bops);
             if (thorough || i % 5 == 0) { for (int k = 0; k < 3; ++k) { q.pop(); } q.update(7, 200); }
             q.drain();
         },
         [=](std::uint64_t i) { return "pattern " + std::to_string(i % 7) + ", operations " + std::to_string(i / 7 % bops) + " " + std::to_string(i / 7 / bops); }});
}

//------------------------------------------------------------------------------------------- orders

struct Order_world {
    Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    Database db;
    std::unique_ptr<Linear_arithmetic> lra;
    std::unique_ptr<Variable_order> order;
    bool general;
    std::vector<Literal> lits;
    std::vector<std::vector<int>> reals; // real variables of each Boolean variable
    std::map<int, long double> act;
    long double inc = 1;
    std::vector<std::vector<Variable>> levels{1};
    std::string log;
    int nb = 0, nr = 0;

    explicit Order_world(bool general, int many = 0) : general(general)
    {
        trail.set_model<bool>(Variable::boolean, 0);
        if (general)
        {
            lra = std::make_unique<Linear_arithmetic>();
            dispatcher.add(lra.get());
            order = std::make_unique<Generalized_vsids>(*lra);
            dispatcher.add(order.get());
            trail.set_model<Rational>(Variable::rational, 0);
            nr = 2 + many / 2;
            trail.resize(Variable::rational, nr);
            auto mk = [&](std::vector<int> v, std::vector<Rational> c) {
                auto k = lra->constraint(trail, v, c, Order_predicate::leq, Rational(0));
                lits.push_back(k.lit());
            };
            mk({0}, {Rational(1)});
            mk({0, 1}, {Rational(1), Rational(1)});
            for (int r = 2; r < nr; ++r) { r % 3 ? mk({r - 1, r}, {Rational(1), Rational(-r)}) : mk({r}, {Rational(1)}); }
        }
        else
        {
            order = std::make_unique<Evsids>();
            dispatcher.add(order.get());
            trail.resize(Variable::boolean, 2);
            lits = {Literal{0}, Literal{1}};
        }
        nb = trail.model<bool>(Variable::boolean).num_vars() + 1;
        trail.resize(Variable::boolean, nb);
        lits.push_back(Literal{nb - 1});
        lits.push_back(Literal{nb++}); // one more, which occurs in long runs of clauses
        trail.resize(Variable::boolean, nb);
        reals.resize(nb);
        if (general) { reals[lits[0].var().ord()] = {0}; reals[lits[1].var().ord()] = {0, 1}; }
        if (many)
        {
            std::size_t own = lits.size() - 2; // the two created last are the plain ones
            for (std::size_t k = 2; general && k < own; ++k) { int r = k; reals[lits[k].var().ord()] = r % 3 ? std::vector<int>{r - 1, r} : std::vector<int>{r}; }
            for (int k = 0; k < many; ++k) { grow(k % 2); }
        }
        db.assert_clause(lits[0], ~lits[2]);
        init();
    }
    void grow(bool negated)
    {
        trail.resize(Variable::boolean, ++nb);
        lits.push_back(negated ? ~Literal{nb - 1} : Literal{nb - 1});
        reals.resize(nb);
    }
    // a check begins
    void init()
    {
        log += " init";
        backtrack(0);
        trail.clear();
        order->on_init(db, trail);
        act.clear();
        bump({lits[0], ~lits[2]});
    }
    int key(Variable v) { return v.ord() * 2 + (v.type() == Variable::rational); }
    void bump(Clause const& c)
    {
        for (auto l : c)
        {
            act[l.var().ord() * 2] += inc;
            for (int r : reals[l.var().ord()]) { act[r * 2 + 1] += inc; }
        }
    }
    bool defined(Variable v) { return v.type() == Variable::boolean ? trail.model<bool>(Variable::boolean).is_defined(v.ord()) : trail.model<Rational>(Variable::rational).is_defined(v.ord()); }
    std::vector<Variable> all()
    {
        std::vector<Variable> r;
        for (int i = 0; i < nb; ++i) { r.push_back({i, Variable::boolean}); }
        for (int k = 0; k < nr; ++k) { r.push_back({k, Variable::rational}); }
        return r;
    }
    void learn(Clause c, int times = 1)
    {
        log += " learn" + std::to_string(c.size() ? c[0].var().ord() : -1) + "/" + std::to_string(c.size()) + "x" + std::to_string(times);
        for (int i = 0; i < times; ++i) { order->on_learned_clause(db, trail, c); bump(c); inc *= 1.05L; }
        transitions(times);
    }
    void resolve(Clause c, int times = 1)
    {
        log += " resolve" + std::to_string(c[0].var().ord()) + "x" + std::to_string(times);
        for (int i = 0; i < times; ++i) { order->on_conflict_resolved(db, trail, c); bump(c); }
        transitions(times);
    }
    std::optional<Variable> judge()
    {
        transitions();
        auto v = order->pick(db, trail);
        std::vector<Variable> un;
        for (auto x : all()) { if (!defined(x)) { un.push_back(x); } }
        if (!v)
        {
            if (!un.empty()) { fail("no variable was picked although one has no value, after" + log); }
            return v;
        }
        if (defined(*v)) { fail("a variable that has a value was picked after" + log); }
        for (auto o : un)
        {
            // activities that far below the current increment may have become equal
            if (act[key(o)] > inc * 1e-25L && act[key(*v)] < act[key(o)] * (1 - 1e-3L))
            {
                std::ostringstream os;
                os << "picked variable " << v->ord() << " of type " << v->type() << " of activity " << act[key(*v)] << " although variable " << o.ord() << " of type " << o.type() << " has activity " << act[key(o)] << ", after" << log;
                fail(os.str());
            }
        }
        return v;
    }
    void decide(std::optional<Variable> v)
    {
        if (!v) { return; }
        log += " decide" + std::to_string(v->ord()) + "/" + std::to_string(v->type());
        if (v->type() == Variable::boolean) { trail.model<bool>(Variable::boolean).set_value(v->ord(), true); }
        else { trail.model<Rational>(Variable::rational).set_value(v->ord(), Rational(1)); }
        trail.decide(*v);
    }
    void backtrack(int level)
    {
        if (level > trail.decision_level()) { return; }
        log += " backtrack" + std::to_string(level);
        dispatcher.on_before_backtrack(db, trail, level);
        trail.backtrack(level);
    }
    // every variable is eventually returned, by decreasing activity
    void drain()
    {
        for (;;)
        {
            auto v = judge();
            if (!v) { break; }
            decide(v);
        }
        traces();
    }
};

void order_family(std::string name, bool general, int depth)
{
    std::vector<std::function<void(Order_world&)>> ops = {
        [](Order_world& w) { w.learn({w.lits[0]}); },
        [](Order_world& w) { w.learn({w.lits[1], ~w.lits[2]}); },
        [](Order_world& w) { w.resolve({w.lits[2]}); },
        [](Order_world& w) { w.resolve({~w.lits[1]}, 3); },
        [](Order_world& w) { w.learn({w.lits[3]}, 60); },
        [](Order_world& w) { w.learn({w.lits[3]}, 1640); },
        [](Order_world& w) { w.learn({w.lits[2]}, 1650); },
        [](Order_world& w) { w.decide(w.judge()); },
        [](Order_world& w) { w.backtrack(0); },
        [](Order_world& w) { w.decide(w.judge()); w.decide(w.judge()); },
        [](Order_world& w) { w.init(); },
        [](Order_world& w) { w.backtrack(w.trail.decision_level() - 1 < 0 ? 0 : w.trail.decision_level() - 1); },
    };
    std::uint64_t n = 1;
    for (int i = 0; i < depth; ++i) { n *= ops.size(); }
    int k = ops.size();
    add({name, n, [=](std::uint64_t i) {
             Order_world w(general);
             w.judge();
             for (int d = 0; d < depth; ++d)
             {
                 ops[i % k](w);
                 w.judge();
                 i /= k;
             }
             w.backtrack(0);
             w.drain();
             state(hash(w.log));
         },
         [=](std::uint64_t i) { return "operations " + digits(i, k, depth); }});
}

// periodic histories: every clause sequence of the given period, judged after each clause around each rescale
void rescale_family(std::string name, bool general, int period, int length)
{
    int k = general ? 6 : 5;
    std::uint64_t n = 2; // with or without resolved clauses
    for (int i = 0; i < period; ++i) { n *= k; }
    add({name, n, [=](std::uint64_t i) {
             Order_world w(general);
             bool resolved = i % 2;
             std::vector<int> word;
             i /= 2;
             for (int d = 0; d < period; ++d) { word.push_back(i % k); i /= k; }
             for (int d = 0; d < length; ++d)
             {
                 Clause c;
                 switch (word[d % period])
                 {
                 case 0: c = {w.lits[0]}; break;
                 case 1: c = {w.lits[1]}; break;
                 case 2: c = {~w.lits[2]}; break;
                 case 3: c = {w.lits[1], w.lits[2]}; break;
                 case 4: c = {w.lits[2], w.lits[0], w.lits[3]}; break;
                 default: c = {w.lits[3]}; break;
                 }
                 if (resolved) { w.resolve({c[0]}); }
                 w.learn(c);
                 w.log.clear();
                 w.log = " the first " + std::to_string(d + 1) + " clauses";
                 w.judge();
             }
             w.drain();
         },
         [=](std::uint64_t i) { return std::string(i % 2 ? "resolved and learned" : "learned") + ", clauses (0: a, 1: b, 2: c, 3: b c, 4: c a d, 5: d) repeating " + digits(i / 2, k, period); }});
}

// many variables and long clauses
void large_family(std::string name, bool general, std::vector<int> sizes)
{
    add({name, sizes.size() * 4 * 4 * 5 * 3, [=](std::uint64_t i) {
             auto take = [&](int n) { int r = i % n; i /= n; return r; };
             int many = sizes[take(sizes.size())], stride = std::vector<int>{1, 3, 7, 11}[take(4)], len = std::vector<int>{1, 2, 6, 33}[take(4)], schedule = take(5), more = take(3);
             Order_world w(general, many);
             for (int d = 0; d < 48; ++d)
             {
                 int n = w.lits.size();
                 Clause c;
                 for (int k = 0; k < std::min(len, n); ++k)
                 {
                     auto l = w.lits[(d * stride + k * (schedule + 1) + k * k % 3) % n];
                     if (std::find(c.begin(), c.end(), l) == c.end() && std::find(c.begin(), c.end(), ~l) == c.end()) { c.push_back(l); }
                 }
                 if (schedule != 1 && d % 3 == 1) { w.resolve(c); }
                 else { w.learn(c); }
                 w.judge();
                 if (d % (2 + schedule) == 0) { for (int k = 0; k < 3 + 5 * (schedule % 2); ++k) { w.decide(w.judge()); } }
                 if (d % 7 == 3) { w.backtrack(w.trail.decision_level() * schedule / 5); w.judge(); }
                 if (schedule == 2 && d == 20) { w.learn({w.lits[1]}, 1650); w.judge(); }
                 if (schedule == 3 && d == 30) { w.init(); }
                 if (d % 16 == 5) { for (int k = 0; k < more * 9; ++k) { w.grow(k % 2); } if (more) { w.judge(); } }
             }
             w.backtrack(w.trail.decision_level() / 2);
             w.drain();
             w.backtrack(0);
             w.drain();
             state(hash(w.log));
         },
         [=](std::uint64_t i) { return "shape " + std::to_string(i) + ", " + std::to_string(sizes[i % sizes.size()]) + " more variables"; }});
}

// contents of many elements, one change of one element (or a removal), then everything is taken out
void queue_large(std::vector<int> sizes)
{
    add({"queue-large", sizes.size() * 6 * 8 * 4, [=](std::uint64_t i) {
             auto take = [&](int n) { int r = i % n; i /= n; return r; };
             int n = sizes[take(sizes.size())], pattern = take(6), change = take(8), pops = std::vector<int>{0, 1, 5, n / 2}[take(4)];
             for (int at = 0; at < n; at += std::max(1, n / 24))
             {
                 Variable_priority_queue q;
                 std::map<int, float> ref;
                 auto score = [&](int k) -> float { return pattern == 0 ? k : pattern == 1 ? n - k : pattern == 2 ? 5 : pattern == 3 ? (k * 7) % n : pattern == 4 ? (k % 2 ? 1 : n) : (k * 31 + 5) % 17; };
                 auto fail_ = [&](char const* m) { fail(std::string(m) + ": " + std::to_string(n) + " elements, change of element " + std::to_string(at)); };
                 auto pop = [&] {
                     if (ref.empty()) { return; }
                     transitions();
                     float best = -1e30f;
                     for (auto& [v, s] : ref) { best = std::max(best, s); }
                     auto t = id_of(q.top());
                     if (!ref.count(t) || ref[t] < best) { fail_("the top is not the maximum"); }
                     q.pop();
                     ref.erase(t);
                     if (q.size() != ref.size() || q.contains(var_of(t))) { fail_("an element stays after it was taken out"); }
                 };
                 for (int k = 0; k < n; ++k) { int v = (k * 13) % n; if (n % 13 == 0) { v = k; } q.push(var_of(v), score(v)); ref[v] = score(v); }
                 for (int k = 0; k < pops; ++k) { pop(); }
                 auto update = [&](int v, float s) { q.update(var_of(v), s); if (ref.count(v)) { ref[v] = s; } transitions(); };
                 switch (change)
                 {
                 case 0: update(at, 2 * n); break;
                 case 1: update(at, -1); break;
                 case 2: update(at, n / 2); break;
                 case 3: update(at, score(at)); break;
                 case 4: update(at, n), update((at + 1) % n, n + 1), update(at, 3); break;
                 case 5: q.rescale(1e30f), update(at, 1); for (auto& [v, s] : ref) { if (v != at) { s /= 1e30f; } } break;
                 case 6: if (!ref.count(at)) { q.push(var_of(at), n / 3); ref[at] = n / 3; } break;
                 default: for (int k = 0; k < n; k += 3) { update(k, (k * 5) % n); } break;
                 }
                 for (int v = 0; v < n; ++v) { if (q.contains(var_of(v)) != (ref.count(v) > 0)) { fail_("contains is wrong"); } }
                 while (!ref.empty()) { pop(); }
                 traces();
             }
         },
         [=](std::uint64_t i) { return "shape " + std::to_string(i) + ", " + std::to_string(sizes[i % sizes.size()]) + " elements"; }});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    queue_families(t);
    queue_large(t ? std::vector<int>{17, 33, 65, 100, 129, 200, 257, 400} : std::vector<int>{17, 33, 65, 100, 129, 200});
    large_family("evsids-large", false, t ? std::vector<int>{6, 28, 40, 64, 128, 300} : std::vector<int>{6, 28, 64, 128});
    large_family("generalized-large", true, t ? std::vector<int>{6, 28, 40, 64, 128, 300} : std::vector<int>{6, 28, 64, 128});
    order_family("evsids", false, t ? 6 : 5);
    order_family("generalized-vsids", true, t ? 6 : 5);
    rescale_family("evsids-rescale", false, t ? 5 : 3, 1800);
    rescale_family("generalized-rescale", true, t ? 5 : 3, 1800);
}
