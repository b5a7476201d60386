// C22: the two restart policies against reference schedules, over all bounded histories of learned clauses and restarts.
#include "Database.h"
#include "Event_dispatcher.h"
#include "Restart.h"
#include "Trail.h"
#include "runner.h"
#include <algorithm>
#include <cmath>
#include <set>

using namespace mc;
using namespace yaga;

namespace {

std::string digits(std::uint64_t i, std::uint64_t base, int n) { std::string s; for (int k = 0; k < n; ++k) { s += std::to_string(i % base) + " "; i /= base; } return s; }

// definition: luby(2^k - 1) = 2^(k-1); luby(i) = luby(i - 2^(k-1) + 1) for 2^(k-1) <= i < 2^k - 1
std::uint64_t luby_ref(std::uint64_t i)
{
    std::uint64_t k = 1;
    while ((1ull << k) - 1 < i) { ++k; }
    if ((1ull << k) - 1 == i) { return 1ull << (k - 1); }
    return luby_ref(i - (1ull << (k - 1)) + 1);
}

constexpr long multiplier = 550;

struct Luby_world {
    Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    Database db;
    Luby_restart policy;
    Restart* restart = &policy;
    Clause c{Literal{0}};
    std::uint64_t learned = 0, index = 1;
    void judge()
    {
        bool expected = learned >= luby_ref(index) * multiplier;
        if (restart->should_restart() != expected)
        {
            fail(std::string(expected ? "no restart" : "a restart") + " is asked for " + std::to_string(learned) + " clauses after restart " + std::to_string(index - 1) +
                 ", the limit is " + std::to_string(luby_ref(index) * multiplier));
        }
    }
    void learn(std::uint64_t n, bool all = false)
    {
        for (std::uint64_t i = 0; i < n; ++i)
        {
            restart->on_learned_clause(db, trail, c);
            ++learned;
            if (all || i + 2 >= n) { judge(); }
        }
        transitions(n);
    }
    std::uint64_t left() { auto l = luby_ref(index) * multiplier; return learned < l ? l - learned : 0; }
    void again()
    {
        restart->on_restart(db, trail);
        ++index;
        learned = 0;
        transitions();
        judge();
    }
};

void luby(bool t)
{
    add({"luby-sequence", (t ? 1u << 24 : 1u << 20), [](std::uint64_t i) {
             static Luby_restart p;
             int got = p.luby(i + 1);
             transitions();
             if ((std::uint64_t)got != luby_ref(i + 1)) { fail("element " + std::to_string(i + 1) + " of the sequence is " + std::to_string(got) + ", expected " + std::to_string(luby_ref(i + 1))); }
         },
         [](std::uint64_t i) { return "index " + std::to_string(i + 1); }});
    add({"luby-schedule", 1, [=](std::uint64_t) {
             Luby_world w;
             w.judge();
             for (int k = 0; k < (t ? 2047 : 255); ++k)
             {
                 w.learn(w.left(), true);
                 w.again();
             }
             traces();
         },
         [](std::uint64_t) { return std::string("restart at once whenever it is asked for"); }});
    int depth = t ? 9 : 7;
    std::uint64_t n = 1;
    for (int i = 0; i < depth; ++i) { n *= 5; }
    add({"luby-histories", n, [=](std::uint64_t i) {
             Luby_world w;
             w.judge();
             for (int d = 0; d < depth; ++d)
             {
                 switch (i % 5)
                 {
                 case 0: w.learn(1); break;
                 case 1: { auto l = w.left(); w.learn(l ? l - 1 : 3); break; }
                 case 2: w.learn(w.left() + (w.left() == 0)); break;
                 case 3: w.learn(multiplier / 2); break;
                 default: w.again(); break;
                 }
                 i /= 5;
                 state(mix(w.learned, w.index));
             }
             traces();
         },
         [=](std::uint64_t i) { return "operations (0: learn 1, 1: all but one, 2: up to the limit, 3: half, 4: restart) " + digits(i, 5, depth); }});
}

// a trail with five levels, two variables in each
struct Leveled {
    Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    Database db;
    std::vector<Clause> clauses;
    std::vector<int> quality;
    Leveled()
    {
        trail.set_model<bool>(Variable::boolean, 10);
        auto& m = trail.model<bool>(Variable::boolean);
        for (int l = 0; l < 5; ++l)
        {
            m.set_value(2 * l, true);
            if (l == 0) { trail.propagate({0, Variable::boolean}, nullptr, 0); }
            else { trail.decide({2 * l, Variable::boolean}); }
            m.set_value(2 * l + 1, false);
            trail.propagate({2 * l + 1, Variable::boolean}, nullptr, l);
        }
        auto c = [&](std::vector<int> vars) {
            Clause k;
            std::set<int> levels;
            for (int v : vars) { k.push_back(v % 2 ? Literal{v} : ~Literal{v}); levels.insert(v / 2); }
            clauses.push_back(k);
            quality.push_back(levels.size());
        };
        c({8});
        c({4, 2, 5});
        c({8, 0, 4, 1, 9});
        c({9, 6, 4, 2, 0});
        c({7, 6});
    }
};

struct Params {
    int slow, fast, min;
    float threshold;
};

void glucose(bool t)
{
    static std::vector<Params> const params = [] {
        std::vector<Params> r;
        for (int slow : {1, 3, 13}) { for (int fast : {1, 2, 5}) { for (int min : {1, 2, 4}) { for (float th : {1.0f, 1.3f, 2.5f}) { r.push_back({slow, fast, min, th}); } } } }
        return r;
    }();
    auto play = [](Glucose_restart& g, Params p, Leveled& w, std::function<int(int)> const& next, int depth, std::uint64_t& restarts, std::uint64_t& near) {
        long double slow = 0, fast = 0;
        int since = 0;
        Restart& r = g;
        for (int d = -1; d < depth; ++d)
        {
            if (d >= 0)
            {
                int op = next(d);
                if (op == 5) { r.on_restart(w.db, w.trail); since = 0; }
                else
                {
                    r.on_learned_clause(w.db, w.trail, w.clauses[op]);
                    ++since;
                    slow += (w.quality[op] - slow) / (1 << p.slow);
                    fast += (w.quality[op] - fast) / (1 << p.fast);
                }
                transitions();
            }
            bool asked = r.should_restart();
            if (d >= 0 && (std::abs(g.slow() - slow) > 1e-4L * (1 + slow) || std::abs(g.fast() - fast) > 1e-4L * (1 + fast)))
            {
                fail("the averages are " + std::to_string(g.slow()) + " " + std::to_string(g.fast()) + ", expected " + std::to_string((double)slow) + " " + std::to_string((double)fast) + " after " + std::to_string(d + 1) + " operations");
            }
            bool expected = since >= p.min && fast >= p.threshold * slow;
            if (std::abs(fast - p.threshold * slow) <= 1e-4L * (fast + slow) && since >= p.min) { ++near; continue; } // a tie in exact arithmetic
            if (asked != expected)
            {
                fail(std::string(expected ? "no restart" : "a restart") + " is asked for after " + std::to_string(d + 1) + " operations, " + std::to_string(since) + " clauses since the last restart, averages " + std::to_string((double)fast) + " (fast) " + std::to_string((double)slow) + " (slow)");
            }
            restarts += asked;
            outcome(asked);
        }
        traces();
    };
    int depth = t ? 8 : 6;
    std::uint64_t n = params.size();
    for (int i = 0; i < depth; ++i) { n *= 6; }
    add({"glucose-histories", n, [=](std::uint64_t i) {
             static Leveled w;
             auto p = params[i % params.size()];
             Glucose_restart g;
             g.set_min_conflicts(p.min).set_slow_exp(p.slow).set_fast_exp(p.fast).set_threshold(p.threshold);
             std::uint64_t a = 0, b = 0, rest = i / params.size();
             play(g, p, w, [&](int) { int op = rest % 6; rest /= 6; return op; }, depth, a, b);
             state(hash(std::to_string(g.slow()) + " " + std::to_string(g.fast())));
         },
         [=](std::uint64_t i) {
             auto p = params[i % params.size()];
             return "slow " + std::to_string(p.slow) + " fast " + std::to_string(p.fast) + " min " + std::to_string(p.min) + " threshold " + std::to_string(p.threshold) + " clauses (5: restart) " + digits(i / params.size(), 6, depth);
         }});
    // the policy as the SMT solver uses it: default parameters, periodic histories of 1500 clauses, restarts when asked (or 20 clauses later)
    int period = t ? 7 : 5;
    std::uint64_t m = 3;
    for (int i = 0; i < period; ++i) { m *= 5; }
    add({"glucose-long", m, [=](std::uint64_t i) {
             static Leveled w;
             int mode = i % 3;
             std::vector<int> word;
             for (std::uint64_t k = i / 3, d = 0; d < (std::uint64_t)period; ++d) { word.push_back(k % 5); k /= 5; }
             Glucose_restart g;
             int late = 0, count = 0;
             std::uint64_t a = 0, b = 0;
             play(g, {13, 5, 50, 1.3f}, w, [&](int d) {
                 if (((Restart&)g).should_restart() && ++late > (mode == 1 ? 20 : 0) && mode < 2) { late = 0; return 5; }
                 if (mode == 2 && d % 97 == 60) { return 5; }
                 return word[(count++ / (d > 700 ? 40 : 1)) % period];
             }, 1500, a, b);
         },
         [=](std::uint64_t i) { return std::string(i % 3 == 0 ? "restart at once" : i % 3 == 1 ? "restart 20 clauses late" : "restart every 97 clauses") + ", clauses repeating " + digits(i / 3, 5, period); }});
}

} // namespace

void mc::setup(Config const& c)
{
    luby(c.thorough());
    glucose(c.thorough());
}
