// C10: the trail and its models against a reference record, over all bounded operation sequences.
#include "Event_dispatcher.h"
#include "Rational.h"
#include "Trail.h"
#include "runner.h"
#include <algorithm>
#include <map>

using namespace mc;
using namespace yaga;

namespace {

struct Listener : public Event_listener {
    std::map<int, int> size;
    void on_variable_resize(Variable::Type t, int n) override { size[t] = n; }
};

struct World {
    Event_dispatcher dispatcher;
    Listener listener;
    Trail trail{dispatcher};
    struct Rec {
        int level;
        Clause const* reason;
        int value;
        int order;
        int pushed; // deepest level that existed when it was assigned
    };
    std::map<std::pair<int, int>, Rec> ref; // (type, ord)
    int level = 0, clock = 0;
    int num[2];
    std::vector<Clause> pool{Clause{Literal{0}}, Clause{Literal{1}, Literal{0}}};
    std::string log;
    int skipped = 0;

    World(int nb, int nr)
    {
        dispatcher.add(&listener);
        trail.set_model<bool>(Variable::boolean, nb);
        trail.set_model<Rational>(Variable::rational, nr);
        num[0] = nb;
        num[1] = nr;
        judge();
    }
    static Variable var(int type, int ord) { return {ord, type ? Variable::rational : Variable::boolean}; }
    void set(int type, int ord, int value)
    {
        if (type) { trail.model<Rational>(Variable::rational).set_value(ord, Rational(value * 5 - 2) / Rational(3)); }
        else { trail.model<bool>(Variable::boolean).set_value(ord, value); }
    }
    void decide(int type, int ord, int value)
    {
        log += " decide " + std::to_string(type) + "." + std::to_string(ord) + "=" + std::to_string(value);
        set(type, ord, value);
        trail.decide(var(type, ord));
        ++level;
        ref[{type, ord}] = {level, nullptr, value, clock++, level};
        judge();
    }
    void propagate(int type, int ord, int value, int reason, int at)
    {
        log += " propagate " + std::to_string(type) + "." + std::to_string(ord) + "=" + std::to_string(value) + " at " + std::to_string(at) + (reason < 0 ? " without reason" : " with reason " + std::to_string(reason));
        set(type, ord, value);
        trail.propagate(var(type, ord), reason < 0 ? nullptr : &pool[reason], at);
        ref[{type, ord}] = {at, reason < 0 ? nullptr : &pool[reason], value, clock++, level};
        judge();
    }
    void backtrack(int to)
    {
        log += " backtrack " + std::to_string(to);
        trail.backtrack(to);
        level = std::min(level, to);
        std::erase_if(ref, [&](auto& e) { return e.second.level > level; });
        for (auto& [v, r] : ref) { r.pushed = std::min(r.pushed, level); }
        judge();
    }
    void clear()
    {
        log += " clear";
        trail.clear();
        ref.clear();
        level = 0;
        judge();
    }
    void grow(int type, int by)
    {
        log += " grow " + std::to_string(type) + " by " + std::to_string(by);
        num[type] += by;
        trail.resize(type ? Variable::rational : Variable::boolean, num[type]);
        if (listener.size[type] != num[type]) { fail("the listeners are not told the number of variables, after" + log); }
        judge();
    }
    int quiet = 0; // judge every so many operations only
    void judge()
    {
        transitions();
        if (quiet && ++skipped % quiet) { return; }
        auto bad = [&](std::string const& s) { fail(s + " after" + log); };
        if (trail.decision_level() != level) { bad("the decision level is " + std::to_string(trail.decision_level()) + ", expected " + std::to_string(level)); }
        bool none = std::all_of(ref.begin(), ref.end(), [](auto&) { return false; }) && level == 0;
        if (trail.empty() != none) { bad("empty() is wrong"); }
        std::uint64_t h = level;
        Trail const& ct = trail;
        for (int type = 0; type < 2; ++type)
        {
            auto const& base = ct.model(type ? Variable::rational : Variable::boolean);
            if ((int)base.num_vars() != num[type]) { bad("the model has " + std::to_string(base.num_vars()) + " variables, expected " + std::to_string(num[type])); }
            for (int ord = 0; ord < num[type]; ++ord)
            {
                auto it = ref.find({type, ord});
                auto v = var(type, ord);
                std::string name = (type ? "real " : "boolean ") + std::to_string(ord);
                auto lev = trail.decision_level(v);
                if (it == ref.end())
                {
                    if (lev) { bad(name + " is unassigned but has level " + std::to_string(*lev)); }
                    if (base.is_defined(ord)) { bad(name + " is unassigned but has a value"); }
                    if (trail.reason(v)) { bad(name + " is unassigned but has a reason"); }
                    h = mix(h, 77);
                    continue;
                }
                auto& r = it->second;
                if (!lev || *lev != r.level) { bad(name + " has level " + (lev ? std::to_string(*lev) : "none") + ", expected " + std::to_string(r.level)); }
                if (!base.is_defined(ord)) { bad(name + " has lost its value"); }
                if (trail.reason(v) != r.reason) { bad(name + " has the wrong reason"); }
                bool same = type ? trail.model<Rational>(Variable::rational).value(ord) == Rational(r.value * 5 - 2) / Rational(3) : trail.model<bool>(Variable::boolean).value(ord) == (r.value != 0);
                if (!same) { bad(name + " has the wrong value"); }
                h = mix(h, mix(r.level * 8 + r.value, r.reason ? 1 : 2));
            }
        }
        // timestamps follow the order of assignments within a type
        for (auto& [a, ra] : ref) { for (auto& [b, rb] : ref) {
            if (a.first == b.first && ra.order < rb.order && ct.model((Variable::Type)a.first).timestamp(a.second) >= ct.model((Variable::Type)b.first).timestamp(b.second)) { bad("timestamps do not follow the order of assignments"); }
        } }
        // every level lists its variables, in the order of assignment, and only assigned variables of that level or below
        for (int l = 0; l <= level; ++l)
        {
            std::vector<std::pair<int, int>> seen;
            for (auto a : ct.assigned(l))
            {
                auto key = std::pair<int, int>(a.var.type(), a.var.ord());
                auto it = ref.find(key);
                if (it == ref.end() || it->second.level > l) { bad("level " + std::to_string(l) + " lists a variable that is not assigned there"); }
                if (a.reason != it->second.reason) { bad("level " + std::to_string(l) + " lists a wrong reason"); }
                if (std::find(seen.begin(), seen.end(), key) != seen.end()) { bad("level " + std::to_string(l) + " lists a variable twice"); }
                if (!seen.empty() && ref[seen.back()].order > it->second.order) { bad("level " + std::to_string(l) + " lists variables out of order"); }
                seen.push_back(key);
            }
            for (auto& [v, r] : ref)
            {
                bool listed = std::find(seen.begin(), seen.end(), v) != seen.end();
                if (r.level == l && !listed) { bad("level " + std::to_string(l) + " does not list a variable assigned at it"); }
                // a late propagation is announced on every level above it, up to the level at which it was made
                if (r.level <= l && l <= r.pushed && !listed) { bad("level " + std::to_string(l) + " does not list a variable propagated below it"); }
            }
        }
        if (&trail.recent() != &trail.assigned(level)) { bad("recent() is not the last level"); }
        state(h);
    }
};

int const first = 40; // at least the number of operations that are possible in the second step

void histories(std::string name, int nb, int nr, int depth, bool values, bool growing)
{
    // the first two choices are the index of the item
    auto step = [=](World& w, std::function<int(int)> const& pick) {
        std::vector<std::function<void()>> ops;
        for (int type = 0; type < 2; ++type)
        {
            for (int ord = 0; ord < w.num[type]; ++ord)
            {
                if (w.ref.count({type, ord})) { continue; }
                for (int value = values ? 0 : 1; value < 2; ++value)
                {
                    ops.push_back([&w, type, ord, value] { w.decide(type, ord, value); });
                    for (int at = 0; at <= w.level; ++at)
                    {
                        ops.push_back([&w, type, ord, value, at] { w.propagate(type, ord, value, at % 2, at); });
                        if (type) { ops.push_back([&w, type, ord, value, at] { w.propagate(type, ord, value, -1, at); }); }
                    }
                }
            }
        }
        for (int l = 0; l <= w.level; ++l) { ops.push_back([&w, l] { w.backtrack(l); }); }
        ops.push_back([&w] { w.clear(); });
        if (growing) { for (int t = 0; t < 2; ++t) { if (w.num[t] < 4) { ops.push_back([&w, t] { w.grow(t, 1 + t); }); } } }
        int k = pick(ops.size());
        if (w.clock + w.level == 0 && (int)ops.size() > first) { fail("harness: too many first operations"); }
        if (k >= (int)ops.size()) { return false; }
        ops[k]();
        return true;
    };

    add({name, (std::uint64_t)first * first, [=](std::uint64_t i) {
             explore([&](Chooser& c) {
                 World w(nb, nr);
                 if (!step(w, [&](int) { return (int)(i % first); }) || !step(w, [&](int) { return (int)(i / first); })) { return; }
                 for (int d = 2; d < depth; ++d) { step(w, [&](int n) { return c.choose(n); }); }
                 traces();
             });
         },
         [=](std::uint64_t i) { return "the first operations are " + std::to_string(i % first) + " and " + std::to_string(i / first); }, 120});
}

// deep trails: levels opened by decisions of both types, propagations at the current level and below, in patterns; a backtrack to
// every level, another pattern, a restart, growth in between
void deep(bool t)
{
    std::vector<int> depths{3, 6, 9, 12, 17, 33, 48};
    add({"trail-deep", depths.size() * 4 * 4 * 5, [=](std::uint64_t i) {
             int depth = depths[i % depths.size()], per = i / depths.size() % 4, types = i / depths.size() / 4 % 4, down = std::vector<int>{0, 1, 2, 5, 100}[i / depths.size() / 16];
             for (int to = 0; to <= depth; to += t || depth < 12 || to > depth - 3 || to < 2 ? 1 : 7)
             {
                 int n = depth * (per + 1) + 4;
                 World w(n, n);
                 w.quiet = depth < 12 ? 1 : 1000000;
                 auto judge = [&] { int q = w.quiet; w.quiet = 0; w.judge(); w.quiet = q; };
                 auto fill = [&](int levels, int shift) {
                     int k = shift;
                     auto next = [&](int type) { for (int j = 0; j < w.num[type]; ++j) { int v = (k * 7 + j) % w.num[type]; if (!w.ref.count({type, v})) { return v; } } return -1; };
                     while (w.level < levels)
                     {
                         int type = types == 0 ? 0 : types == 1 ? k % 2 : types == 2 ? k % 3 == 0 : 1;
                         int v = next(type);
                         if (v < 0) { break; }
                         w.decide(type, v, k % 2);
                         for (int j = 0; j < per; ++j)
                         {
                             ++k;
                             int kind = types == 0 ? 0 : types == 3 ? 1 : k % 2, u = next(kind);
                             if (u < 0) { break; }
                             int at = w.level - (j == per - 1 ? std::min(down, w.level) : 0);
                             w.propagate(kind, u, k % 2, k % 4 == 3 ? -1 : k % 2, at);
                         }
                         ++k;
                     }
                     judge();
                 };
                 fill(depth, 0);
                 w.backtrack(to);
                 judge();
                 w.grow(0, 3);
                 fill(depth, 5);
                 w.backtrack(depth / 2);
                 judge();
                 w.backtrack(std::max(0, depth / 2 - 1));
                 w.grow(1, 2);
                 fill(depth - 1, 11);
                 w.clear();
                 judge();
                 fill(depth / 2 + 1, 2);
                 w.backtrack(0);
                 judge();
                 traces();
             }
         },
         [=](std::uint64_t i) { return std::to_string(depths[i % depths.size()]) + " levels, shape " + std::to_string(i / depths.size()); }, 120});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    deep(t);
    histories("trail-2+1", 2, 1, t ? 8 : 6, true, false);
    histories("trail-2+2", 2, 2, t ? 7 : 5, false, true);
}
