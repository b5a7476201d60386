// C08: conflict analysis on every small trail and every false clause.
#include "Conflict_analysis.h"
#include "Event_dispatcher.h"
#include "Rational.h"
#include "Trail.h"
#include "runner.h"
#include <algorithm>
#include <deque>
#include <set>

using namespace mc;
using namespace yaga;

namespace {

std::string str(Clause const& c) { std::string s = "{"; for (auto l : c) { s += (l.is_negation() ? " -" : " ") + std::to_string(l.var().ord()); } return s + " }"; }

struct World {
    int n, next = 0, reals = 0;
    bool mirror;
    Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    std::deque<Clause> reasons;
    std::vector<int> opened{0}; // for each level: 0 bottom, 1 Boolean decision, 2 real decision
    Conflict_analysis analysis;

    World(int n, bool mirror) : n(n), mirror(mirror)
    {
        trail.set_model<bool>(Variable::boolean, n);
        trail.set_model<Rational>(Variable::rational, n + 1);
    }
    int ord(int k) { return mirror ? n - 1 - k : k; }
    bool truth(int k) { return mirror ? k % 2 : k % 3 != 1; }
    Literal made_true(int k) { return truth(k) ? Literal{ord(k)} : ~Literal{ord(k)}; }
    Variable var(int k) { return {ord(k), Variable::boolean}; }
    int level(int k) { return *trail.decision_level(var(k)); }
    void set(int k) { trail.model<bool>(Variable::boolean).set_value(ord(k), truth(k)); }

    void decide() { set(next); trail.decide(var(next++)); opened.push_back(1); }
    void real() { trail.model<Rational>(Variable::rational).set_value(reals, Rational(1)); trail.decide({reals++, Variable::rational}); opened.push_back(2); }
    void semantic(int at) { set(next); trail.propagate(var(next++), nullptr, at); }
    void unit(unsigned mask)
    {
        std::vector<int> others;
        for (int k = 0; k < next; ++k) { if (mask >> k & 1) { others.push_back(k); } }
        unit(others);
    }
    void unit(std::vector<int> others)
    {
        Clause r{made_true(next)};
        std::stable_sort(others.begin(), others.end(), [&](int a, int b) { return level(a) > level(b); });
        for (int k : others) { r.push_back(~made_true(k)); }
        reasons.push_back(r);
        set(next);
        trail.propagate(var(next++), &reasons.back(), trail.decision_level());
    }
    bool current(unsigned mask) { for (int k = 0; k < next; ++k) { if ((mask >> k & 1) && level(k) == trail.decision_level()) { return true; } } return false; }

    std::string text()
    {
        std::string t = "trail:";
        for (int i = 0; i <= trail.decision_level(); ++i)
        {
            t += " |";
            for (auto a : trail.assigned(i))
            {
                if (a.var.type() == Variable::rational) { t += " real"; continue; }
                t += (trail.model<bool>(Variable::boolean).value(a.var.ord()) ? " " : " -") + std::to_string(a.var.ord()) + (a.reason ? "<-" + str(*a.reason) : "");
            }
        }
        return t;
    }

    // the negation of the derived clause, the conflict and the resolved clauses: unit propagation must find them inconsistent
    bool entailed(Clause const& r, Clause const& conflict, std::vector<Clause> const& used)
    {
        std::vector<int> value(n, -1);
        for (auto l : r) { value[l.var().ord()] = l.is_negation(); }
        for (bool change = true; change;)
        {
            change = false;
            for (std::size_t i = 0; i <= used.size(); ++i)
            {
                auto& k = i < used.size() ? used[i] : conflict;
                int open = 0;
                Literal last = k[0];
                bool t = false;
                for (auto l : k)
                {
                    int v = value[l.var().ord()];
                    if (v < 0) { ++open; last = l; }
                    else if (v != (int)l.is_negation()) { t = true; }
                }
                if (t || open > 1) { continue; }
                if (open == 0) { return true; }
                value[last.var().ord()] = !last.is_negation();
                change = true;
            }
        }
        return false;
    }
    void judge(int order)
    {
        for (unsigned set = 1; set < 1u << n; ++set)
        {
            Clause c;
            for (int k = 0; k < n; ++k) { if (set >> k & 1) { c.push_back(~made_true(k)); } }
            if (order) { std::reverse(c.begin(), c.end()); }
            judge(std::move(c));
        }
    }
    void judge(Clause c)
    {
        {
            Clause conflict = c;
            std::vector<Clause> used;
            auto [r, back] = analysis.analyze(trail, std::move(c), [&](Clause const& o) { used.push_back(o); });
            transitions();
            auto bad = [&, &r = r, &back = back](std::string const& s) { fail(s + ": conflict " + str(conflict) + ", derived " + str(r) + ", level " + std::to_string(back) + "; " + text()); };
            int in = 0, top = -1, second = -1, count = 0;
            for (auto l : conflict) { in = std::max(in, *trail.decision_level(l.var())); }
            std::set<int> distinct;
            for (auto l : r)
            {
                if (eval(trail.model<bool>(Variable::boolean), l) != false) { bad("the derived clause is not false"); }
                if (!distinct.insert(l.var().ord()).second) { bad("the derived clause repeats a literal"); }
                int lev = *trail.decision_level(l.var());
                if (lev > top) { second = top; top = lev; count = 1; }
                else if (lev == top) { ++count; }
                else { second = std::max(second, lev); }
            }
            // entailment
            if (n > 8) { if (!entailed(r, conflict, used)) { bad("the derived clause does not follow from the conflict and the resolved clauses"); } }
            else
            for (unsigned a = 0; a < 1u << n; ++a)
            {
                auto sat = [&](Clause const& k) { for (auto l : k) { if ((a >> l.var().ord() & 1) != (unsigned)l.is_negation()) { return true; } } return false; };
                if (!sat(conflict) || sat(r)) { continue; }
                bool all = true;
                for (auto& k : used) { all = all && sat(k); }
                if (all) { bad("the derived clause is not entailed by the conflict and the resolved clauses"); }
            }
            for (auto& k : used) { if (std::find(reasons.begin(), reasons.end(), k) == reasons.end()) { bad("a clause that is not a reason was resolved"); } }
            traces();
            if (r.empty())
            {
                if (in > 0) { bad("the empty clause was derived from a conflict above level 0"); }
                if (back >= 0) { bad("a level is given for the empty clause"); }
                outcome(0);
                return;
            }
            if (in == 0) { bad("a conflict at level 0 does not give the empty clause"); }
            if (top > in) { bad("the derived clause has a literal above the conflict"); }
            if (count == 1)
            {
                if (back != std::max(second, 0)) { bad("the level is not the second highest level of the clause"); }
                outcome(1);
            }
            else
            {
                if (opened[top] != 2) { bad("several literals at the highest level, which was opened by a Boolean decision"); }
                for (auto l : r) { if (*trail.decision_level(l.var()) == top && trail.reason(l.var())) { bad("several literals at the highest level, one of which has a reason"); } }
                if (back != top - 1) { bad("the level is not the one below the real-valued decision"); }
                outcome(2);
            }
            // the literals at the highest level come first, the highest of the others follows
            for (std::size_t i = 1; i < r.size(); ++i) { if (*trail.decision_level(r[i - 1].var()) < *trail.decision_level(r[i].var())) { bad("the literals are not ordered by level"); } }
            state(mix(hash(str(r)), back));
        }
    }
};

void family(std::string name, int n, int max_reals, int max_reason, int parts)
{
    add({name, (std::uint64_t)parts * 2, [=](std::uint64_t i) {
             bool mirror = i % 2;
             int part = i / 2, at = 0;
             explore([&](Chooser& c) {
                 World w(n, mirror);
                 std::uint64_t h = 1;
                 while (w.next < n)
                 {
                     std::vector<std::function<void()>> ops;
                     ops.push_back([&] { w.decide(); });
                     if (w.reals < max_reals && (w.opened.back() != 2 || w.trail.recent().size() > 1)) { ops.push_back([&] { w.real(); }); }
                     for (int l = 1; l <= w.trail.decision_level(); ++l) { if (w.opened[l] == 2) { ops.push_back([&, l] { w.semantic(l); }); } }
                     for (unsigned m = 0; m < 1u << w.next; ++m)
                     {
                         if (__builtin_popcount(m) > max_reason) { continue; }
                         if (w.trail.decision_level() == 0 || w.current(m)) { ops.push_back([&, m] { w.unit(m); }); }
                     }
                     int k = c.choose(ops.size());
                     h = mix(h, k);
                     ops[k]();
                     if (w.next == n - 2 && ++at && parts > 1 && h % parts != (std::uint64_t)part) { return; } // another item's share
                 }
                 w.judge(mirror);
             });
         },
         [=](std::uint64_t i) { return "part " + std::to_string(i / 2) + (i % 2 ? ", other numbering" : ""); }, 300});
}

// long trails and long clauses: levels of decisions and chains of implied literals whose reasons take earlier literals with a
// stride, conflicts that take literals from the end of the trail with a stride
void wide(bool t)
{
    std::vector<int> lengths{2, 3, 5, 7, 8, 9, 12, 20, 40};
    int const levels = t ? 24 : 14, strides = t ? 7 : 5;
    std::uint64_t shapes = (std::uint64_t)(levels - 1) * 4 * strides * 6 * 4;
    add({"analyse-wide", shapes, [=](std::uint64_t i) {
             int lev = 2 + i % (levels - 1), width = i / (levels - 1) % 4, stride = 1 + i / (levels - 1) / 4 % strides;
             int size = std::vector<int>{1, 2, 3, 6, 9, 20}[i / (levels - 1) / 4 / strides % 6], every = i / (levels - 1) / 4 / strides / 6;
             for (int mirror = 0; mirror < 2; ++mirror)
             {
                 World w(std::max(lev * (width + 1), 9), mirror);
                 auto earlier = [&](int from, int stride, int len) { std::vector<int> r; for (int k = from; k >= 0 && (int)r.size() < len; k -= stride) { r.push_back(k); } return r; };
                 for (int l = 0; l < lev; ++l)
                 {
                     if (every && l % (every + 1) == every) { w.real(); w.semantic(w.trail.decision_level()); }
                     else { w.decide(); }
                     for (int k = 0; k < width; ++k)
                     {
                         // a literal of this level in the reason; literals of the real-valued level are also semantic ones
                         if (w.opened.back() == 2 && k % 2) { w.semantic(w.trail.decision_level()); continue; }
                         auto e = earlier(w.next - 1, stride, size);
                         w.unit(e);
                     }
                 }
                 w.n = std::max(w.n, w.next);
                 for (int s = 1; s <= strides; ++s)
                 {
                     for (int len : lengths)
                     {
                         for (int from = w.next - 1; from >= std::max(0, w.next - 2 - width); --from)
                         {
                             Clause c;
                             for (int k : earlier(from, s, len)) { c.push_back(~w.made_true(k)); }
                             if (len % 2) { std::reverse(c.begin(), c.end()); }
                             w.judge(c);
                         }
                     }
                 }
             }
         },
         [=](std::uint64_t i) { return "levels " + std::to_string(2 + i % (levels - 1)) + ", chain " + std::to_string(i / (levels - 1) % 4) + ", stride " + std::to_string(1 + i / (levels - 1) / 4 % strides) + ", shape " + std::to_string(i / (levels - 1) / 4 / strides); }, 60});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    wide(t);
    family("analyse-4", 4, 3, 3, 1);
    family("analyse-5", 5, 2, 2, 32);
    family("analyse-5-reasons", 5, 1, 4, 32);
    family("analyse-5-reals", 5, 4, 4, 64);
    family("analyse-6", 6, 1, 2, 256);
    if (t)
    {
        family("analyse-6-reals", 6, 3, 2, 256);
        family("analyse-6-reasons", 6, 1, 5, 256);
        family("analyse-7", 7, 1, 2, 2048);
    }
}
