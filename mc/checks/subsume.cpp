// C21: clause minimisation on every small trail, and restart clean-ups over all bounded histories of learned clauses.
#include "Database.h"
#include "Event_dispatcher.h"
#include "Subsumption.h"
#include "Trail.h"
#include "runner.h"
#include <algorithm>
#include <deque>
#include <set>

using namespace mc;
using namespace yaga;

namespace {

std::string str(Clause const& c) { std::string s = "{"; for (auto l : c) { s += (l.is_negation() ? " -" : " ") + std::to_string(l.var().ord()); } return s + " }"; }
std::set<int> lits(Clause const& c) { std::set<int> s; for (auto l : c) { s.insert(l.var().ord() * 2 + l.is_negation()); } return s; }

//--------------------------------------------------------------------------------------------- clean-ups

struct Universe {
    std::vector<int> ords;        // ordinals of the variables
    std::vector<Clause> clauses;  // all non-empty clauses without complementary literals
    std::vector<std::set<int>> sets;
    int num = 0;
    Universe(std::vector<int> ords, int max_size, bool reversed) : ords(ords)
    {
        num = *std::max_element(ords.begin(), ords.end()) + 1;
        int n = 1;
        for (std::size_t i = 0; i < ords.size(); ++i) { n *= 3; }
        for (int k = 1; k < n; ++k)
        {
            Clause c;
            for (int v = 0, r = k; v < (int)ords.size(); ++v, r /= 3)
            {
                if (r % 3 == 1) { c.push_back(Literal{ords[v]}); }
                if (r % 3 == 2) { c.push_back(~Literal{ords[v]}); }
            }
            if ((int)c.size() > max_size) { continue; }
            if (reversed && k % 2) { std::reverse(c.begin(), c.end()); }
            clauses.push_back(c);
            sets.push_back(lits(c));
        }
    }
};

void clean(std::string name, Universe const* u, int count, bool all_boundaries)
{
    std::uint64_t n = 1, k = u->clauses.size();
    for (int i = 0; i < count; ++i) { n *= k; }
    int masks = all_boundaries ? 1 << (count - 1) : 3;
    auto mask_of = [=](int m) { return all_boundaries ? m : m == 0 ? 0 : m == 1 ? (1 << (count - 1)) - 1 : 1 << (count / 2 - 1); };
    auto decode = [=](std::uint64_t i) { std::vector<int> r; for (int d = 0; d < count; ++d) { r.push_back(i % k); i /= k; } return r; };
    add({name, n, [=](std::uint64_t i) {
             auto word = decode(i);
             for (int m = 0; m < masks; ++m)
             {
                 int mask = mask_of(m);
                 Event_dispatcher dispatcher;
                 Trail trail(dispatcher);
                 Subsumption sub;
                 dispatcher.add(&sub);
                 trail.set_model<bool>(Variable::boolean, u->num);
                 Database db;
                 db.assert_clause(u->clauses[word[0]]);
                 db.assert_clause(u->clauses[k - 1]);
                 db.assert_clause(u->clauses[0]);
                 auto asserted = db.asserted();
                 std::vector<int> ref;
                 for (int d = 0; d < count; ++d)
                 {
                     db.learn_clause(u->clauses[word[d]]);
                     ref.push_back(word[d]);
                     if (d < count - 1 && !(mask >> d & 1)) { continue; }
                     std::multiset<std::set<int>> before;
                     for (int w : ref) { before.insert(u->sets[w]); }
                     dispatcher.on_restart(db, trail);
                     transitions();
                     std::vector<int> left;
                     for (int w : ref)
                     {
                         bool out = false;
                         for (int v : ref) { out = out || (u->sets[v].size() < u->sets[w].size() && std::includes(u->sets[w].begin(), u->sets[w].end(), u->sets[v].begin(), u->sets[v].end())); }
                         if (!out) { left.push_back(w); }
                     }
                     ref = left;
                     std::set<std::set<int>> now, expected;
                     for (auto& c : db.learned())
                     {
                         now.insert(lits(c));
                         if (lits(c).size() != c.size()) { fail("a literal is repeated after the clean-up: " + str(c)); }
                     }
                     for (int w : ref) { expected.insert(u->sets[w]); }
                     if (now != expected || db.learned().size() > ref.size())
                     {
                         std::string s = "clause by clause (restart after |): ";
                         for (int e = 0; e <= d; ++e) { s += str(u->clauses[word[e]]) + ((mask >> e & 1) || e == d ? " | " : " "); }
                         s += "; left:";
                         for (auto& c : db.learned()) { s += " " + str(c); }
                         s += "; expected:";
                         for (int w : ref) { s += " " + str(u->clauses[w]); }
                         fail(s);
                     }
                     // duplicates may be merged
                     if (db.learned().size() < ref.size()) { std::set<int> uniq; std::vector<int> r; for (int w : ref) { if (uniq.insert(w).second) { r.push_back(w); } } ref = r; }
                     if (db.asserted() != asserted) { fail("a restart changed the asserted clauses"); }
                 }
                 traces();
                 state(mix(db.learned().size(), mix(i, m)));
             }
         },
         [=](std::uint64_t i) { std::string s; for (int w : decode(i)) { s += str(u->clauses[w]) + " "; } return s; }});
}

// learned clauses in this order with a restart after some of them; duplicates may be merged, everything else is exact
void judge_wide(std::vector<Clause> const& word, std::vector<bool> const& restart, int vars)
{
    Event_dispatcher dispatcher;
    Trail trail(dispatcher);
    Subsumption sub;
    dispatcher.add(&sub);
    trail.set_model<bool>(Variable::boolean, vars);
    Database db;
    std::vector<std::set<int>> ref;
    for (std::size_t d = 0; d < word.size(); ++d)
    {
        db.learn_clause(word[d]);
        ref.push_back(lits(word[d]));
        if (d + 1 < word.size() && !restart[d]) { continue; }
        dispatcher.on_restart(db, trail);
        transitions();
        std::set<std::set<int>> now, expected;
        for (auto& x : ref)
        {
            if (std::none_of(ref.begin(), ref.end(), [&](auto& y) { return y.size() < x.size() && std::includes(x.begin(), x.end(), y.begin(), y.end()); })) { expected.insert(x); }
        }
        for (auto& c : db.learned()) { now.insert(lits(c)); if (lits(c).size() != c.size()) { fail("a literal is repeated after the clean-up: " + str(c)); } }
        if (now != expected)
        {
            std::string s = "clauses (restart after |):";
            for (std::size_t e = 0; e <= d; ++e) { s += " " + str(word[e]) + (e == d || restart[e] ? " |" : ""); }
            s += "; left:";
            for (auto& c : db.learned()) { s += " " + str(c); }
            fail(s);
        }
        ref.clear();
        for (auto& c : db.learned()) { ref.push_back(lits(c)); }
    }
    traces();
    state(mix(db.learned().size(), hash(str(word[0]) + str(word.back()))));
}

// a clause of L literals and a longer one that contains it, or does so up to one literal; in both orders, with every restart point
void clean_wide(bool t)
{
    static std::vector<int> const lengths{2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 31, 32, 33, 40};
    static std::vector<int> const strides{1, 2, 7, 31, 32, 33, 64};
    int const n = 400, m = 199, variants = 8, firsts = t ? 12 : 4;
    auto make = [=](std::uint64_t i, int pos) {
        int len = lengths[i % lengths.size()], stride = strides[i / lengths.size() % strides.size()], first = i / lengths.size() / strides.size() % firsts * 17;
        int variant = i / lengths.size() / strides.size() / firsts;
        Clause a, b;
        for (int j = 0; j < len; ++j) { auto l = Literal{(first + j * stride) % m}; a.push_back(j % 3 == 1 ? ~l : l); }
        b = a;
        auto fresh = [&](int k) { int v = (first + stride / 2 + 1 + k * 3) % m; while (std::any_of(b.begin(), b.end(), [&](auto l) { return l.var().ord() == v; })) { v = (v + 1) % m; } return v; };
        if (variant == 0) { b.insert(b.begin() + pos, Literal{fresh(0)}); }
        if (variant == 1) { for (int k = 0; k < 5; ++k) { b.insert(b.begin() + pos, Literal{fresh(k)}); } }
        if (variant == 2) { b[pos] = ~b[pos]; b.push_back(Literal{fresh(0)}); }
        if (variant == 3) { b[pos] = Literal{fresh(1)}; b.push_back(~Literal{fresh(0)}); }
        if (variant == 4) { int v = (b[pos].var().ord() + 64) % 256; if (std::none_of(b.begin(), b.end(), [&](auto l) { return l.var().ord() == v; })) { b[pos] = b[pos].is_negation() ? ~Literal{v} : Literal{v}; } b.push_back(Literal{fresh(0)}); b.push_back(Literal{fresh(2)}); }
        if (variant == 5) { b[pos] = Literal{fresh(2)}; b.insert(b.begin(), Literal{fresh(3)}); b.insert(b.begin(), ~Literal{fresh(4)}); std::reverse(b.begin(), b.end()); }
        // a long clause with every signature bit, which contains the other clause or all of it but one literal
        if (variant >= 6) { if (variant == 6) { b[pos] = ~b[pos]; } for (int v = 270; v < 340; ++v) { b.insert(v % 2 ? b.begin() : b.end(), Literal{v}); } }
        return std::pair{a, b};
    };
    add({"clean-up-wide", lengths.size() * strides.size() * firsts * variants, [=](std::uint64_t i) {
             int len = lengths[i % lengths.size()];
             for (int pos = 0; pos < len; ++pos)
             {
                 if (!t && pos > 1 && pos < len - 2 && pos % 5 != 0) { continue; }
                 auto [a, b] = make(i, pos);
                 // the literal that makes the difference occurs in more clauses than the others
                 Clause noise{a[pos], ~Literal{390}}, other{a[pos], Literal{389}, ~Literal{388}};
                 for (int m = 0; m < 8; ++m)
                 {
                     std::vector<bool> restart{(m & 1) != 0, (m & 2) != 0, (m & 4) != 0};
                     judge_wide({a, b}, restart, n);
                     judge_wide({b, a}, restart, n);
                     judge_wide({b, noise, a, other}, restart, n);
                     judge_wide({noise, a, other, b}, restart, n);
                     if (m == 0 || m == 3) { judge_wide({noise, other, a, b}, {false, m == 3, false}, n); }
                 }
             }
         },
         [=](std::uint64_t i) { auto [a, b] = make(i, 0); return str(a) + " " + str(b); }, 30});
    // many clauses: chains of subsets, families in which some are subsumed
    add({"clean-up-many", 6 * 5 * 40, [=](std::uint64_t i) {
             int stride = std::vector<int>{1, 3, 7, 11, 23, 37}[i % 6], kind = i / 6 % 5, count = 5 + 3 * (i / 30);
             std::vector<Clause> word;
             for (int k = 0; k < count; ++k)
             {
                 int x = k * stride % count;
                 Clause c;
                 if (kind == 0) { for (int j = 0; j <= x % 40; ++j) { c.push_back(Literal{j}); } }
                 if (kind == 1) { for (int j = 0; j < 2 + x % 4; ++j) { c.push_back(Literal{(x / 4 + j * 5) % n}); } }
                 if (kind == 2) { for (int j = 0; j < 3 + x % 3; ++j) { c.push_back(j % 2 ? ~Literal{x / 3 + j} : Literal{x / 3 + j}); } }
                 if (kind == 3) { for (int j = 40; j > x % 40; --j) { c.push_back(~Literal{j}); } }
                 if (kind == 4) { c.push_back(Literal{x}); for (int j = 0; j < x % 7; ++j) { c.push_back(~Literal{100 + j}); } }
                 word.push_back(c);
             }
             for (int every : {1, 2, 7, 1000})
             {
                 std::vector<bool> restart;
                 for (int k = 0; k < count; ++k) { restart.push_back(k % every == every - 1); }
                 if (every == 1 && count > 60) { continue; }
                 judge_wide(word, restart, n);
             }
         },
         [=](std::uint64_t i) { return "stride " + std::to_string(i % 6) + ", kind " + std::to_string(i / 6 % 5) + ", " + std::to_string(5 + 3 * (i / 30)) + " clauses"; }, 60});
}

//--------------------------------------------------------------------------------------------- minimisation

// long clauses and reasons: the negated literals of the clause were decided or implied by earlier ones taken with a stride, the last
// ones by all of them; or by all of them and one that is not in the clause
void minimise_wide(bool t)
{
    static std::vector<int> const lengths{3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 33};
    int const strides = t ? 8 : 4, outs = 4;
    add({"minimise-wide", lengths.size() * strides * 4 * outs, [=](std::uint64_t i) {
             int len = lengths[i % lengths.size()], stride = 1 + i / lengths.size() % strides, decided = 1 + i / lengths.size() / strides % 4;
             int out = i / lengths.size() / strides / 4; // literals outside the clause in the reasons
             int n = len + 3;
             for (int pos = 0; pos < len; ++pos)
             {
                 std::deque<Clause> reasons;
                 Event_dispatcher dispatcher;
                 Trail trail(dispatcher);
                 Subsumption sub;
                 dispatcher.add(&sub);
                 auto& m = trail.set_model<bool>(Variable::boolean, n);
                 auto falsified = [&](int v) { return v % 3 == 1 ? Literal{v} : ~Literal{v}; };
                 for (int v = 0; v < n; ++v)
                 {
                     m.set_value(v, v % 3 != 1);
                     if (v < decided || v % (decided + 1) == 0) { trail.decide({v, Variable::boolean}); continue; }
                     Clause r{~falsified(v)};
                     for (int w = v - 1; w >= 0; w -= stride) { r.push_back(falsified(w)); }
                     if (pos % 2) { std::reverse(r.begin() + 1, r.end()); }
                     reasons.push_back(r);
                     trail.propagate({v, Variable::boolean}, &reasons.back(), *trail.decision_level({v - 1, Variable::boolean}));
                 }
                 // leave out some of the variables
                 Clause c;
                 for (int v = n - 1; v >= 0; --v)
                 {
                     if (v == pos || (out > 0 && v == (pos + out) % n) || (out > 1 && v == (pos + n / 2) % n)) { continue; }
                     c.push_back(falsified(v));
                 }
                 if (out % 2) { std::rotate(c.begin(), c.begin() + c.size() / 2, c.end()); }
                 Clause original = c;
                 sub.minimize(trail, c);
                 transitions();
                 std::set<int> left = lits(c), from = lits(original);
                 auto text = [&] {
                     std::string s = str(original) + " becomes " + str(c) + ", reasons:";
                     for (auto& r : reasons) { s += " " + str(r); }
                     return s;
                 };
                 if (!std::includes(from.begin(), from.end(), left.begin(), left.end()) || left.size() != c.size()) { fail("minimisation does not only remove literals: " + text()); }
                 // every removed literal must be false whenever the kept ones are: unit propagation of the reasons on the negated clause
                 std::vector<int> value(n, -1);
                 for (auto l : c) { value[l.var().ord()] = l.is_negation(); }
                 bool refuted = false;
                 for (bool change = true; change && !refuted;)
                 {
                     change = false;
                     auto look = [&](Clause const& k) {
                         int open = 0;
                         Literal last = k[0];
                         for (auto l : k)
                         {
                             int v = value[l.var().ord()];
                             if (v < 0) { ++open; last = l; }
                             else if (v != (int)l.is_negation()) { return; }
                         }
                         if (open == 0) { refuted = true; }
                         if (open == 1) { value[last.var().ord()] = !last.is_negation(); change = true; }
                     };
                     for (auto& r : reasons) { look(r); }
                     look(original);
                 }
                 if (!refuted) { fail("the shorter clause does not follow: " + text()); }
                 outcome(std::min<int>(31, original.size() - c.size()));
                 traces();
                 state(hash(text()));
             }
         },
         [=](std::uint64_t i) { return "length " + std::to_string(lengths[i % lengths.size()]) + ", shape " + std::to_string(i / lengths.size()); }, 30});
}

// trails over n variables in a fixed order; each variable is a decision, or propagated by a clause with some of the earlier false literals
void minimise(std::string name, int n, int shuffles)
{
    std::uint64_t trails = 1;
    for (int i = 0; i < n; ++i) { trails *= 1 + (1ull << i); }
    add({name, trails * 2 * shuffles, [=](std::uint64_t i) {
             int signs = i % 2 ? 0x2a : 0x0;
             i /= 2;
             int shuffle = i % shuffles;
             i /= shuffles;
             std::deque<Clause> reasons;
             Event_dispatcher dispatcher;
             Trail trail(dispatcher);
             Subsumption sub;
             dispatcher.add(&sub);
             auto& m = trail.set_model<bool>(Variable::boolean, n);
             auto falsified = [&](int v) { return signs >> v & 1 ? Literal{v} : ~Literal{v}; };
             std::vector<unsigned> mask; // masks of the false literals in the reasons
             for (int v = 0; v < n; ++v)
             {
                 std::uint64_t c = i % (1 + (1ull << v));
                 i /= 1 + (1ull << v);
                 m.set_value(v, !(signs >> v & 1));
                 if (c == 0) { trail.decide({v, Variable::boolean}); mask.push_back(~0u); continue; }
                 unsigned sub_mask = c - 1;
                 Clause r{~falsified(v)};
                 int level = 0;
                 for (int w = v - 1; w >= 0; --w) { if (sub_mask >> w & 1) { r.push_back(falsified(w)); level = std::max(level, *trail.decision_level({w, Variable::boolean})); } }
                 if (shuffle & 1) { std::reverse(r.begin() + 1, r.end()); }
                 reasons.push_back(r);
                 mask.push_back(sub_mask);
                 trail.propagate({v, Variable::boolean}, &reasons.back(), level);
             }
             for (unsigned set = 1; set < 1u << n; ++set)
             {
                 Clause c;
                 for (int v = n - 1; v >= 0; --v) { if (set >> v & 1) { c.push_back(falsified(v)); } }
                 if (shuffle & 2) { std::rotate(c.begin(), c.begin() + c.size() / 2, c.end()); }
                 Clause original = c;
                 sub.minimize(trail, c);
                 transitions();
                 std::set<int> left = lits(c), from = lits(original);
                 auto text = [&] {
                     std::string s = str(original) + " becomes " + str(c) + ", reasons:";
                     for (auto& r : reasons) { s += " " + str(r); }
                     return s;
                 };
                 if (!std::includes(from.begin(), from.end(), left.begin(), left.end()) || left.size() != c.size()) { fail("minimisation does not only remove literals: " + text()); }
                 // the original clause and the reasons imply the shorter clause: an assignment that falsifies the shorter clause and satisfies all reasons and the original one
                 for (unsigned a = 0; a < 1u << n; ++a)
                 {
                     auto sat = [&](Clause const& k) { for (auto l : k) { if ((a >> l.var().ord() & 1) != (unsigned)l.is_negation()) { return true; } } return false; };
                     if (sat(c) || !sat(original)) { continue; }
                     bool all = true;
                     for (auto& r : reasons) { all = all && sat(r); }
                     if (all) { fail("the shorter clause is not implied: " + text()); }
                 }
                 // every literal that was left out has a reason
                 for (int v = 0; v < n; ++v)
                 {
                     if ((set >> v & 1) && !left.count(falsified(v).var().ord() * 2 + falsified(v).is_negation()) && mask[v] == ~0u) { fail("a literal without a reason was removed: " + text()); }
                 }
                 outcome(std::min<int>(31, original.size() - c.size()));
                 traces();
             }
         },
         [=](std::uint64_t i) { return "trail " + std::to_string(i); }});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    static Universe a({0, 1, 2}, 3, false), b({0, 32, 64}, 3, true), d({0, 1, 2, 3}, 4, true), e({5, 37, 69, 101, 3}, 5, false);
    clean_wide(t);
    minimise_wide(t);
    clean("clean-up", &a, t ? 5 : 4, !t);
    clean("clean-up-signatures", &b, t ? 5 : 4, false);
    clean("clean-up-4", &d, 3, true);
    if (t) { clean("clean-up-5", &e, 3, true); }
    minimise("minimise-4", 4, 4);
    minimise("minimise-5", 5, t ? 4 : 2);
    if (t) { minimise("minimise-6", 6, 4); }
}
