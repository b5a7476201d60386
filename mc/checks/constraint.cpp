// C14: normalisation and sharing of linear constraints.
#include "Database.h"
#include "Event_dispatcher.h"
#include "Linear_arithmetic.h"
#include "Trail.h"
#include "e2e.h"
#include "grammar.h"
#include <gmpxx.h>
#include <memory>
#include <sstream>

using namespace mc;
using namespace yaga;

namespace {

struct Orig { // as written: sum coef*var pred rhs
    std::vector<int> vars;
    std::vector<std::string> coef;
    int pred; // 0 =, 1 <, 2 <=
    std::string rhs;
    std::string str() const
    {
        std::string s;
        for (std::size_t i = 0; i < vars.size(); ++i) { s += (i ? " + " : "") + coef[i] + "*" + std::string(1, "xyzuvw"[vars[i]]); }
        if (vars.empty()) { s = "0"; }
        return s + (pred == 0 ? " = " : pred == 1 ? " < " : " <= ") + rhs;
    }
};

// a relation in a canonical form; equal forms iff equal meaning
struct Canon {
    std::map<int, mpq_class> coef;
    mpq_class rhs;
    int rel; // 0 =, 1 <, 2 <=, 3 >, 4 >=, 5 !=, 6 true, 7 false
    bool operator==(Canon const& o) const { return rel == o.rel && (rel >= 6 || (coef == o.coef && rhs == o.rhs)); }
    std::string str() const
    {
        static char const* const n[] = {"=", "<", "<=", ">", ">=", "!=", "true", "false"};
        std::string s;
        if (rel >= 6) { return n[rel]; }
        for (auto& [v, c] : coef) { s += c.get_str() + "*" + "xyzuvw"[v] + " "; }
        return s + n[rel] + " " + rhs.get_str();
    }
    bool holds(std::vector<mpq_class> const& p) const
    {
        if (rel >= 6) { return rel == 6; }
        mpq_class s = 0;
        for (auto& [v, c] : coef) { s += c * p[v]; }
        int k = cmp(s, rhs);
        switch (rel) { case 0: return k == 0; case 1: return k < 0; case 2: return k <= 0; case 3: return k > 0; case 4: return k >= 0; default: return k != 0; }
    }
};

Canon canon(std::vector<int> const& vars, std::vector<mpq_class> const& coef, int pred, mpq_class rhs, bool neg)
{
    static int const negated[] = {5, 4, 3, 2, 1, 0}, flipped[] = {0, 3, 4, 1, 2, 5};
    Canon c;
    for (std::size_t i = 0; i < vars.size(); ++i) { c.coef[vars[i]] += coef[i]; }
    for (auto it = c.coef.begin(); it != c.coef.end();) { it = it->second == 0 ? c.coef.erase(it) : std::next(it); }
    c.rel = pred;
    c.rhs = rhs;
    if (c.coef.empty())
    {
        int k = cmp(mpq_class(0), rhs);
        bool h = pred == 0 ? k == 0 : pred == 1 ? k < 0 : k <= 0;
        c.rel = h != neg ? 6 : 7;
        c.rhs = 0;
        return c;
    }
    if (neg) { c.rel = negated[c.rel]; }
    mpq_class m = c.coef.begin()->second;
    if (m < 0) { c.rel = flipped[c.rel]; }
    for (auto& [v, k] : c.coef) { k /= m; }
    c.rhs /= m;
    return c;
}

mpq_class num(std::string const& s) { mpq_class q(s); q.canonicalize(); return q; }
mpq_class num(Rational const& r) { return num(r.get_str()); }

Canon canon(Orig const& o)
{
    std::vector<mpq_class> c;
    for (auto& s : o.coef) { c.push_back(num(s)); }
    return canon(o.vars, c, o.pred, num(o.rhs), false);
}

Canon canon(Linear_constraint<Rational> const& k)
{
    std::vector<int> v;
    std::vector<mpq_class> c;
    for (int x : k.vars()) { v.push_back(x); }
    for (auto const& x : k.coef()) { c.push_back(num(x)); }
    return canon(v, c, k.pred() == Order_predicate::eq ? 0 : k.pred() == Order_predicate::lt ? 1 : 2, num(k.rhs()), k.lit().is_negation());
}

struct World {
    Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    Linear_arithmetic lra;
    int nvars;
    std::vector<std::pair<Orig, Literal>> made;
    std::vector<int> plain;
    std::string log;

    World(int nvars, int nbool, bool bounds) : nvars(nvars)
    {
        lra.set_options({.prop_bounds = bounds});
        dispatcher.add(&lra);
        trail.set_model<bool>(Variable::boolean, 0);
        trail.set_model<Rational>(Variable::rational, 0);
        trail.resize(Variable::rational, nvars);
        trail.resize(Variable::boolean, nbool);
        for (int i = 0; i < nbool; ++i) { plain.push_back(i); }
    }
    int booleans() { return static_cast<int>(trail.model<bool>(Variable::boolean).num_vars()); }
    void add_bool()
    {
        plain.push_back(booleans());
        trail.resize(Variable::boolean, booleans() + 1);
        log += "; add a Boolean variable";
        transitions();
    }
    void create(Orig const& o, bool evals)
    {
        log += "; " + o.str();
        std::vector<Rational> coef;
        for (auto& c : o.coef) { coef.emplace_back(c.c_str()); }
        auto p = o.pred == 0 ? Order_predicate::eq : o.pred == 1 ? Order_predicate::lt : Order_predicate::leq;
        auto k = lra.constraint(trail, o.vars, coef, p, Rational(o.rhs.c_str()));
        transitions();
        judge(o, k, "the constraint returned");
        if (k.lit().var().ord() >= booleans()) { fail(log + ": the literal's variable " + std::to_string(k.lit().var().ord()) + " does not exist"); }
        made.push_back({o, k.lit()});
        if (evals) { evaluate(o, k); }
    }
    void judge(Orig const& o, Linear_constraint<Rational> const& k, std::string const& what)
    {
        auto want = canon(o), got = canon(k);
        if (!(want == got)) { fail(log + ": " + what + " for " + o.str() + " means " + got.str() + " instead of " + want.str()); }
        if (!k.empty() && k.is_strict() != (want.rel == 1 || want.rel == 3 || want.rel == 5)) { fail(log + ": " + what + " for " + o.str() + ": is_strict()"); }
    }
    // after the whole history: every literal still means what was written
    void check_all()
    {
        for (auto& [o, lit] : made)
        {
            auto k = lra.constraint(lit);
            if (!k.empty()) { judge(o, k, "the constraint of literal " + std::string(lit.is_negation() ? "~" : "") + std::to_string(lit.var().ord())); }
            else
            {
                auto pos = lra.constraint(lit.var().ord());
                auto c = lit.is_negation() ? ~pos : pos;
                if (pos.lit().var() != lit.var() || pos.lit().is_negation()) { fail(log + ": no constraint is stored for the literal of " + o.str()); }
                judge(o, c, "the stored constraint");
            }
        }
        for (int b : plain)
        {
            if (!lra.constraint(b).empty()) { fail(log + ": Boolean variable " + std::to_string(b) + " became a linear constraint"); }
            for (auto& [o, lit] : made) { if (lit.var().ord() == b) { fail(log + ": " + o.str() + " is represented by the plain Boolean variable " + std::to_string(b)); } }
        }
        traces();
        state(hash(log));
    }
    void evaluate(Orig const& o, Linear_constraint<Rational> const& k)
    {
        auto want = canon(o);
        static char const* const grid[] = {"-1", "0", "1/2", "1", "3"};
        int n = 1;
        for (int i = 0; i < nvars; ++i) { n *= 5; }
        Model<Rational> m;
        m.resize(nvars);
        for (int i = 0; i < n; ++i)
        {
            std::vector<mpq_class> p;
            for (int v = 0, j = i; v < nvars; ++v, j /= 5)
            {
                p.push_back(num(grid[j % 5]));
                m.set_value(v, Rational(grid[j % 5]));
            }
            if (k.eval(m) != want.holds(p) || (~k).eval(m) == want.holds(p)) { fail(log + ": evaluation of " + o.str() + " is wrong at point " + std::to_string(i)); }
            auto e = yaga::eval(m, k);
            if (!e || *e != want.holds(p)) { fail(log + ": evaluation (three-valued) of " + o.str() + " is wrong at point " + std::to_string(i)); }
            if (!k.empty()) // leave the first variable open
            {
                int v = *k.vars().begin();
                auto a = num(*k.coef().begin());
                mpq_class r = num(k.rhs());
                auto ci = k.coef().begin();
                for (int x : k.vars()) { if (x != v) { r -= num(*ci) * p[x]; } ++ci; }
                m.clear(v);
                if (num(k.implied_value(m)) != r) { fail(log + ": implied value of " + o.str() + " is wrong at point " + std::to_string(i)); }
                if (yaga::eval(m, k)) { fail(log + ": " + o.str() + " evaluates although a variable has no value"); }
            }
        }
    }
};

// all coefficient vectors over cs for n variables; one item = one vector, all orders x predicates x right-hand sides,
// created one after another in one repository (so that duplicates and complements are shared)
void vectors(std::string name, int n, std::vector<std::string> cs, std::vector<std::string> rs, std::vector<std::string> mult, bool evals)
{
    std::uint64_t size = 1;
    for (int i = 0; i < n; ++i) { size *= cs.size(); }
    auto coefs = [=](std::uint64_t i) { std::vector<std::string> c; for (int v = 0; v < n; ++v, i /= cs.size()) { c.push_back(cs[i % cs.size()]); } return c; };
    add({name, size, [=](std::uint64_t i) {
             auto c = coefs(i);
             for (auto& r : rs)
             {
                 for (int rev = 0; rev < 2; ++rev)
                 {
                     World w(n, 1, rev);
                     std::vector<int> perm;
                     for (int v = 0; v < n; ++v) { perm.push_back(v); }
                     do {
                         for (int p = 0; p < 3; ++p)
                         {
                             for (auto& m : mult)
                             {
                                 Orig o;
                                 mpq_class f = num(m);
                                 for (int v : perm) { o.vars.push_back(v); o.coef.push_back(mpq_class(f * num(c[v])).get_str()); }
                                 o.pred = rev ? 2 - p : p;
                                 o.rhs = mpq_class(f * num(r)).get_str();
                                 w.create(o, evals);
                             }
                         }
                     } while (std::next_permutation(perm.begin(), perm.end()));
                     w.check_all();
                 }
             }
         },
         [=](std::uint64_t i) { std::string s = "coefficients"; for (auto& c : coefs(i)) { s += " " + c; } return s + ", all variable orders, predicates, right-hand sides and multiples"; }, 60});
}

std::vector<Orig> pool(int which)
{
    std::vector<Orig> p;
    if (which == 0)
    {
        for (int pred = 0; pred < 3; ++pred)
        {
            p.push_back({{0}, {"1"}, pred, "1"});
            p.push_back({{0}, {"-2"}, pred, "-2"});
            p.push_back({{0}, {"1"}, pred, "-1"});
            p.push_back({{0, 1}, {"1", "-1"}, pred, "0"});
            p.push_back({{1, 0}, {"1", "-1"}, pred, "0"});
            p.push_back({{1, 0}, {"2", "0"}, pred, "1"});
        }
        p.push_back({{}, {}, 1, "1"});
        p.push_back({{0}, {"0"}, 2, "-1"});
    }
    else
    {
        for (int pred = 0; pred < 3; ++pred)
        {
            p.push_back({{0, 1, 2}, {"1", "2", "3"}, pred, "1"});
            p.push_back({{2, 1, 0}, {"3", "2", "1"}, pred, "1"});
            p.push_back({{1, 2, 0}, {"2", "1", "3"}, pred, "1"});
            p.push_back({{1, 0}, {"-2", "-1"}, pred, "-1"});
            p.push_back({{0, 1, 2}, {"0", "-1", "1"}, pred, "0"});
            p.push_back({{0, 1, 2, 3, 4}, {"1", "2", "3", "4", "5"}, pred, "1"});
            p.push_back({{4, 3, 2, 1, 0}, {"-5", "-4", "-3", "-2", "-1"}, pred, "-1"});
            p.push_back({{4, 3, 2, 1, 0}, {"4", "5", "3", "2", "1"}, pred, "1"});
        }
    }
    return p;
}

// all creation histories up to a length, mixed with additions of Boolean variables
void histories(std::string name, int which, int nvars, int depth)
{
    auto p = std::make_shared<std::vector<Orig>>(pool(which));
    std::uint64_t n = p->size() + 1, size = 1;
    for (int i = 0; i < depth; ++i) { size *= n; }
    add({name, size, [=](std::uint64_t i) {
             World w(nvars, i % 2, i / 2 % 2);
             for (int k = 0; k < depth; ++k, i /= n)
             {
                 if (i % n == n - 1) { w.add_bool(); }
                 else { w.create((*p)[i % n], false); }
             }
             w.check_all();
         },
         [=](std::uint64_t i) { std::string s; for (int k = 0; k < depth; ++k, i /= n) { s += i % n == n - 1 ? "add a Boolean variable\n" : (*p)[i % n].str() + "\n"; } return s; }});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    vectors("vectors1", 1, {"0", "1", "-1", "2", "-2", "3", "-3", "1/2", "-1/2", "2/3", "-7/5", "2147483647", "-2147483648", "2147483648", "-4294967296", "1/4294967295", "340282366920938463463374607431768211456"},
            {"0", "1", "-1", "1/2", "-3", "2147483647", "-2147483648", "4294967296", "1/3", "340282366920938463463374607431768211455"}, {"1", "-1", "2", "-1/3"}, true);
    vectors("vectors2", 2, {"0", "1", "-1", "2", "-2", "3", "1/2", "-3/2", "2147483647", "-2147483648", "4294967296"}, {"0", "1", "-1", "1/2", "2147483648"}, {"1", "-1", "2", "-1/2"}, true);
    vectors("vectors3", 3, t ? std::vector<std::string>{"0", "1", "-1", "2", "-2", "3", "-1/2", "2147483648"} : std::vector<std::string>{"0", "1", "-1", "2", "-1/2"}, {"0", "1", "-2"}, {"1", "-2"}, t);
    vectors("vectors4", 4, t ? std::vector<std::string>{"0", "1", "-1", "3"} : std::vector<std::string>{"0", "1", "-2"}, {"0", "1"}, {"1", "-1"}, false);
    vectors("vectors5", 5, t ? std::vector<std::string>{"0", "1", "-2"} : std::vector<std::string>{"1", "-2"}, {"1"}, {"1", "-1"}, false);
    histories("histories2", 0, 2, t ? 5 : 4);
    histories("histories5", 1, 5, t ? 5 : 4);
    // through the SMT-LIB front end: the same atom written in different ways
    auto g = std::make_shared<Grammar>();
    g->rule('r', {"<", "<=", "=", ">", ">=", "distinct"});
    g->rule('s', {"<", "<=", "="});
    g->rule('t', {"(+ x y)", "(- x y)", "(- y x)", "(+ (* 2 x) (* (- 2) y))", "(* 2 (+ x y))", "(- (+ x x x) (* 2 x) y)", "(+ x (* 0 y))", "(/ (- x y) 2)", "(- (- x))", "(+ x y (- x))", "(- x x)"});
    g->rule('c', {"0", "1", "(- 1)", "(- x y)", "y", "(/ 1 2)"});
    std::string head = "(set-logic QF_LRA)\n(declare-fun y () Real)\n(declare-fun x () Real)\n";
    auto fam = [&](std::string name, std::string text, std::vector<int> opts) {
        add({name, g->size(text), [=](std::uint64_t i) { auto s = g->make(text, i); for (int o : opts) { check_script(s, o); } }, [=](std::uint64_t i) { return g->make(text, i); }});
    };
    fam("atom-pairs", head + "(assert ($r $t $c))\n(assert (not ($s $t $c)))\n(check-sat)\n(get-model)\n", {3});
    if (t)
    {
        g->rule('a', {"($r $t $c)"});
        fam("atom-equivalence", head + "(assert (= $a (not $a)))\n(check-sat)\n(get-model)\n", {0});
    }
}
