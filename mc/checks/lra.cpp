// C02, C03: linear real arithmetic scripts, verdicts and models under every option.
#include "e2e.h"
#include "grammar.h"
#include "lra_pool.h"

using namespace mc;

// clause sets over a pool, every option combination in `opts`
static void pool_family(std::shared_ptr<Pool> p, Cnf_family fam, std::vector<int> opts)
{
    auto n = opts.size();
    add({"lra-" + p->name + "-" + fam.name, fam.size, [=](std::uint64_t i) {
             auto f = fam.make(i);
             auto s = p->script(f);
             auto e = p->sat(f);
             for (std::size_t o = 0; o < n; ++o) { check_script(s, opts[o], e); }
         },
         [=](std::uint64_t i) { return p->script(fam.make(i)); }});
}

static void grammar_family(std::string name, std::shared_ptr<Grammar> g, std::string text, std::vector<int> opts)
{
    add({name, g->size(text), [=](std::uint64_t i) {
             auto s = g->make(text, i);
             for (int o : opts) { check_script(s, o); }
         },
         [=](std::uint64_t i) { return g->make(text, i); }});
}

static std::vector<int> const all_opts{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
static std::vector<int> const some_opts{0, 3, 7, 9};
static std::vector<int> const bounds_opts{0, 1, 2, 3};
static std::vector<int> const one_opt{0};

static std::string const head = "(set-logic QF_LRA)\n(declare-fun x () Real)\n(declare-fun y () Real)\n(declare-fun z () Real)\n(declare-fun p () Bool)\n(declare-fun q () Bool)\n";
static std::string const tail = "(check-sat)\n(get-model)\n";

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    // 1. clause sets over pools of atoms
    for (auto& pool : all_pools())
    {
        auto p = std::make_shared<Pool>(pool);
        int n = p->lits();
        pool_family(p, conjunctions("conj", n), all_opts);
        auto small = clauses_upto(n, 2);
        for (int k = 2; k <= (t ? 4 : 3); ++k) { pool_family(p, clause_sets("pairs" + std::to_string(k), small, n, k), k == 2 ? all_opts : k == 3 ? some_opts : one_opt); }
    }
    for (auto pool : {pool_bounds(), pool_diff(), pool_mixed(), pool_three()})
    {
        // powersets of all full-width clauses over four of the atoms: many conflicts, learned clauses
        pool.atoms = {pool.atoms[0], pool.atoms[1], pool.atoms[2], pool.atoms[3]};
        pool.compute();
        auto p = std::make_shared<Pool>(pool);
        pool_family(p, clause_powerset("wide", full_width(4, 4), 4), t ? all_opts : std::vector<int>{0, 3});
        for (int k = 0; k <= (t ? 4 : 3); ++k) { pool_family(p, without("w3minus" + std::to_string(k), full_width(4, 3), 4, k), bounds_opts); }
    }
    {
        // six atoms, all clauses of width 3 except k of them
        for (auto pool : {pool_diff(), pool_mixed(), pool_three(), pool_mcsat()})
        {
            auto p = std::make_shared<Pool>(pool);
            for (int k = 0; k <= (t ? 2 : 1); ++k) { pool_family(p, without("6w3minus" + std::to_string(k), full_width(6, 3), 6, k), bounds_opts); }
        }
    }
    // 2. all difference systems: a weighted edge (none, <=, <, =) between every ordered pair
    {
        auto g = std::make_shared<Grammar>();
        g->rule('a', {"true", "(<= (- x y) 0)", "(< (- x y) 1)", "(= (- x y) 1)", "(<= (- x y) (- 1))"});
        g->rule('b', {"true", "(<= (- y z) 0)", "(< (- y z) 1)", "(= y (+ z 1))", "(not (= y z))"});
        g->rule('c', {"true", "(<= (- z x) 0)", "(< z x)", "(= (- z x) (- 2))", "(> z (+ x 1))"});
        g->rule('d', {"true", "(<= x y)", "(>= y z)", "(distinct x y z)", "(or (< x y) (< y x))"});
        g->rule('e', {"true", "(= x 0)", "(< x 0)", "(or (= y 1) p)", "(and (not p) (>= z 3))"});
        grammar_family("difference-systems", g, head + "(assert $a)(assert $b)(assert $c)(assert $d)(assert $e)\n" + tail, bounds_opts);
    }
    // 3. language features: Boolean structure over atoms, ite, let, definitions, n-ary and chained operators
    {
        auto g = std::make_shared<Grammar>();
        g->rule('a', {"p", "q", "(< x y)", "(= x 1)", "(<= (+ x y) 0)"});
        g->rule('b', {"$a", "(not $a)"});
        g->rule('f', {"(and $b $a)", "(or $b $b)", "(=> $a $b)", "(xor $a $a)", "(= $a $b)", "(distinct $a $a)", "(ite $a $b $a)", "(and $a $a $a)", "(xor $a $a $a)", "(=> $a $a $a)", "(= $a $a $a)"});
        g->rule('g', {"(not (or $a $a))", "(not (and $a $a))", "(or (not $a) $a)", "(xor $a $a)", "(= $a $a)"});
        grammar_family("boolean-structure", g, head + "(assert $f)\n(assert $g)\n" + tail, {0, 7});
        if (t) { grammar_family("boolean-structure3", g, head + "(assert $f)\n(assert $g)\n(assert $g)" + tail, one_opt); }
    }
    {
        auto g = std::make_shared<Grammar>();
        g->rule('u', {"x", "y", "0", "1", "(- 1)"});
        g->rule('t', {"$u", "(+ $u $u)", "(- $u $u)", "(- x)", "(* 2 $u)", "(* $u (- 3))", "(/ $u 2)", "(ite p $u $u)", "(ite (< x y) $u $u)", "(+ x y 1)", "(- x y 1)", "(* 2 x 3)", "(ite (= x 1) (ite p y x) $u)"});
        g->rule('r', {"<", "<=", "=", ">", ">=", "distinct"});
        g->rule('f', {"($r $t $t)"});
        g->rule('g', {"true", "(not p)", "(= x y)", "(> y 0)", "(distinct x y 1)"});
        grammar_family("terms", g, head + "(assert $f)\n(assert $g)\n" + tail, {0, 3});
        g->rule('s', {"x", "y", "1", "(ite q x 2)"});
        g->rule('h', {"($r $s $s $s)", "($r $s $s $s $s)", "(not ($r $s $s $s))", "(or p ($r $s $s))"});
        grammar_family("chained", g, head + "(assert $h)\n(assert $g)\n" + tail, bounds_opts);
        g->rule('l', {"(let ((x $u)) (< x y))", "(let ((x y) (y x)) (< $u $u))", "(let ((a (< x $u))) (and a (or p (not a))))", "(let ((a $u)) (let ((b (+ a 1)) (a (- a))) (= (+ a b) $u)))",
                       "(let ((p q) (q p)) (and p (not q) (= $u $u)))", "(let ((z (ite p $u $u))) (= z $u))"});
        g->rule('m', {"(P $u)", "(not (P $u))", "(= (F $u $u) $u)", "(Q p $u)", "(Q (not q) (F $u y))", "(< K $u)"});
        grammar_family("let-define", g, head + "(define-fun P ((x Real)) Bool (< x y))\n(define-fun F ((x Real) (y Real)) Real (- (* 2 y) x))\n(define-fun Q ((p Bool) (z Real)) Bool (= p (> z x)))\n(define-fun K () Real (+ x 1))\n(assert $l)\n(assert $m)\n(assert $g)\n" + tail, {0, 3});
    }
    // 4. numbers of all sizes and forms
    {
        auto g = std::make_shared<Grammar>();
        g->rule('n', {"0", "1", "0.5", "1.25", "2147483647", "2147483648", "4294967296", "4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551616", "340282366920938463463374607431768211456", "0.000000000001", "123456789.987654321", "(/ 1 3)", "(/ 2 6.0)", "(- 2147483648)", "(- 0.3)", "(/ (- 7) 2147483649)"});
        g->rule('f', {"(= x $n)", "(< x $n)", "(>= (* $n x) $n)", "(= (+ x (* $n y)) $n)", "(not (<= (- (* $n x) y) $n))"});
        g->rule('g', {"(= y $n)", "(< (+ x y) $n)", "(= (* 3 y) (- x $n))"});
        grammar_family("numbers", g, head + "(assert $f)\n(assert $g)\n" + tail, {0, 2});
    }
    // 5. values in a grid: pigeonhole with reals, all different values 1..h, with one disequality left out
    {
        int hmax = t ? 5 : 4;
        for (int h = 2; h <= hmax; ++h)
        {
            int n = h + 1;
            auto pairs = std::make_shared<std::vector<std::pair<int, int>>>();
            for (int a = 0; a < n; ++a) { for (int b = a + 1; b < n; ++b) { pairs->emplace_back(a, b); } }
            auto make = [=](std::uint64_t i) {
                std::string s = "(set-logic QF_LRA)\n";
                for (int v = 0; v < n; ++v) { s += std::string("(declare-fun ") + var_name(v) + " () Real)\n"; }
                for (int v = 0; v < n; ++v)
                {
                    s += "(assert (or";
                    for (int k = 1; k <= h; ++k) { s += std::string(" (= ") + var_name(v) + " " + std::to_string(k) + ")"; }
                    s += "))\n";
                }
                for (std::size_t k = 0; k < pairs->size(); ++k)
                {
                    if (i >= 1 && k == i - 1) { continue; }
                    auto [a, b] = (*pairs)[k];
                    s += k % 2 ? std::string("(assert (not (= ") + var_name(a) + " " + var_name(b) + ")))\n" : std::string("(assert (or (< ") + var_name(a) + " " + var_name(b) + ") (> " + var_name(a) + " " + var_name(b) + ")))\n";
                }
                return s + tail;
            };
            add({"real-pigeonhole" + std::to_string(h), pairs->size() + 1, [=](std::uint64_t i) { auto s = make(i); for (int o : all_opts) { check_script(s, o, i > 0); } }, make, 60});
        }
    }
    // 6. disjunctive scheduling: jobs on one machine, all durations 1..3 and all deadlines
    {
        int n = t ? 4 : 3;
        std::uint64_t size = 1;
        for (int i = 0; i < n; ++i) { size *= 3; }
        int deadlines = 3 * n + 1;
        auto make = [=](std::uint64_t i) {
            int D = i % deadlines;
            i /= deadlines;
            std::vector<int> d;
            for (int k = 0; k < n; ++k, i /= 3) { d.push_back(1 + i % 3); }
            std::string s = "(set-logic QF_LRA)\n";
            for (int v = 0; v < n; ++v) { s += std::string("(declare-fun ") + var_name(v) + " () Real)\n(assert (and (>= " + var_name(v) + " 0) (<= (+ " + var_name(v) + " " + std::to_string(d[v]) + ") " + std::to_string(D) + ")))\n"; }
            for (int a = 0; a < n; ++a)
            {
                for (int b = a + 1; b < n; ++b) { s += std::string("(assert (or (<= (+ ") + var_name(a) + " " + std::to_string(d[a]) + ") " + var_name(b) + ") (<= (+ " + var_name(b) + " " + std::to_string(d[b]) + ") " + var_name(a) + ")))\n"; }
            }
            return s + tail;
        };
        auto expected = [=](std::uint64_t i) { int D = i % deadlines; i /= deadlines; int sum = 0; for (int k = 0; k < n; ++k, i /= 3) { sum += 1 + i % 3; } return sum <= D; };
        add({"scheduling", size * deadlines, [=](std::uint64_t i) { auto s = make(i); for (int o : all_opts) { check_script(s, o, expected(i)); } }, make, 60});
    }
}
