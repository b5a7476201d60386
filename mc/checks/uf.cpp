// C04, C05: uninterpreted functions combined with linear arithmetic and Booleans, verdicts and models.
#include "e2e.h"
#include "grammar.h"

using namespace mc;

static void family(std::string name, std::shared_ptr<Grammar> g, std::string text, std::vector<int> opts)
{
    add({name, g->size(text), [=](std::uint64_t i) {
             auto s = g->make(text, i);
             for (int o : opts) { check_script(s, o); }
         },
         [=](std::uint64_t i) { return g->make(text, i); }});
}

static std::vector<int> const all_opts{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
static std::vector<int> const four{0, 3, 5, 10};
static std::vector<int> const two{0, 7};

static std::string const head = "(set-logic QF_UFLRA)\n(declare-fun x () Real)\n(declare-fun y () Real)\n(declare-fun z () Real)\n(declare-fun p () Bool)\n(declare-fun q () Bool)\n"
                                "(declare-fun f (Real) Real)\n(declare-fun g (Real Real) Real)\n(declare-fun h (Bool) Real)\n(declare-fun P (Real) Bool)\n(declare-fun B (Bool) Bool)\n(declare-fun M (Real Bool) Bool)\n";
static std::string const tail = "(check-sat)\n(get-model)\n";

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    // 1. congruence over one unary function: every conjunction of literals over a set of (dis)equalities and orders
    {
        std::vector<std::string> atoms{"(= x y)", "(= (f x) (f y))", "(< x y)", "(= (f x) 0)", "(<= (f y) 0)", "(= (f (f x)) y)", "(= z (f y))", "(= y z)"};
        auto n = t ? (int)atoms.size() : 7;
        auto g = std::make_shared<Grammar>();
        std::string text = head;
        for (int i = 0; i < n; ++i)
        {
            g->rule((char)('a' + i), {"", "(assert " + atoms[i] + ")\n", "(assert (not " + atoms[i] + "))\n"});
            text += std::string("$") + (char)('a' + i);
        }
        family("uf-congruence-conj", g, text + tail, all_opts);
    }
    {
        std::vector<std::string> atoms{"(= (g x y) (g y x))", "(= x y)", "(= (g x z) 1)", "(< (g y z) 1)", "(= (g (g x y) z) x)", "(<= (+ x y) z)", "(= (g x y) z)"};
        auto n = t ? (int)atoms.size() : 6;
        auto g = std::make_shared<Grammar>();
        std::string text = head;
        for (int i = 0; i < n; ++i)
        {
            g->rule((char)('a' + i), {"", "(assert " + atoms[i] + ")\n", "(assert (not " + atoms[i] + "))\n"});
            text += std::string("$") + (char)('a' + i);
        }
        family("uf-binary-conj", g, text + tail, all_opts);
    }
    {
        std::vector<std::string> atoms{"p", "q", "(B p)", "(B q)", "(B (B p))", "(= (h p) (h q))", "(= p (B q))", "(< (h true) (h false))"};
        auto n = t ? (int)atoms.size() : 7;
        auto g = std::make_shared<Grammar>();
        std::string text = head;
        for (int i = 0; i < n; ++i)
        {
            g->rule((char)('a' + i), {"", "(assert " + atoms[i] + ")\n", "(assert (not " + atoms[i] + "))\n"});
            text += std::string("$") + (char)('a' + i);
        }
        family("uf-boolean-conj", g, text + tail, all_opts);
    }
    {
        std::vector<std::string> atoms{"(P x)", "(P y)", "(= x y)", "(M x p)", "(M y (P x))", "(= p (P y))", "(<= x y)", "(M (f x) (< x y))"};
        auto n = t ? (int)atoms.size() : 7;
        auto g = std::make_shared<Grammar>();
        std::string text = head;
        for (int i = 0; i < n; ++i)
        {
            g->rule((char)('a' + i), {"", "(assert " + atoms[i] + ")\n", "(assert (not " + atoms[i] + "))\n"});
            text += std::string("$") + (char)('a' + i);
        }
        family("uf-mixed-conj", g, text + tail, all_opts);
    }
    // 2. clause pairs over atoms with functions
    {
        auto g = std::make_shared<Grammar>();
        g->rule('a', {"(= x y)", "(= (f x) (f y))", "(< (f x) y)", "(= (f y) x)", "(P (f x))", "(P y)", "p"});
        g->rule('l', {"$a", "(not $a)"});
        g->rule('c', {"$l", "(or $l $l)"});
        family("uf-clauses2", g, head + "(assert $c)\n(assert $c)\n" + tail, two);
        g->rule('b', {"(= x y)", "(= (f x) (f y))", "(P (f x))", "(P y)"});
        g->rule('k', {"$b", "(not $b)"});
        family("uf-clauses3", g, head + "(assert (or $k $k))\n(assert (or $k $k))\n(assert (or $k $k))\n" + tail, t ? all_opts : std::vector<int>{3});
    }
    // 3. term structure: every function over arguments of every form
    {
        auto g = std::make_shared<Grammar>();
        g->rule('u', {"x", "y", "0", "1"});
        g->rule('b', {"p", "q", "true", "false", "(not p)", "(< x y)", "(P x)", "(and p q)", "(= (f x) y)", "(B p)"});
        g->rule('t', {"x", "0", "(+ x 1)", "(- y)", "(f x)", "(f y)", "(f (f x))", "(g x y)", "(h p)", "(ite p x y)", "(* 2 x)", "(f (+ x 1))", "(f 0)", "(h (not p))", "(h (P x))"});
        g->rule('r', {"=", "<", "<=", "distinct"});
        g->rule('x', {"($r $t $t)"});
        g->rule('y', {"true", "(= x y)", "(= p q)", "(distinct (f x) (f y))", "(= (f x) 1)", "(P y)"});
        family("uf-terms", g, head + "(assert $x)\n(assert $y)\n" + tail, two);
        g->rule('v', {"(f $t)", "(g $t y)", "(g 1 $t)", "(h $b)", "(f (f $t))", "(f (h $b))", "(g $u $u)"});
        g->rule('w', {"(= $v $u)", "(< $v $v)", "(distinct $v $v)"});
        family("uf-applications", g, head + "(assert $w)\n(assert $y)\n" + tail, {0, 5});
        g->rule('V', {"(P $t)", "(B $b)", "(M $t $b)", "(not (B (B $b)))", "(= (P $u) $b)", "(not (M $t $b))", "(B (M $u $b))", "(M (h $b) $b)"});
        family("uf-predicates", g, head + "(assert $V)\n(assert $y)\n(assert (or (not (P x)) (B q) (M y p)))\n" + tail, {0, 5});
        family("uf-predicates2", g, head + "(assert $V)\n(assert (not (B $b)))\n" + tail, {0});
    }
    // 4. many applications: chains that need congruence several times, with every link removed or negated
    {
        int n = t ? 7 : 6;
        auto g = std::make_shared<Grammar>();
        std::vector<std::string> links{"(= x y)", "(= z (f x))", "(= w (f y))", "(= u (g z w))", "(= v (g w z))", "(= (f u) s)", "(= (f v) (+ s 1))", "(< (g u v) 0)"};
        std::string text = "(set-logic QF_UFLRA)\n";
        for (auto v : {"x", "y", "z", "w", "u", "v", "s"}) { text += std::string("(declare-fun ") + v + " () Real)\n"; }
        text += "(declare-fun f (Real) Real)\n(declare-fun g (Real Real) Real)\n";
        (void)n;
        for (std::size_t i = 0; i < links.size(); ++i)
        {
            g->rule((char)('a' + i), {"(assert " + links[i] + ")\n", "(assert (not " + links[i] + "))\n", ""});
            text += std::string("$") + (char)('a' + i);
        }
        family("uf-chain", g, text + tail, t ? all_opts : four);
    }
    // 5. functional pigeonhole: a function with few values on many points
    {
        int points = 4;
        for (int vals = 2; vals <= 3; ++vals)
        {
            int np = points * (points - 1) / 2;
            auto make = [=](std::uint64_t i) {
                std::string s = "(set-logic QF_UFLRA)\n(declare-fun f (Real) Real)\n";
                char const* names[] = {"x", "y", "z", "w"};
                for (int v = 0; v < points; ++v)
                {
                    s += std::string("(declare-fun ") + names[v] + " () Real)\n(assert (or";
                    for (int k = 1; k <= vals; ++k) { s += std::string(" (= (f ") + names[v] + ") " + std::to_string(k) + ")"; }
                    s += "))\n";
                }
                int k = 0;
                for (int a = 0; a < points; ++a)
                {
                    for (int b = a + 1; b < points; ++b, ++k)
                    {
                        if (i >> k & 1) { s += std::string("(assert (not (= (f ") + names[a] + ") (f " + names[b] + "))))\n"; }
                        else { s += std::string("(assert (= ") + names[a] + " (+ " + names[b] + " " + std::to_string(k % 2) + ")))\n"; }
                    }
                }
                return s + tail;
            };
            add({"uf-pigeonhole" + std::to_string(vals), 1ull << np, [=](std::uint64_t i) { auto s = make(i); for (int o : all_opts) { check_script(s, o); } }, make});
        }
    }
    // 6. definitions, lets and ite around applications
    {
        auto g = std::make_shared<Grammar>();
        g->rule('u', {"x", "y", "1", "(f y)"});
        g->rule('b', {"p", "(P x)", "(< x (f x))"});
        g->rule('d', {"(D $u)", "(D (D $u))", "(ite $b (f $u) $u)", "(let ((x (f $u))) (g x y))", "(f (ite $b x $u))", "(let ((x y) (y $u)) (f (+ x y)))", "(h (ite p $b q))", "(E $b $u)"});
        g->rule('x', {"(= $d $d)", "(< $d $u)", "(not (= $d $u))"});
        g->rule('y', {"true", "(= x y)", "(not (P y))", "(= (f x) x)"});
        family("uf-define", g, head + "(define-fun D ((x Real)) Real (+ (f x) 1))\n(define-fun E ((q Bool) (z Real)) Real (ite (= q (P z)) (f z) (h q)))\n(assert $x)\n(assert $y)\n" + tail, two);
    }
}
