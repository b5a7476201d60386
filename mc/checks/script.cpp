// C15-C18, C23: scripts. Whole bounded languages of scripts are run through the real front end and judged by an
// independent reading (mc/wf.h, mc/ref.cpp) of what the script means.
#include "grammar.h"
#include "wf.h"
#include <memory>

using namespace mc;

namespace {

void run_script(std::string const& script, int opt = 0)
{
    auto r = run_smt(script, options(opt));
    transitions();
    traces();
    wf::Verdict vd;
    auto msg = wf::judge(script, r, vd);
    if (vd.capped) { capped("reference procedure hit its path limit"); }
    if (!msg.empty()) { fail(msg + "\noptions: " + options_str(opt)); }
    outcome(vd.cls == wf::Class::ok ? 0 : vd.cls == wf::Class::bad ? 1 : 2);
    for (int i = 0; i < vd.sats; ++i) { outcome(3); }
    for (int i = 0; i < vd.unsats; ++i) { outcome(4); }
    state(hash(script + r.out));
}

void add_scripts(std::string name, std::uint64_t n, std::function<std::string(std::uint64_t)> make, int opt = 0)
{
    Family f;
    f.name = name;
    f.size = n;
    f.run = [make, opt](std::uint64_t i) { run_script(make(i), opt); };
    f.show = make;
    mc::add(f);
}

void add_grammar(std::string name, Grammar g, std::string text, int opt = 0)
{
    auto gp = std::make_shared<Grammar>(std::move(g));
    add_scripts(name, gp->size(text), [gp, text](std::uint64_t i) { return gp->make(text, i); }, opt);
}

// every sequence of n tokens between two texts
void add_tokens(std::string name, std::string before, std::vector<std::string> vocab, int n, std::string after)
{
    std::uint64_t sz = 1;
    for (int i = 0; i < n; ++i) { sz *= vocab.size(); }
    add_scripts(name, sz, [=](std::uint64_t i) {
        std::string s;
        for (int k = 0; k < n; ++k) { s += (k ? " " : "") + vocab[i % vocab.size()]; i /= vocab.size(); }
        return before + s + after;
    });
}

std::vector<std::string> tokens_of(std::string const& s)
{
    std::vector<std::string> r;
    for (std::size_t p = 0; p < s.size();)
    {
        if (s[p] == ' ' || s[p] == '\n') { ++p; continue; }
        if (s[p] == '(' || s[p] == ')') { r.push_back(std::string(1, s[p++])); continue; }
        auto q = p;
        if (s[p] == '|') { p = s.find('|', p + 1) + 1; }
        else if (s[p] == '"') { p = s.find('"', p + 1) + 1; }
        else { while (p < s.size() && s[p] != ' ' && s[p] != '\n' && s[p] != '(' && s[p] != ')') { ++p; } }
        r.push_back(s.substr(q, p - q));
    }
    return r;
}

// number of single edits of a token sequence: delete, duplicate, swap with next, replace by / insert a word
std::uint64_t num_edits(std::size_t n, std::size_t v) { return n + n + (n - 1) + n * v + (n + 1) * v; }

std::vector<std::string> edit(std::vector<std::string> t, std::vector<std::string> const& v, std::uint64_t i)
{
    auto n = t.size();
    if (i < n) { t.erase(t.begin() + i); return t; }
    i -= n;
    if (i < n) { auto x = t[i]; t.insert(t.begin() + i, x); return t; }
    i -= n;
    if (i < n - 1) { std::swap(t[i], t[i + 1]); return t; }
    i -= n - 1;
    if (i < n * v.size()) { t[i / v.size()] = v[i % v.size()]; return t; }
    i -= n * v.size();
    t.insert(t.begin() + i / v.size(), v[i % v.size()]);
    return t;
}

std::string join(std::vector<std::string> const& t)
{
    std::string s;
    for (std::size_t i = 0; i < t.size(); ++i) { s += t[i] + (i + 1 < t.size() && t[i] == ")" && t[i + 1] == "(" ? "\n" : " "); }
    return s;
}

void add_edits(std::string name, std::string script, std::vector<std::string> vocab, bool twice)
{
    auto toks = tokens_of(script);
    auto n1 = num_edits(toks.size(), vocab.size());
    if (!twice) { add_scripts(name, n1, [=](std::uint64_t i) { return join(edit(toks, vocab, i)); }); return; }
    // second edit: lengths differ by at most one, so enumerate with the largest count and reduce
    auto n2 = num_edits(toks.size() + 1, vocab.size());
    add_scripts(name, n1 * n2, [=](std::uint64_t i) {
        auto t = edit(toks, vocab, i / n2);
        auto k = num_edits(t.size(), vocab.size());
        return join(edit(t, vocab, (i % n2) % k));
    });
}

//------------------------------------------------------------------------------------------------ C17

char const* const prelude17 = "(set-logic QF_UFLRA)\n(declare-fun x () Real)\n(declare-fun p () Bool)\n(declare-fun f (Real) Real)\n"
                              "(define-fun g ((a Real) (b Bool)) Bool (or b (< a x)))\n";

void setup17(bool thorough)
{
    std::string pre = prelude17;
    std::vector<std::string> tv = {"(", ")", "and", "=", "+", "*", "x", "p", "f", "1", "u", "let"};
    for (int n = 0; n <= (thorough ? 7 : 5); ++n)
    {
        if (n <= 5) { add_tokens("term-tokens" + std::to_string(n), pre + "(assert ", tv, n, ")\n(check-sat)\n"); }
        else
        {
            // start inside an application
            add_tokens("term-tokens" + std::to_string(n), pre + "(assert ( ", tv, n - 1, ")\n(check-sat)\n");
        }
    }
    for (auto op : {"and", "not", "=", "<", "+", "*", "/", "-", "ite", "f", "g", "=>", "xor", "distinct", "or", "let", ">="})
    {
        // an operator applied to any argument list of up to 3 (4) well-formed arguments of either sort, in any position
        Grammar g;
        g.rule('a', {"x", "p", "1", "0", "(+ x 1)", "(f x)", "(not p)", "(< x 1)", "true", "(- 2)", "(ite p x 1)", "u", "f", "(g x p)"});
        std::string o = op;
        for (int n = 0; n <= (thorough ? 4 : 3); ++n)
        {
            std::string s = o;
            for (int i = 0; i < n; ++i) { s += " $a"; }
            for (auto* ctx : {"(assert (#))", "(assert (= 1 (#)))", "(assert (and p (#)))", "(define-fun h () Bool (#))(assert h)", "(define-fun h () Real (#))(assert (< h 0))"})
            {
                if (n == 4 && ctx[9] != '#') { continue; }
                std::string c = ctx;
                c.replace(c.find('#'), 1, s);
                add_grammar("sorts:" + o + "/" + std::to_string(n) + "/" + std::string(ctx).substr(1, 15), g, pre + c + "\n(check-sat)\n(get-model)\n(assert (= x 5))\n(check-sat)");
            }
        }
    }
    std::vector<std::string> cv = {"(", ")", "declare-const", "define-fun", "assert", "check-sat", "z", "Real", "Bool", "p", "x"};
    for (int n = 1; n <= (thorough ? 7 : 5); ++n)
    {
        add_tokens("command-tokens" + std::to_string(n), pre + "(assert (< x 1))\n", cv, n, "\n(check-sat)\n");
        if (n == 5) { add_tokens("command-tokens-in", pre + "(assert (< x 1))\n( ", cv, n, ")\n(check-sat)\n"); }
    }
    std::vector<std::string> ev = {"(", ")", "let", "and", "=", "+", "*", "-", "x", "p", "f", "g", "1", "0.5", "u", "Real", "Bool", "Int", "assert", "check-sat",
        "declare-fun", "define-fun", "set-logic", "get-model", "exit", "true", "|x|", "|a b|", "_", "!", "as", "#b1", "\"s\"", ":k", "ite", "push"};
    char const* seeds[] = {
        "(set-logic QF_UFLRA)(declare-fun x () Real)(declare-fun p () Bool)(declare-fun f (Real Bool) Real)(assert (< (f x p) (+ x 1)))(check-sat)(assert (let ((y (* 2 x)) (x p)) (and x (= y 4))))(check-sat)(get-model)",
        "(set-logic QF_LRA)(declare-const x Real)(declare-const y Real)(define-fun g ((a Real) (b Bool)) Real (ite b a (- a)))(assert (= (g x (< y 0)) 1))(check-sat)(get-model)(assert (distinct x 1 (- 1)))(check-sat)",
        "(set-info :status sat)(set-option :produce-models true)(set-logic QF_LRA)(declare-fun x () Real)(declare-fun p () Bool)(assert (or p (>= x (/ 1 3))))(assert (not p))(check-sat)(get-model)(exit)",
        "(set-logic QF_LRA)(declare-const |x y| Real)(declare-const x Real)(define-fun |h| () Bool (< |x y| |x|))(assert (xor h (=> h (= x 0.25))))(assert (! h :named a))(check-sat)",
    };
    int k = 0;
    for (auto* s : seeds) { add_edits("edits" + std::to_string(k), s, ev, false); if (thorough) { add_edits("edits-twice" + std::to_string(k), s, {"(", ")", "x", "u", "p", "1", "let", "assert", "check-sat"}, true); } ++k; }
    // ill-formed commands interleaved with well-formed ones
    std::vector<std::string> cmds = {"(assert (< x u))", "(assert (and p 1))", "(assert (let ((x p)) (and x u)))", "(assert (let ((p x) (q (let ((x 1)) (+ x u)))) p))", "(assert x)", "(assert (f p))",
        "(assert (let ((x (< x 0))) (g x x)))", "(check-sat)", "(assert (= x 1))", "(assert p)", "(assert (or (not p) (< x 0)))", "(assert (let ((x 1) (p x)) (< p (f x))))"};
    int depth = thorough ? 6 : 4;
    std::uint64_t n = 1;
    for (int i = 0; i < depth; ++i) { n *= cmds.size(); }
    add_scripts("interleaved", n, [=](std::uint64_t i) {
        std::string s = pre;
        for (int d = 0; d < depth; ++d) { s += cmds[i % cmds.size()] + "\n"; i /= cmds.size(); }
        return s + "(check-sat)\n(get-model)\n";
    });
    // what may be assumed before and around
    std::vector<std::string> hd = {"(set-logic QF_LRA)", "(set-logic QF_UFLRA)", "(set-logic QF_LIA)", "(declare-fun f (Real) Real)", "(declare-fun f (Bool Bool) Bool)", "(declare-const x Real)", "(declare-fun x () Bool)",
        "(define-fun x () Real 1)", "(define-fun f ((x Real)) Real (+ x 1))", "(assert (= (f x) 2))", "(check-sat)", "(get-model)", "(define-fun y () Bool x)", "(assert x)"};
    int hdepth = thorough ? 5 : 4;
    n = 1;
    for (int i = 0; i < hdepth; ++i) { n *= hd.size(); }
    add_scripts("declarations", n, [=](std::uint64_t i) {
        std::string s;
        for (int d = 0; d < hdepth; ++d) { s += hd[i % hd.size()] + "\n"; i /= hd.size(); }
        return s + "(check-sat)\n";
    });
}

//------------------------------------------------------------------------------------------------ C16

void setup16(bool thorough)
{
    std::string pre = "(set-logic QF_LRA)\n(declare-const x Real)\n(declare-const y Real)\n(declare-const p Bool)\n";
    std::string post = "\n(check-sat)\n(get-model)\n";
    {
        Grammar g;
        g.rule('n', {"x", "y", "a"}).rule('t', {"x", "y", "(+ x 1)", "(- y x)", "a"}).rule('u', {"x", "y", "a"});
        add_grammar("let-parallel", g, pre + "(assert (let (($n $t) ($n $t)) (= $u (+ $u 2))))" + post);
        add_grammar("let-nested", g, pre + "(assert (let (($n $t)) (let (($n $t)) (= $u (+ $u 2)))))" + post);
        add_grammar("let-nested3", g, pre + "(assert (let (($n $t)) (let (($n $t)) (let (($n $t)) (< $u 0)))))" + post);
        add_grammar("let-in-binding", g, pre + "(assert (let (($n (let (($n $t)) (+ $u 1))) (y $u)) (= $u $t)))" + post);
        add_grammar("let-after", g, pre + "(assert (and (let (($n $t)) (< $u 0)) (let (($n $t)) (= $u 1)) (> $t $u)))" + post);
        if (thorough)
        {
            add_grammar("let-parallel-nested", g, pre + "(assert (let (($n $t) ($n $t)) (let (($n $t)) (= $u (+ $u 2)))))" + post);
            add_grammar("let-nested-parallel", g, pre + "(assert (let (($n $t)) (let (($n $t) ($n $t)) (= $u (+ $u 2)))))" + post);
        }
    }
    {
        // Boolean and arithmetic names exchanged
        Grammar g;
        g.rule('b', {"p", "(not p)", "(< x 0)", "(let ((p (< x 1))) p)", "(let ((x p)) x)", "(let ((p x)) (< p y))"})
            .rule('t', {"x", "(+ x y)", "(let ((x y)) x)", "(let ((x y) (y x)) (- x y))", "(ite p x y)"});
        add_grammar("let-sorts", g, pre + "(assert (let ((x $b) (p $t)) (and x (= p 1))))(assert (or $b (= $t y)))" + post);
        add_grammar("let-deep", g, pre + "(assert (let ((x $t) (y $t)) (let ((y $t) (p $b)) (or $b (= $t 3)))))" + post);
    }
    {
        // definitions: parameters shadow globals, bodies see globals, nested uses
        Grammar g;
        g.rule('P', {"(x Real)", "(y Real)", "(a Real)"}).rule('b', {"(+ x 1)", "(- x y)", "(- y (* 2 x))", "(let ((x y)) (+ x 1))", "(let ((y (+ x 1))) (- y x))", "a", "(ite p x y)"})
            .rule('v', {"x", "y", "(+ y 1)", "5", "(f x)", "(f (f y))", "(let ((x 2)) (f x))", "(f (let ((x y)) (- x 1)))"});
        add_grammar("define1", g, pre + "(define-fun f ($P) Real $b)(assert (= (f $v) $v))" + post);
        g.rule('Q', {"(x Real) (y Real)", "(y Real) (x Real)", "(y Real) (a Real)", "(a Real) (x Real)"});
        g.rule('w', {"x", "y", "(- x y)", "3"});
        add_grammar("define2", g, pre + "(define-fun f ($Q) Real $b)(assert (= (f $w $w) (f $w $w)))" + post);
        g.rule('c', {"(f x)", "(f y)", "(f (+ x y))", "(+ (f x) (f y))", "(let ((x y)) (f x))", "(f a)", "(f (f x))", "(- (f y) x)"});
        add_grammar("define-nested", g, pre + "(define-fun f ($P) Real $b)(define-fun g ($Q) Real $c)(assert (= (g $w $w) $w))" + post);
        if (thorough) { add_grammar("define-nested-twice", g, pre + "(define-fun f ($P) Real $b)(define-fun g ($P) Real $c)(define-fun h ($Q) Real (g $w))(assert (= (h $w $w) (+ 1 (g $w))))" + post); }
    }
    {
        // Boolean parameters and results; constants
        Grammar g;
        g.rule('P', {"(p Bool) (x Real)", "(q Bool) (y Real)", "(x Real) (p Bool)"}).rule('b', {"(and p (< x 0))", "(ite p (< x y) (> x y))", "(let ((p (< x y))) (not p))", "(= p (< x 1))", "(xor p c)", "q", "(=> c (d))", "(or p (= k x))"})
            .rule('u', {"p", "(< x y)", "c", "(not c)", "true"}).rule('v', {"x", "k", "(+ k y)", "1"});
        add_grammar("define-bool", g, pre + "(define-fun c () Bool (< x 2))(define-fun k () Real (- x 3))(define-fun f ($P) Bool $b)(assert (f $u $v))(assert (f $v $u))" + post);
        add_grammar("define-bool-a", g, pre + "(define-fun c () Bool (< x 2))(define-fun k () Real (- x 3))(define-fun f ($P) Bool $b)(assert (f $u $v))(assert (not (f $u $v)))" + post);
        add_grammar("define-bool-b", g, pre + "(define-fun c () Bool (< x 2))(define-fun k () Real (- x 3))(define-fun f ($P) Bool $b)(assert (f $v $u))(assert (not (f $v $u)))" + post);
    }
    {
        // spellings
        Grammar g;
        g.rule('x', {"x", "|x|"}).rule('f', {"f", "|f|"});
        int k = 0;
        for (std::string z : {"|x y|", "|x  y|", "|(|", "|1|", "|let|", "|a\nb|", "||", "|;|"})
        {
            std::string text = "(set-logic QF_LRA)(declare-const $x Real)(declare-const $z Real)(define-fun $f (($x Real) ($z Real)) Real (- $x $z))(assert (= ($f $x $z) 1))(assert (let (($z 3)) (> $x $z)))" + post;
            for (auto q = text.find("$z"); q != std::string::npos; q = text.find("$z")) { text.replace(q, 2, z); }
            add_grammar("quoted" + std::to_string(k++), g, text);
        }
        Grammar h;
        h.rule('x', {"x", "|x|"}).rule('z', {"|x y|", "|z|", "z", "|1|"});
        add_grammar("quoted-uf", h, "(set-logic QF_UFLRA)(declare-const $x Real)(declare-fun $z (Real) Real)(assert (= ($z $x) 1))(assert (let (($x 3)) (> ($z $x) $x)))" + post);
    }
    {
        // definitions over uninterpreted functions
        Grammar g;
        g.rule('b', {"(f x)", "(f (+ x a))", "(f (f a))", "(- (f a) (f x))", "(let ((a (f a))) (f a))", "(ite (P a) x (f a))"}).rule('v', {"x", "a", "(f x)", "(h x)", "(h (f a))", "1"});
        add_grammar("define-uf", g, "(set-logic QF_UFLRA)(declare-const x Real)(declare-const a Real)(declare-fun f (Real) Real)(declare-fun P (Real) Bool)(define-fun h ((a Real)) Real $b)(assert (= (h $v) (+ 1 $v)))" + post);
        add_grammar("define-uf-x", g, "(set-logic QF_UFLRA)(declare-const x Real)(declare-const a Real)(declare-fun f (Real) Real)(declare-fun P (Real) Bool)(define-fun h ((x Real)) Real $b)(assert (= (h $v) (+ 1 $v)))" + post);
    }
    {
        // scopes after a definition and after errors
        std::vector<std::string> cmds = {"(define-fun f ((x Real)) Real (+ x y))", "(define-fun g ((y Bool) (x Real)) Real (ite y x 1))", "(assert (= (f y) (+ x 1)))", "(assert (let ((x 1) (y x)) (< y x)))",
            "(assert (let ((y u)) (< y x)))", "(assert (= (g p y) 2))", "(assert (< x y))", "(assert (= (let ((x (f x))) x) (let ((y (g p x))) y)))", "(check-sat)"};
        int depth = thorough ? 6 : 5;
        std::uint64_t n = 1;
        for (int i = 0; i < depth; ++i) { n *= cmds.size(); }
        add_scripts("histories", n, [=](std::uint64_t i) {
            std::string s = pre;
            for (int d = 0; d < depth; ++d) { s += cmds[i % cmds.size()] + "\n"; i /= cmds.size(); }
            return s + "(check-sat)\n(get-model)\n";
        });
    }
}

//------------------------------------------------------------------------------------------------ C18

void setup18(bool thorough)
{
    auto hist = [](std::string name, std::string pre, std::vector<std::string> cmds, int depth, std::string post, int opt) {
        std::uint64_t n = 1;
        for (int i = 0; i < depth; ++i) { n *= cmds.size(); }
        add_scripts(name + "/opt" + std::to_string(opt), n, [=](std::uint64_t i) {
            std::string s = pre;
            for (int d = 0; d < depth; ++d) { s += cmds[i % cmds.size()] + "\n"; i /= cmds.size(); }
            return s + post;
        }, opt);
    };
    std::string ck = "(check-sat)\n(get-model)";
    std::string end = "(check-sat)\n(get-model)\n(check-sat)\n";
    std::vector<int> opts = {0, 3, 9};
    if (thorough) { opts = {0, 1, 2, 3, 4, 7, 8, 11}; }
    for (int o : opts)
    {
        hist("lra", "(set-logic QF_LRA)\n(declare-const x Real)\n(declare-const y Real)\n(declare-const p Bool)\n",
             {ck, "(check-sat)", "(assert (< x y))", "(assert (or p (< y 1)))", "(assert (not p))", "(assert (> x 0))", "(assert (= (+ x y) 1))", "(assert (=> p (> x 2)))"}, thorough ? 7 : 5, end, o);
        hist("uf", "(set-logic QF_UFLRA)\n(declare-const x Real)\n(declare-const y Real)\n(declare-fun f (Real) Real)\n",
             {ck, "(assert (= x y))", "(assert (distinct (f x) (f y)))", "(assert (= (f x) y))", "(assert (< (f y) x))", "(assert (or (= x y) (= (f y) 2)))", "(assert (= (f (f x)) x))"}, thorough ? 6 : 5, end, o);
    }
    for (int o : {0, 7})
    {
        hist("bool", "(set-logic QF_LRA)\n(declare-const p Bool)\n(declare-const q Bool)\n(declare-const r Bool)\n",
             {ck, "(assert (or p q))", "(assert (or (not p) q))", "(assert (or p (not q) r))", "(assert (xor p q r))", "(assert (= p (not r)))", "(assert (not (and q r)))", "(assert (ite p q r))"}, thorough ? 7 : 6, end, o);
    }
    // declarations and definitions between checks
    hist("growing", "(set-logic QF_UFLRA)\n(declare-const x Real)\n(assert (< x 0))\n",
         {ck, "(declare-const y Real)\n(assert (< 0 y))", "(define-fun g ((x Real)) Real (+ x 1))\n(assert (> (g x) 0))", "(declare-fun f (Real) Real)\n(assert (= (f x) (f (- x))))\n(check-sat)\n(assert (= (f x) (+ 1 (f (- x)))))",
          "(declare-const q Bool)\n(assert (= q (< x (- 2))))\n(check-sat)\n(get-model)\n(assert q)", "(assert (let ((z (* 2 x))) (= z (- 6))))", "(get-model)", "(assert (or (= x (- 1)) (= x (- 3))))"}, thorough ? 6 : 5, end, 0);
    // definitional variables (conditional terms, named subformulas, Boolean arguments) created by different checks
    hist("definitional", "(set-logic QF_UFLRA)\n(declare-const x Real)\n(declare-const p Bool)\n(declare-fun P (Bool Real) Bool)\n",
         {ck, "(assert (= (ite p x (- x)) 1))", "(assert (< (ite p x (- x)) (ite (< x 0) 2 3)))", "(assert (P p x))", "(assert (not (P (< x 1) x)))", "(assert (P (P p x) (ite p 1 x)))", "(assert (not (P (and p (< x 0)) 1)))"}, thorough ? 6 : 5, end, 0);
    // the last answer and the model
    hist("answers", "", {"(set-logic QF_LRA)\n(declare-const x Real)", "(check-sat)", "(get-model)", "(assert (< x 0))", "(assert (> x 0))", "(set-logic QF_LRA)", "(assert (< x u))", "(exit)"}, thorough ? 7 : 6, "", 0);
}

//------------------------------------------------------------------------------------------------ C23

void setup23(bool thorough)
{
    std::string pre = "(set-logic QF_LRA)\n(declare-const x Real)\n(declare-const y Real)\n";
    std::string post = "\n(check-sat)\n(get-model)\n";
    {
        // every numeral of up to n digits over a digit set, every decimal
        std::vector<std::string> nums;
        std::vector<std::string> digits = {"0", "1", "2", "5", "9"};
        std::function<void(std::string, int, std::vector<std::string>&)> gen = [&](std::string s, int n, std::vector<std::string>& r) {
            if (!s.empty()) { r.push_back(s); }
            if (n == 0) { return; }
            for (auto& d : digits) { gen(s + d, n - 1, r); }
        };
        std::vector<std::string> ints, fracs;
        gen("", thorough ? 4 : 3, ints);
        gen("", thorough ? 4 : 3, fracs);
        for (auto& i : ints)
        {
            if (i.size() > 1 && i[0] == '0') { continue; }
            nums.push_back(i);
            if (i.size() <= 2) { for (auto& f : fracs) { nums.push_back(i + "." + f); } }
        }
        std::vector<std::string> ctx = {"(assert (= x #))", "(assert (= x (- #)))", "(assert (= # (* 3 x)))", "(assert (and (<= x #) (>= x #)))", "(assert (= (+ x #) (* # 2)))", "(assert (and (= y #) (= x (- y #)) (= x 0)))"};
        auto np = std::make_shared<std::vector<std::string>>(nums);
        auto cp = std::make_shared<std::vector<std::string>>(ctx);
        add_scripts("short", np->size() * cp->size(), [=](std::uint64_t i) {
            auto c = (*cp)[i % cp->size()];
            for (auto q = c.find('#'); q != std::string::npos; q = c.find('#')) { c.replace(q, 1, (*np)[i / cp->size()]); }
            return pre + c + post;
        });
    }
    // boundary magnitudes: +-k around powers of two and ten, as numerals, decimals and quotients
    std::vector<std::string> big;
    for (int e : {7, 8, 15, 16, 30, 31, 32, 33, 52, 53, 61, 62, 63, 64, 65, 66, 95, 96, 127, 128, 200})
    {
        mpz_class b;
        mpz_ui_pow_ui(b.get_mpz_t(), 2, e);
        for (int k = -2; k <= 2; ++k) { mpz_class v = b + k; big.push_back(v.get_str()); }
    }
    for (int e : {1, 2, 3, 8, 9, 10, 17, 18, 19, 20, 21, 25, 40, 80})
    {
        mpz_class b;
        mpz_ui_pow_ui(b.get_mpz_t(), 10, e);
        for (int k = -1; k <= 1; ++k) { mpz_class v = b + k; big.push_back(v.get_str()); }
    }
    auto bp = std::make_shared<std::vector<std::string>>(big);
    auto n = big.size();
    auto sub = [](std::string c, std::string const& a, std::string const& b) {
        std::string r;
        for (char ch : c) { if (ch == '#') { r += a; } else if (ch == '@') { r += b; } else { r += ch; } }
        return r;
    };
    std::vector<std::string> one = {"(assert (= x #))", "(assert (= x (- #)))", "(assert (= (* # x) 1))", "(assert (= x #.0))", "(assert (= x 0.#))", "(assert (= x 0.000#))", "(assert (= x #.5))", "(assert (= x #.125))",
        "(assert (= x (/ # 3)))", "(assert (= x (/ 1 #)))", "(assert (= x (/ (- #) 6)))", "(assert (= x #.333333333333333333333))", "(assert (< # x))(assert (< x (+ # 1)))", "(assert (= x (- #.25)))", "(assert (= x (- 0.#)))",
        "(assert (= x (* # #)))", "(assert (= (- x) (/ 0.# 10)))", "(assert (< x #))(assert (> (+ x y) #.5))(assert (< y 1))", "(assert (= x #.000000000000000000000000000))", "(assert (= x #00000000000000000000.5))", "(assert (= x (/ #.5 0.25)))"};
    auto op = std::make_shared<std::vector<std::string>>(one);
    add_scripts("boundary", n * one.size(), [=](std::uint64_t i) { return pre + sub((*op)[i % op->size()], (*bp)[i / op->size()], "") + post; });
    std::vector<std::string> two = {"(assert (= x (+ # @)))", "(assert (= x (- # @)))", "(assert (= x (* # @)))", "(assert (= x (/ # @)))", "(assert (= x (- (/ # @))))", "(assert (= (* # x) @))", "(assert (= (+ (* # x) (* @ y)) 1))(assert (= y 2))",
        "(assert (= x #.@))", "(assert (and (< # (* 3 x)) (< (* 3 x) (+ # (/ 1 @)))))", "(assert (= (/ # @) 1))", "(assert (< (/ # @) (/ (+ # 1) (+ @ 1))))", "(assert (= x (- #.@)))", "(assert (and (>= (- x y) #) (<= x @) (>= y (- @))))", "(assert (= x (+ (/ 1 #) (/ 1 @))))"};
    auto tp = std::make_shared<std::vector<std::string>>(two);
    add_scripts("boundary-pairs", n * n * (thorough ? two.size() : 4), [=](std::uint64_t i) {
        // quick: every pair with 4 of the forms, the choice rotating with the pair
        if (config().thorough()) { auto f = i % two.size(); i /= two.size(); return pre + sub((*tp)[f], (*bp)[i % n], (*bp)[i / n]) + post; }
        auto f = i % 4;
        i /= 4;
        f = (f * 4 + (i % n + i / n)) % two.size();
        return pre + sub((*tp)[f], (*bp)[i % n], (*bp)[i / n]) + post;
    });
    {
        // values inside function models and long digit strings
        std::vector<std::string> longs;
        for (int len : {18, 19, 20, 21, 37, 38, 39, 40, 64, 100, 300})
        {
            for (auto* pat : {"9", "1", "10", "12345678907", "4999999"})
            {
                std::string s;
                while ((int)s.size() < len) { s += pat; }
                longs.push_back(s.substr(0, len));
            }
        }
        auto lp = std::make_shared<std::vector<std::string>>(longs);
        std::vector<std::string> forms = {"(assert (= x #))", "(assert (= x 0.#))", "(assert (= x #.#))", "(assert (= (f #) 1))(assert (= (f (+ # 1)) 2))(assert (= x (f 3)))", "(assert (= (f 0.#) #))(assert (= (f x) (- #)))", "(assert (= (f (- 0.#)) (/ 1 #)))", "(assert (distinct (f x) (f 0.#)))(assert (= x 0.#1))",
            "(assert (= (f x) x))(assert (= x (/ # 7)))", "(assert (< (f 0) #.#))(assert (> (f 0) (- #.# (/ 1 #))))"};
        auto fp = std::make_shared<std::vector<std::string>>(forms);
        add_scripts("long", longs.size() * forms.size(), [=](std::uint64_t i) {
            return "(set-logic QF_UFLRA)\n(declare-const x Real)\n(declare-fun f (Real) Real)\n" + sub((*fp)[i % fp->size()], (*lp)[i / fp->size()], "") + post;
        });
    }
}

//------------------------------------------------------------------------------------------------ C15 (scripts)

void setup15(bool thorough)
{
    std::string pre = "(set-logic QF_UFLRA)\n(declare-const x Real)\n(declare-const y Real)\n(declare-const p Bool)\n(declare-const q Bool)\n(declare-fun f (Real) Real)\n";
    std::string post = "\n(check-sat)\n(get-model)\n";
    {
        Grammar g;
        g.rule('b', {"p", "q", "true", "false", "(not p)", "(< x 0)", "(= x y)"}).rule('o', {"and", "or", "xor", "=>", "=", "distinct"});
        add_grammar("nary-bool", g, pre + "(assert ($o $b $b $b))" + post);
        add_grammar("nary-bool-neg", g, pre + "(assert (not ($o $b $b $b)))" + post);
        g.rule('c', {"p", "q", "(not q)", "true"});
        add_grammar("nested-bool", g, pre + "(assert ($o ($o $c $c) ($o $c $c)))" + post);
        add_grammar("ite-bool", g, pre + "(assert (ite ($o $c $c) ($o $c p) (not $b)))" + post);
        if (thorough) { add_grammar("nary4-bool", g, pre + "(assert ($o $b $b $b $c))" + post); add_grammar("nested3-bool", g, pre + "(assert ($o ($o $c $c) ($o $c $c) ($o $c p)))" + post); }
    }
    {
        Grammar g;
        g.rule('t', {"x", "y", "0", "1", "(- 1)", "(* 2 x)", "(- x)", "(f x)"}).rule('o', {"=", "<", "<=", ">", ">=", "distinct"}).rule('a', {"+", "-"});
        add_grammar("chain", g, pre + "(assert ($o $t $t $t))" + post);
        add_grammar("chain-neg", g, pre + "(assert (not ($o $t $t $t)))" + post);
        add_grammar("sums", g, pre + "(assert ($o ($a $t $t) ($a $t $t)))" + post);
        g.rule('s', {"x", "(- y)", "2", "(f y)"}).rule('C', {"p", "(< x y)", "true", "(= x 1)"});
        add_grammar("ite-arith", g, pre + "(assert ($o (ite $C $s $s) (ite $C $s $s)))" + post);
        add_grammar("ite-sum", g, pre + "(assert ($o ($a (ite $C $s $s) $t) $s))" + post);
        add_grammar("ite-nested", g, pre + "(assert ($o (ite $C (ite $C $s $s) x) (* 2 $s)))" + post);
        if (thorough) { add_grammar("chain4", g, pre + "(assert ($o $t $t $t $t))" + post); add_grammar("sums3", g, pre + "(assert ($o ($a $t $t $t) ($a $t $s)))" + post); }
    }
    {
        Grammar g;
        g.rule('k', {"0", "1", "2", "(- 3)", "0.5", "(/ 1 3)", "(/ (- 2) 4)", "(+ 1 1)", "(* 2 0.5)", "(- 1 1)"}).rule('v', {"x", "y", "(+ x y)", "(- x 1)", "(f x)", "(ite p x y)"}).rule('o', {"=", "<", ">="});
        add_grammar("scaled", g, pre + "(assert ($o (* $k $v) (* $v $k)))" + post);
        add_grammar("scaled3", g, pre + "(assert ($o (* $k $v 2) (+ $v $k)))" + post);
        g.rule('d', {"1", "2", "(- 3)", "0.5", "(/ 1 3)", "(+ 1 1)"});
        add_grammar("divided", g, pre + "(assert ($o (/ $v $d) (- $v $k)))" + post);
        add_grammar("divided2", g, pre + "(assert ($o (/ $v $d $d) (* $k $v)))" + post);
    }
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    if (c.property == "C15") { setup15(t); }
    else if (c.property == "C16") { setup16(t); }
    else if (c.property == "C17") { setup17(t); }
    else if (c.property == "C18") { setup18(t); }
    else if (c.property == "C23") { setup23(t); }
    else if (c.property == "C25") { setup15(false); setup16(false); setup17(false); setup18(false); setup23(false); }
}
