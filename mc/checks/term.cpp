// C15: term construction and simplification, against a pointwise evaluation of the formula as written.
#include "Term_manager.h"
#include "runner.h"
#include <array>
#include <memory>
#include <sstream>
#include <unordered_map>

using namespace mc;
using namespace yaga;
using namespace yaga::terms;

namespace {

// small exact fraction
struct Fr {
    __int128 n = 0, d = 1;
    Fr() = default;
    Fr(__int128 a, __int128 b = 1) : n(a), d(b)
    {
        if (d < 0) { n = -n; d = -d; }
        __int128 x = n < 0 ? -n : n, y = d;
        while (y) { auto t = x % y; x = y; y = t; }
        if (x > 1) { n /= x; d /= x; }
    }
    Fr operator+(Fr o) const { return {n * o.d + o.n * d, d * o.d}; }
    Fr operator-(Fr o) const { return {n * o.d - o.n * d, d * o.d}; }
    Fr operator*(Fr o) const { return {n * o.n, d * o.d}; }
    Fr operator/(Fr o) const { return {n * o.d, d * o.n}; }
    bool operator==(Fr o) const { return n == o.n && d == o.d; }
    bool operator<(Fr o) const { return n * o.d < o.n * d; }
};

constexpr int P = 32;
using Reals = std::array<Fr, P>;
struct Val {
    bool is_bool = true;
    std::uint32_t b = 0;
    Reals r{};
    bool operator==(Val const& o) const { return is_bool == o.is_bool && (is_bool ? b == o.b : r == o.r); }
};

// the points: p = bit 0, q = bit 1, (x, y) = bits 2..4
Fr xs(int i) { static int const v[8] = {0, 1, -1, 2, 0, 3, -6, 1}; return {v[i >> 2]}; }
Fr ys(int i) { static int const v[8] = {0, 1, 2, -1, 3, 0, 6, -3}; return {v[i >> 2]}; }
Fr fn(Fr a) { return a * a - Fr(1) + a / Fr(2); }                     // f: Real -> Real
Fr fn2(Fr a, Fr b) { return a * Fr(3) - b * b; }                      // g: Real Real -> Real
bool pr(Fr a, bool b) { return b ? Fr(0) < a : a < Fr(1); }           // R: Real Bool -> Bool

struct Env {
    Term_manager tm;
    term_t p, q, x, y, f, g, R;
    std::unordered_map<std::int32_t, std::shared_ptr<Val>> memo; // by index of positive term
    Env()
    {
        p = tm.mk_uninterpreted_constant(types::bool_type);
        q = tm.mk_uninterpreted_constant(types::bool_type);
        x = tm.mk_uninterpreted_constant(types::real_type);
        y = tm.mk_uninterpreted_constant(types::real_type);
        f = tm.mk_uninterpreted_constant(types::real_type);
        g = tm.mk_uninterpreted_constant(types::real_type);
        R = tm.mk_uninterpreted_constant(types::bool_type);
    }
    static Fr num(Rational const& r)
    {
        auto s = r.get_str();
        auto k = s.find('/');
        return {std::stoll(s.substr(0, k)), k == std::string::npos ? 1 : std::stoll(s.substr(k + 1))};
    }
    // value of a term by its structure
    Val eval(term_t t)
    {
        auto pos = tm.positive_term(t);
        auto& m = memo[tm.index_of(t)];
        if (!m) { m = std::make_shared<Val>(structure(pos)); }
        Val v = *m;
        if (tm.is_negated(t)) { v.b = ~v.b; }
        return v;
    }
    Val structure(term_t t)
    {
        Val v;
        v.is_bool = tm.get_type(t) == types::bool_type;
        auto reals = [&](auto f) { for (int i = 0; i < P; ++i) { v.r[i] = f(i); } };
        auto bools = [&](auto f) { for (int i = 0; i < P; ++i) { v.b |= std::uint32_t(bool(f(i))) << i; } };
        if (t == true_term) { v.b = ~0u; return v; }
        if (t == p) { bools([](int i) { return i & 1; }); return v; }
        if (t == q) { bools([](int i) { return i & 2; }); return v; }
        if (t == x) { reals(xs); return v; }
        if (t == y) { reals(ys); return v; }
        switch (tm.get_kind(t))
        {
        case Kind::ARITH_CONSTANT: { auto c = num(tm.arithmetic_constant_value(t)); reals([&](int) { return c; }); return v; }
        case Kind::ITE_TERM: {
            auto a = tm.get_args(t);
            auto c = eval(a[0]), th = eval(a[1]), el = eval(a[2]);
            if (v.is_bool) { v.b = (c.b & th.b) | (~c.b & el.b); }
            else { reals([&](int i) { return c.b >> i & 1 ? th.r[i] : el.r[i]; }); }
            return v;
        }
        case Kind::APP_TERM: {
            auto s = tm.get_fnc_symbol(t);
            auto a = tm.get_args(t);
            std::vector<term_t> args(a.begin(), a.end());
            if (!args.empty() && args[0] == s) { args.erase(args.begin()); }
            if (s == f && args.size() == 1) { auto u = eval(args[0]); reals([&](int i) { return fn(u.r[i]); }); return v; }
            if (s == g && args.size() == 2) { auto u = eval(args[0]), w = eval(args[1]); reals([&](int i) { return fn2(u.r[i], w.r[i]); }); return v; }
            if (s == R && args.size() == 2) { auto u = eval(args[0]), w = eval(args[1]); bools([&](int i) { return pr(u.r[i], w.b >> i & 1); }); return v; }
            fail("application with an unexpected symbol or number of arguments");
        }
        case Kind::OR_TERM: { for (auto a : tm.get_args(t)) { v.b |= eval(a).b; } return v; }
        case Kind::XOR_TERM: { for (auto a : tm.get_args(t)) { v.b ^= eval(a).b; } return v; }
        case Kind::EQ_TERM: { auto a = tm.get_args(t); auto l = eval(a[0]), r = eval(a[1]); if (l.is_bool) { v.b = ~(l.b ^ r.b); } else { bools([&](int i) { return l.r[i] == r.r[i]; }); } return v; }
        case Kind::ARITH_BINEQ_ATOM: { auto a = tm.get_args(t); auto l = eval(a[0]), r = eval(a[1]); bools([&](int i) { return l.r[i] == r.r[i]; }); return v; }
        case Kind::ARITH_EQ_ATOM: { auto l = eval(tm.get_args(t)[0]); bools([&](int i) { return l.r[i] == Fr(0); }); return v; }
        case Kind::ARITH_GE_ATOM: { auto l = eval(tm.get_args(t)[0]); bools([&](int i) { return !(l.r[i] < Fr(0)); }); return v; }
        case Kind::ARITH_PRODUCT: { auto c = num(tm.coeff_of_product(t)); auto u = eval(tm.var_of_product(t)); reals([&](int i) { return c * u.r[i]; }); return v; }
        case Kind::ARITH_POLY: { for (auto a : tm.get_args(t)) { auto u = eval(a); reals([&](int i) { return v.r[i] + u.r[i]; }); } return v; }
        default: fail("term of unexpected kind " + std::to_string(static_cast<int>(tm.get_kind(t))));
        }
    }
};

struct Expr {
    std::string text;
    term_t t;
    Val v;
    bool is_bool() const { return v.is_bool; }
    bool constant = false; // syntactically a constant
};

struct Builder {
    Env e;
    std::vector<std::string> path;

    Expr leaf(std::string s, term_t t, bool constant)
    {
        Expr x;
        x.text = s;
        x.t = t;
        x.v = e.eval(t);
        x.constant = constant;
        return x;
    }
    std::vector<Expr> leaves(bool wide)
    {
        std::vector<Expr> l;
        l.push_back(leaf("p", e.p, false));
        l.push_back(leaf("q", e.q, false));
        l.push_back(leaf("true", true_term, true));
        l.push_back(leaf("false", false_term, true));
        l.push_back(leaf("x", e.x, false));
        l.push_back(leaf("y", e.y, false));
        l.push_back(leaf("0", e.tm.mk_integer_constant("0"), true));
        l.push_back(leaf("1", e.tm.mk_integer_constant("1"), true));
        l.push_back(leaf("-1", e.tm.mk_integer_constant("-1"), true));
        l.push_back(leaf("2", e.tm.mk_rational_constant("2.0"), true));
        if (wide) { l.push_back(leaf("0.5", e.tm.mk_rational_constant("0.5"), true)); }
        for (std::size_t i = 4; i < l.size(); ++i) { if (l[i].is_bool()) { fail(l[i].text + " has sort Bool"); } }
        return l;
    }

    // is this application well-formed (and linear)?
    static bool valid(std::string const& op, std::vector<Expr const*> const& a)
    {
        auto all = [&](bool b) { for (auto x : a) { if (x->is_bool() != b) { return false; } } return true; };
        auto n = a.size();
        if (op == "not") { return n == 1 && all(true); }
        if (op == "and" || op == "or") { return n >= 1 && all(true); }
        if (op == "=>" || op == "xor") { return n >= 2 && all(true); }
        if (op == "=" || op == "distinct") { return n >= 2 && (all(true) || all(false)); }
        if (op == "ite") { return n == 3 && a[0]->is_bool() && a[1]->is_bool() == a[2]->is_bool(); }
        if (op == "f") { return n == 1 && all(false); }
        if (op == "g") { return n == 2 && all(false); }
        if (op == "R") { return n == 2 && !a[0]->is_bool() && a[1]->is_bool(); }
        if (!all(false)) { return false; }
        if (op == "-") { return n >= 1; }
        if (op == "+") { return n >= 1; }
        if (op == "*") { int non = 0; for (auto x : a) { non += !x->constant; } return n >= 2 && non <= 1; }
        if (op == "/") { if (n < 2) { return false; } for (std::size_t i = 1; i < n; ++i) { if (!a[i]->constant || a[i]->v.r[0] == Fr(0)) { return false; } } return true; }
        return n >= 2; // comparisons
    }
    static Val value(std::string const& op, std::vector<Expr const*> const& a)
    {
        Val v;
        auto n = a.size();
        auto reals = [&](auto f) { v.is_bool = false; for (int i = 0; i < P; ++i) { v.r[i] = f(i); } };
        auto chain = [&](auto rel) {
            v.b = ~0u;
            for (std::size_t k = 0; k + 1 < n; ++k) { for (int i = 0; i < P; ++i) { if (!rel(a[k]->v.r[i], a[k + 1]->v.r[i])) { v.b &= ~(1u << i); } } }
        };
        if (op == "not") { v.b = ~a[0]->v.b; }
        else if (op == "and") { v.b = ~0u; for (auto x : a) { v.b &= x->v.b; } }
        else if (op == "or") { for (auto x : a) { v.b |= x->v.b; } }
        else if (op == "=>") { v.b = a[n - 1]->v.b; for (std::size_t k = n - 1; k-- > 0;) { v.b = ~a[k]->v.b | v.b; } }
        else if (op == "xor") { for (auto x : a) { v.b ^= x->v.b; } }
        else if (op == "=" && a[0]->is_bool()) { v.b = ~0u; for (std::size_t k = 0; k + 1 < n; ++k) { v.b &= ~(a[k]->v.b ^ a[k + 1]->v.b); } }
        else if (op == "=") { chain([](Fr l, Fr r) { return l == r; }); }
        else if (op == "distinct")
        {
            v.b = ~0u;
            for (std::size_t k = 0; k < n; ++k)
            {
                for (std::size_t m = k + 1; m < n; ++m)
                {
                    if (a[0]->is_bool()) { v.b &= a[k]->v.b ^ a[m]->v.b; }
                    else { for (int i = 0; i < P; ++i) { if (a[k]->v.r[i] == a[m]->v.r[i]) { v.b &= ~(1u << i); } } }
                }
            }
        }
        else if (op == "ite")
        {
            auto c = a[0]->v.b;
            if (a[1]->is_bool()) { v.b = (c & a[1]->v.b) | (~c & a[2]->v.b); }
            else { reals([&](int i) { return c >> i & 1 ? a[1]->v.r[i] : a[2]->v.r[i]; }); }
        }
        else if (op == "<") { chain([](Fr l, Fr r) { return l < r; }); }
        else if (op == ">") { chain([](Fr l, Fr r) { return r < l; }); }
        else if (op == "<=") { chain([](Fr l, Fr r) { return !(r < l); }); }
        else if (op == ">=") { chain([](Fr l, Fr r) { return !(l < r); }); }
        else if (op == "-" && n == 1) { reals([&](int i) { return Fr(0) - a[0]->v.r[i]; }); }
        else if (op == "f") { reals([&](int i) { return fn(a[0]->v.r[i]); }); }
        else if (op == "g") { reals([&](int i) { return fn2(a[0]->v.r[i], a[1]->v.r[i]); }); }
        else if (op == "R") { for (int i = 0; i < P; ++i) { v.b |= std::uint32_t(pr(a[0]->v.r[i], a[1]->v.b >> i & 1)) << i; } }
        else
        {
            reals([&](int i) {
                Fr r = a[0]->v.r[i];
                for (std::size_t k = 1; k < n; ++k)
                {
                    Fr s = a[k]->v.r[i];
                    r = op == "+" ? r + s : op == "-" ? r - s : op == "*" ? r * s : r / s;
                }
                return r;
            });
        }
        return v;
    }
    term_t construct(std::string const& op, std::vector<Expr const*> const& a)
    {
        std::vector<term_t> args;
        if (op == "f" || op == "g" || op == "R") { args.push_back(op == "f" ? e.f : op == "g" ? e.g : e.R); }
        bool app = !args.empty();
        for (auto x : a) { args.push_back(x->t); }
        return app ? e.tm.mk_app(args) : e.tm.mk_term(op, args, true);
    }
    // direct constructors of the class
    std::optional<term_t> direct(std::string const& op, std::vector<Expr const*> const& a)
    {
        auto& m = e.tm;
        auto t = [&](int i) { return a[i]->t; };
        if (a.size() == 3 && op == "ite") { return m.mk_ite(t(0), t(1), t(2)); }
        if (a.size() == 1 && op == "-") { return m.mk_unary_minus(t(0)); }
        if (a.size() != 2) { return {}; }
        if (op == "or") { return m.mk_binary_or(t(0), t(1)); }
        if (op == "and") { return m.mk_binary_and(t(0), t(1)); }
        if (op == "=>") { return m.mk_implies(t(0), t(1)); }
        if (op == "xor") { return m.mk_xor(t(0), t(1)); }
        if (op == "=") { return a[0]->is_bool() ? m.mk_iff(t(0), t(1)) : m.mk_arithmetic_eq(t(0), t(1)); }
        if (op == "<") { return m.mk_arithmetic_lt(t(0), t(1)); }
        if (op == "<=") { return m.mk_arithmetic_leq(t(0), t(1)); }
        if (op == ">") { return m.mk_arithmetic_gt(t(0), t(1)); }
        if (op == ">=") { return m.mk_arithmetic_geq(t(0), t(1)); }
        if (op == "-") { return m.mk_arithmetic_minus(t(0), t(1)); }
        if (op == "/") { return m.mk_divides(t(0), t(1)); }
        return {};
    }
    static std::string text(std::string const& op, std::vector<Expr const*> const& a)
    {
        std::string s = "(" + op;
        for (auto x : a) { s += " " + x->text; }
        return s + ")";
    }
    void judge(std::string const& op, std::vector<Expr const*> const& a, term_t t, Val const& want, char const* how)
    {
        bool b = e.tm.get_type(t) == types::bool_type;
        if (b != want.is_bool) { fail(text(op, a) + how + ": the term has sort " + (b ? "Bool" : "Real")); }
        auto got = e.eval(t);
        if (got == want) { return; }
        for (int i = 0; i < P; ++i)
        {
            if (want.is_bool ? (want.b >> i & 1) != (got.b >> i & 1) : !(want.r[i] == got.r[i]))
            {
                std::ostringstream s;
                s << text(op, a) << how << ": the term built has another value for p=" << (i & 1) << " q=" << (i >> 1 & 1) << " x=" << (long)xs(i).n << " y=" << (long)ys(i).n
                  << " (kind " << static_cast<int>(e.tm.get_kind(t)) << ")";
                fail(s.str());
            }
        }
    }
    // build, judge, return
    Expr make(std::string const& op, std::vector<Expr const*> const& a, bool twice)
    {
        Expr x;
        x.v = value(op, a);
        x.t = construct(op, a);
        transitions();
        judge(op, a, x.t, x.v, "");
        if (auto d = direct(op, a)) { judge(op, a, *d, x.v, " (direct constructor)"); }
        if (twice && construct(op, a) != x.t) { fail(text(op, a) + ": building the term again gives a different term"); }
        x.constant = true;
        for (auto y : a) { x.constant &= y->constant; }
        if (op == "f" || op == "g" || op == "R") { x.constant = false; }
        return x;
    }
    std::vector<Expr> next(std::vector<Expr> const& l, std::vector<std::string> const& ops, int max_arity)
    {
        std::vector<Expr> r;
        std::vector<Expr const*> args;
        auto rec = [&](auto&& self, std::string const& op) -> void {
            if (!args.empty() && valid(op, args))
            {
                r.push_back(make(op, args, true));
                r.back().text = text(op, args);
            }
            if (static_cast<int>(args.size()) == max_arity) { return; }
            for (auto& e : l) { args.push_back(&e); self(self, op); args.pop_back(); }
        };
        for (auto& op : ops) { rec(rec, op); }
        return r;
    }
};

std::vector<std::string> const all_ops{"not", "and", "or", "=>", "xor", "=", "distinct", "ite", "<", "<=", ">", ">=", "+", "-", "*", "/", "f", "g", "R"};

// expressions of depth 1, one per item block: first argument fixed, every second argument, every operator
void level2(std::string name, std::vector<std::string> ops1, int arity1, bool wide, std::vector<std::string> ops2, int block)
{
    // count the depth-1 expressions once
    Builder b;
    auto l = b.leaves(wide);
    std::size_t n = b.next(l, ops1, arity1).size() + l.size();
    auto nb = (n + block - 1) / block;
    auto level = [=](Builder& b) {
        auto l = b.leaves(wide);
        auto m = b.next(l, ops1, arity1);
        l.insert(l.end(), m.begin(), m.end());
        return l;
    };
    add({name, nb, [=](std::uint64_t item) {
             Builder b;
             auto l = level(b);
             for (std::size_t i = item * block; i < std::min<std::size_t>(n, (item + 1) * block); ++i)
             {
                 for (auto& op : ops2)
                 {
                     if (Builder::valid(op, {&l[i]})) { b.make(op, {&l[i]}, true); }
                     for (auto& second : l)
                     {
                         if (Builder::valid(op, {&l[i], &second})) { b.make(op, {&l[i], &second}, true); }
                     }
                 }
                 state(mix(hash(name), i));
                 traces();
             }
         },
         [=](std::uint64_t item) { Builder b; auto l = level(b); return "first argument " + l[item * block].text + " and the following " + std::to_string(block - 1) + " expressions, every operator and second argument"; }, 60});
}

// depth 3: (op3 (op2 a b) leaf) and (op3 leaf (op2 a b)), a and b of depth 1
void level3(std::string name, std::vector<std::string> ops1, std::vector<std::string> ops2, std::vector<std::string> ops3)
{
    auto level = [=](Builder& b) {
        auto l = b.leaves(false);
        auto m = b.next(l, ops1, 2);
        l.insert(l.end(), m.begin(), m.end());
        return l;
    };
    Builder b;
    std::size_t n = level(b).size();
    add({name, n, [=](std::uint64_t i) {
             Builder b;
             auto l = level(b);
             for (auto& e : l)
             {
                 for (auto& op : ops2)
                 {
                     if (!Builder::valid(op, {&l[i], &e})) { continue; }
                     auto x = b.make(op, {&l[i], &e}, true);
                     x.text = Builder::text(op, {&l[i], &e});
                     for (std::size_t k = 0; k < 10; ++k)
                     {
                         for (auto& o : ops3)
                         {
                             if (Builder::valid(o, {&x, &l[k]})) { b.make(o, {&x, &l[k]}, false); }
                             if (Builder::valid(o, {&l[k], &x})) { b.make(o, {&l[k], &x}, false); }
                         }
                     }
                 }
             }
             traces();
             state(mix(hash(name), i));
         },
         [=](std::uint64_t i) { Builder b; return "terms of depth 3 above " + level(b)[i].text; }, 120});
}

// conditional terms over pairs of depth-1 expressions, and a comparison above them
void ites(std::string name, bool wide, bool deep)
{
    Builder b;
    auto conds = [](Builder& b, std::vector<Expr> const& l) {
        std::vector<Expr> c(l.begin(), l.begin() + 2);
        auto add = [&](std::string op, std::vector<Expr const*> a) { auto e = b.make(op, a, true); e.text = Builder::text(op, a); c.push_back(e); };
        add("not", {&l[0]});
        add("<", {&l[4], &l[5]});
        add("=", {&l[4], &l[7]});
        add(">=", {&l[4], &l[5]});
        return c;
    };
    auto level = [=](Builder& b) { auto l = b.leaves(wide); auto m = b.next(l, {"+", "-", "*", "not", "or", "and", "=>", "f", "<", ">="}, 2); l.insert(l.end(), m.begin(), m.end()); return l; };
    std::size_t n = level(b).size();
    add({name, n, [=](std::uint64_t i) {
             Builder b;
             auto l = level(b);
             auto cs = conds(b, l);
             for (auto& c : cs)
             {
                 for (auto& e : l)
                 {
                     if (l[i].is_bool() != e.is_bool()) { continue; }
                     auto x = b.make("ite", {&c, &l[i], &e}, true);
                     x.text = Builder::text("ite", {&c, &l[i], &e});
                     if (!x.is_bool())
                     {
                         for (std::size_t k = 4; k < 8; ++k)
                         {
                             for (auto op : {"=", "<", "+", "-", ">="}) { b.make(op, {&x, &l[k]}, true); b.make(op, {&l[k], &x}, true); }
                         }
                         b.make("-", {&x}, true);
                         b.make("*", {&l[9], &x}, true);
                     }
                     else { for (std::size_t k = 0; k < 4; ++k) { for (auto op : {"and", "or", "xor", "="}) { b.make(op, {&x, &l[k]}, true); } } }
                     if (deep) { for (auto& c2 : cs) { b.make("ite", {&c2, &x, &l[i]}, true); b.make("ite", {&c2, &e, &x}, true); } }
                 }
             }
             traces();
             state(mix(hash(name), i));
         },
         [=](std::uint64_t i) { Builder b; return "if-then-else terms with then-branch " + level(b)[i].text; }, 60});
}

// n-ary operators over a small set of expressions, all argument tuples
void nary(std::string name, int arity)
{
    auto level = [](Builder& b) {
        auto l = b.leaves(false);
        auto add = [&](std::string op, std::vector<Expr const*> a) { auto e = b.make(op, a, true); e.text = Builder::text(op, a); return e; };
        std::vector<Expr> m{l[0], l[1], l[2], l[3]};
        m.push_back(add("not", {&l[0]}));
        m.push_back(add("or", {&l[0], &l[1]}));
        m.push_back(add("not", {&m[5]}));
        m.push_back(add("<", {&l[4], &l[5]}));
        m.push_back(add(">=", {&l[4], &l[5]}));
        for (int i = 4; i < 9; ++i) { m.push_back(l[i]); }
        m.push_back(add("+", {&l[4], &l[5]}));
        m.push_back(add("-", {&l[4]}));
        m.push_back(add("*", {&l[9], &l[5]}));
        m.push_back(add("f", {&l[4]}));
        return m;
    };
    Builder b;
    std::size_t n = level(b).size();
    std::uint64_t size = n;
    add({name, size * n, [=](std::uint64_t i) {
             Builder b;
             auto l = level(b);
             std::vector<Expr const*> a{&l[i % n], &l[i / n]};
             auto rec = [&](auto&& self) -> void {
                 if (a.size() >= 3) { for (auto& op : all_ops) { if (Builder::valid(op, a)) { b.make(op, a, true); } } }
                 if (static_cast<int>(a.size()) == arity) { return; }
                 for (auto& e : l) { if (a.size() >= 2 && e.is_bool() != a[1]->is_bool()) { continue; } a.push_back(&e); self(self); a.pop_back(); }
             };
             rec(rec);
             traces();
             state(mix(hash(name), i));
         },
         [=](std::uint64_t i) { Builder b; auto l = level(b); return "operators with arguments " + l[i % n].text + " " + l[i / n].text + " and every continuation up to " + std::to_string(arity) + " arguments"; }, 60});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    level2("depth2", all_ops, 2, false, all_ops, 2);
    level2("depth2-boolean3", {"not", "and", "or", "xor", "=>", "=", "ite"}, 3, false, {"not", "and", "or", "=>", "xor", "=", "R"}, 2);
    level2("depth2-wide", all_ops, 2, true, all_ops, 2);
    level2("depth2-ternary", {"+", "-", "*", "/", "ite", "<", "=", "distinct"}, 3, false, {"+", "-", "=", "<", ">=", "and"}, 2);
    level3("depth3-linear", {"+", "-", "*"}, {"+", "-"}, {"+", "-", "=", "<", ">="});
    level3("depth3-boolean", {"not", "and", "or", "xor"}, {"and", "or", "=>", "="}, {"and", "or", "xor", "=", "=>"});
    if (t)
    {
        level3("depth3-arithmetic", {"+", "-", "*", "/", "f"}, {"+", "-", "*", "g"}, {"+", "-", "*", "=", "<", ">=", "distinct"});
        level3("depth3-all", {"not", "and", "or", "=", "<", "+", "-", "*", "R"}, {"and", "or", "=>", "=", "<", "+", "-", "distinct"}, {"and", "or", "xor", "=", "=>", "+", "<", ">="});
    }
    ites("ite", t, t);
    nary("nary", t ? 6 : 5);
}
