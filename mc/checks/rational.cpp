// C13: exactness of the rational number class, against GMP's mpq.
#include <gmpxx.h>
#include <memory>
#include <set>
#include <sstream>
#include "Rational.h"
#include "Long_fraction.h"
#include "runner.h"

using namespace mc;
using yaga::Rational;

static std::string str(mpq_class const& q) { return q.get_str(); }

// everything observable about r must match q
static void same(Rational const& r, mpq_class const& q, std::string const& what, bool deep)
{
    transitions();
    auto bad = [&](std::string const& w) { fail(what + ": " + w + ", exact value " + str(q) + ", got " + r.get_str()); };
    if (r.get_str() != str(q)) { bad("wrong value"); }
    if (r.sign() != sgn(q)) { bad("wrong sign " + std::to_string(r.sign())); }
    if (!deep) { return; }
    Rational fresh(str(q).c_str());
    if (!(r == fresh) || r != fresh || !(fresh == r) || r < fresh || r > fresh || !(r <= fresh) || !(r >= fresh)) { bad("differs from the same number read from text"); }
    if (std::hash<Rational>{}(r) != std::hash<Rational>{}(fresh)) { bad("hash differs from the hash of the same number read from text"); }
    if (r.isInteger() != (q.get_den() == 1)) { bad("isInteger"); }
    if (r.isZero() != (q == 0)) { bad("isZero"); }
    if (r.isOne() != (q == 1)) { bad("isOne"); }
    if (r.get_num().get_str() != q.get_num().get_str() || r.numerator().get_str() != q.get_num().get_str()) { bad("numerator " + r.get_num().get_str()); }
    if (r.get_den().get_str() != q.get_den().get_str() || r.denominator().get_str() != q.get_den().get_str()) { bad("denominator " + r.get_den().get_str()); }
    mpz_class f, c;
    mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    mpz_cdiv_q(c.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    if (r.floor().get_str() != f.get_str()) { bad("floor " + r.floor().get_str()); }
    if (r.ceil().get_str() != c.get_str()) { bad("ceil " + r.ceil().get_str()); }
    // printed form: SMT-LIB text
    std::ostringstream os;
    os << r;
    std::string n = mpz_class(abs(q.get_num())).get_str(), d = q.get_den().get_str();
    if (q < 0) { n = "(- " + n + ")"; }
    std::string longform = "(/ " + n + " " + d + ")";
    if (os.str() != longform && !(d == "1" && os.str() == n)) { bad("printed as " + os.str()); }
    {
        auto t = fresh;
        std::ostringstream o2;
        o2 << t;
        if (o2.str() != os.str()) { bad("printed as " + os.str() + " but the same number read from text as " + o2.str()); }
    }
    if (r.get_str() != str(q)) { bad("queries changed the value"); }
}

// representations of one value
enum { FRESH, BOTH, MEMORY, COMPUTED, REPS };
static Rational rep(mpq_class const& q, int kind)
{
    static Rational const huge("123456789012345678901234567890/7");
    Rational r(str(q).c_str());
    switch (kind)
    {
    case FRESH: return r;
    case BOTH: { // word and big part valid if the value fits a word
        bool b = r < huge;
        (void)b;
        return r; // NRVO or move keeps the representation
    }
    case MEMORY: { // big memory allocated, word valid
        Rational m(huge);
        m = Rational(r);
        Rational t("340282366920938463463374607431768211456/3");
        t = static_cast<Rational const&>(r);
        return t;
    }
    default: { // result of an overflowing computation
        Rational t(huge);
        t += r;
        t -= huge;
        return t;
    }
    }
}

static std::vector<mpq_class> make_values(std::vector<std::string> nums, std::vector<std::string> dens)
{
    std::vector<mpq_class> res;
    std::set<std::string> seen;
    for (auto& n : nums)
    {
        for (auto& d : dens)
        {
            for (int s : {1, -1})
            {
                mpq_class q(mpz_class(n) * s, mpz_class(d));
                q.canonicalize();
                if (seen.insert(str(q)).second) { res.push_back(q); }
            }
        }
    }
    return res;
}

static std::vector<std::string> around(std::vector<std::string> bases, int radius)
{
    std::set<std::string> s;
    for (auto& b : bases)
    {
        for (int i = -radius; i <= radius; ++i)
        {
            mpz_class z(b);
            z += i;
            if (z >= 0) { s.insert(z.get_str()); }
        }
    }
    return {s.begin(), s.end()};
}

static std::vector<std::string> positive(std::vector<std::string> v)
{
    std::vector<std::string> r;
    for (auto& x : v) { if (x != "0") { r.push_back(x); } }
    return r;
}

static void binary(mpq_class const& p, mpq_class const& q, int ra, int rb, bool deep)
{
    std::string ab = "a=" + str(p) + " (representation " + std::to_string(ra) + "), b=" + str(q) + " (representation " + std::to_string(rb) + "): ";
    for (int op = 0; op < 4; ++op)
    {
        if (op == 3 && q == 0) { continue; }
        mpq_class e = op == 0 ? mpq_class(p + q) : op == 1 ? mpq_class(p - q) : op == 2 ? mpq_class(p * q) : mpq_class(p / q);
        static char const* const names[] = {"a+b", "a-b", "a*b", "a/b"};
        auto a = rep(p, ra), b = rep(q, rb);
        auto const r = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
        same(r, e, ab + names[op], deep);
        auto& t = op == 0 ? a += b : op == 1 ? a -= b : op == 2 ? a *= b : a /= b;
        same(t, e, ab + names[op] + " in place", deep);
        if (b.get_str() != str(q)) { fail(ab + names[op] + " changed its right operand to " + b.get_str()); }
    }
    auto a = rep(p, ra), b = rep(q, rb);
    int c = cmp(p, q);
    if ((a < b) != (c < 0) || (a <= b) != (c <= 0) || (a > b) != (c > 0) || (a >= b) != (c >= 0) || (a == b) != (c == 0) || (a != b) != (c != 0)) { fail(ab + "wrong comparison"); }
    int s = a.compare(b);
    if ((s < 0) != (c < 0) || (s > 0) != (c > 0)) { fail(ab + "wrong three-way comparison"); }
    int m = cmpabs(a, b), em = cmp(abs(p), abs(q));
    if ((m < 0) != (em < 0) || (m > 0) != (em > 0)) { fail(ab + "wrong comparison of absolute values"); }
    if (p.get_den() == 1 && q.get_den() == 1 && q != 0)
    {
        mpz_class e;
        mpz_fdiv_q(e.get_mpz_t(), p.get_num_mpz_t(), q.get_num_mpz_t());
        auto r = yaga::fastrat_fdiv_q(a, b);
        if (r.get_str() != e.get_str()) { fail(ab + "fastrat_fdiv_q gives " + r.get_str() + " instead of " + e.get_str()); }
    }
    auto x = rep(q, rb); // assignment over an existing value
    x = static_cast<Rational const&>(a);
    same(x, p, ab + "copy assignment over b", deep);
    auto y = rep(q, rb), z = rep(p, ra);
    y = std::move(z);
    same(y, p, ab + "move assignment over b", deep);
    traces();
}

static void unary(mpq_class const& p, int ra)
{
    std::string w = "a=" + str(p) + " (representation " + std::to_string(ra) + "): ";
    same(rep(p, ra), p, w, true);
    same(-rep(p, ra), -p, w + "-a", true);
    auto a = rep(p, ra);
    a.negate();
    same(a, -p, w + "negate()", true);
    a.negate();
    same(a, p, w + "negate() twice", true);
    a.reset();
    same(a, 0, w + "reset()", true);
    a = rep(p, ra);
    same(yaga::abs(a), abs(p), w + "abs", true);
    if (p != 0)
    {
        same(rep(p, ra).inverse(), 1 / p, w + "inverse", true);
        same(rep(p, ra).inv(), 1 / p, w + "inv", true);
    }
    {
        mpq_class h = p + mpq_class(1, 2);
        mpz_class f;
        mpz_fdiv_q(f.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t());
        same(yaga::fastrat_round_to_int(rep(p, ra)), f, w + "round", true);
    }
    auto b = rep(p, ra);
    b += b;
    same(b, p + p, w + "a += a", true);
    b = rep(p, ra);
    b -= b;
    same(b, 0, w + "a -= a", true);
    b = rep(p, ra);
    b *= b;
    same(b, p * p, w + "a *= a", true);
    b = rep(p, ra);
    if (p != 0)
    {
        b /= b;
        same(b, 1, w + "a /= a", true);
    }
    b = rep(p, ra);
    Rational c(b), d(std::move(b));
    same(c, p, w + "copy", true);
    same(d, p, w + "move", true);
    traces();
}

static void pairs(std::string name, std::vector<mpq_class> va, std::vector<mpq_class> vb, int reps, bool deep)
{
    auto A = std::make_shared<std::vector<mpq_class>>(va), B = std::make_shared<std::vector<mpq_class>>(vb);
    add({name, va.size() * reps, [=](std::uint64_t i) {
             auto& p = (*A)[i / reps];
             int ra = i % reps;
             unary(p, ra);
             for (auto& q : *B) { for (int rb = 0; rb < reps; ++rb) { binary(p, q, ra, rb, deep); } }
             state(mix(hash(str(p)), ra));
         },
         [=](std::uint64_t i) { return "a=" + str((*A)[i / reps]) + " representation " + std::to_string(i % reps) + " with every b of " + std::to_string(B->size()) + " values"; }, 120});
}

// all operation sequences on two registers
struct Regs {
    Rational r[2];
    mpq_class m[2];
};
static int const num_ops = 24;
static bool apply(Regs& s, int op, std::string& text)
{
    auto &a = s.r[0], &b = s.r[1];
    auto &p = s.m[0], &q = s.m[1];
    static char const* const names[num_ops] = {"a+=b", "a-=b", "a*=b", "a/=b", "a=a+b", "a=b-a", "a=a*b", "a=b/a", "a=-a", "negate a", "a=1/a", "b=a (copy)", "b=a (move of copy)", "swap", "a=floor a", "a=ceil a", "a=num b", "a=den b", "compare", "a+=1", "a=-2^31", "a*=a", "b+=a", "a-=a"};
    text += std::string(text.empty() ? "" : "; ") + names[op];
    switch (op)
    {
    case 0: a += b; p += q; break;
    case 1: a -= b; p -= q; break;
    case 2: a *= b; p *= q; break;
    case 3: if (q == 0) { return false; } a /= b; p /= q; break;
    case 4: a = a + b; p = p + q; break;
    case 5: a = b - a; p = q - p; break;
    case 6: a = a * b; p = p * q; break;
    case 7: if (p == 0) { return false; } a = b / a; p = q / p; break;
    case 8: a = -a; p = -p; break;
    case 9: a.negate(); p = -p; break;
    case 10: if (p == 0) { return false; } a = a.inv(); p = 1 / p; break;
    case 11: b = static_cast<Rational const&>(a); q = p; break;
    case 12: b = Rational(a); q = p; break;
    case 13: std::swap(a, b); std::swap(p, q); break;
    case 14: { a = a.floor(); mpz_class z; mpz_fdiv_q(z.get_mpz_t(), p.get_num_mpz_t(), p.get_den_mpz_t()); p = z; break; }
    case 15: { a = a.ceil(); mpz_class z; mpz_cdiv_q(z.get_mpz_t(), p.get_num_mpz_t(), p.get_den_mpz_t()); p = z; break; }
    case 16: a = b.get_num(); p = q.get_num(); break;
    case 17: a = b.get_den(); p = q.get_den(); break;
    case 18: if ((a < b) != (p < q) || (a == b) != (p == q)) { fail(text + ": wrong comparison"); } break;
    case 19: a += 1; p += 1; break;
    case 20: a = Rational(INT32_MIN); p = -2147483648L; break;
    case 21: a *= a; p *= p; break;
    case 22: b += a; q += p; break;
    case 23: a -= a; p = 0; break;
    }
    return true;
}

static void sequences(std::string name, std::vector<mpq_class> v, int depth)
{
    auto V = std::make_shared<std::vector<mpq_class>>(v);
    auto n = v.size();
    add({name, n * n * num_ops, [=](std::uint64_t i) {
             int first = i % num_ops;
             mpq_class p = (*V)[i / num_ops % n], q = (*V)[i / num_ops / n];
             auto rec = [&](auto&& self, std::vector<int>& ops) -> void {
                 Regs s;
                 s.r[0] = Rational(str(p).c_str());
                 s.r[1] = Rational(str(q).c_str());
                 s.m[0] = p;
                 s.m[1] = q;
                 std::string text = "a=" + str(p) + ", b=" + str(q);
                 for (int op : ops) { if (!apply(s, op, text)) { return; } }
                 bool last = static_cast<int>(ops.size()) == depth;
                 same(s.r[0], s.m[0], text + ": a", last);
                 same(s.r[1], s.m[1], text + ": b", false);
                 state(mix(mix(hash(str(s.m[0])), hash(str(s.m[1]))), s.r[0].wordPartValid() * 8 + s.r[0].mpqPartValid() * 4 + s.r[0].mpqMemoryAllocated() * 2 + s.r[1].mpqPartValid()));
                 traces();
                 if (last) { return; }
                 for (int op = 0; op < num_ops; ++op)
                 {
                     ops.push_back(op);
                     self(self, ops);
                     ops.pop_back();
                 }
             };
             std::vector<int> ops{first};
             rec(rec, ops);
         },
         [=](std::uint64_t i) { return "a=" + str((*V)[i / num_ops % n]) + ", b=" + str((*V)[i / num_ops / n]) + ", first operation " + std::to_string(i % num_ops); }, 120});
}

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    bool ub = c.property == "C25"; // slow instrumented build
    std::vector<std::string> limits{"2147483648", "4294967296", "9223372036854775808", "18446744073709551616"};
    auto small = make_values(around({"0"}, t ? 24 : ub ? 6 : 14), positive(around({"0"}, t ? 24 : ub ? 6 : 14)));
    pairs("small", small, small, 1, false);
    auto edge = make_values({"0", "1", "2", "3", "5", "6", "65535", "65536", "65537", "1073741823", "1073741824", "2147483645", "2147483646", "2147483647", "2147483648", "2147483649", "4294967294", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "36893488147419103233"},
                            {"1", "2", "3", "6", "65536", "65537", "2147483647", "2147483648", "2147483649", "4294967291", "4294967294", "4294967295", "4294967296", "4294967297", "18446744073709551616"});
    std::vector<mpq_class> half;
    for (std::size_t i = 0; i < edge.size(); i += t ? 1 : ub ? 9 : 1) { half.push_back(edge[i]); }
    pairs("edge", edge, half, 1, false);
    auto limit = make_values(around(limits, t ? 4 : 2), positive(around({"0", "2147483648", "4294967296"}, t ? 4 : ub ? 1 : 3)));
    std::vector<mpq_class> some;
    for (std::size_t i = 0; i < limit.size(); i += t ? 1 : ub ? 5 : 1) { some.push_back(limit[i]); }
    pairs("limits", limit, some, 1, false);
    auto few = make_values({"0", "1", "3", "2147483647", "2147483648", "4294967296"}, {"1", "2", "3", "2147483647", "4294967295", "4294967296"});
    pairs("representations", few, few, REPS, true);
    auto tiny = make_values({"0", "1", "2147483647", "2147483648"}, {"1", "2", "4294967295"});
    sequences("sequences", make_values({"0", "1", "2147483647", "2147483648"}, {"1", "2"}), t ? 4 : ub ? 2 : 3);
    sequences("sequences-wide", tiny, t ? 3 : 2);
}
