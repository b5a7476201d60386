// C02-C05, C15, C16: problems that are larger than those of the exhaustive families, generated from a few parameters so that the
// answer is known: sums and cycles over many variables, functions of many arguments, tables with many rows, deep nesting.
#include "e2e.h"
#include <numeric>

using namespace mc;

namespace {

using ref::Q;

std::string const tail = "(check-sat)\n(get-model)\n";
std::vector<int> const some_opts{0, 3, 5, 10};

// one digit of a mixed-radix number
int take(std::uint64_t& i, int n) { int r = i % n; i /= n; return r; }

std::string num(Q q)
{
    bool neg = q < 0;
    if (neg) { q = -q; }
    std::string s = q.get_den() == 1 ? q.get_num().get_str() : "(/ " + q.get_num().get_str() + " " + q.get_den().get_str() + ")";
    return neg ? "(- " + s + ")" : s;
}
std::string var(int i) { return "x" + std::to_string(i); }
std::string sum(std::vector<std::string> const& t)
{
    if (t.size() == 1) { return t[0]; }
    std::string s = "(+";
    for (auto& a : t) { s += " " + a; }
    return s + ")";
}
std::string times(Q c, std::string const& v) { return c == 1 ? v : "(* " + num(c) + " " + v + ")"; }
std::string head(char const* logic, int n, char const* sort = "Real")
{
    std::string s = std::string("(set-logic ") + logic + ")\n";
    for (int i = 0; i < n; ++i) { s += "(declare-fun " + var(i) + " () " + sort + ")\n"; }
    return s;
}
std::string a(std::string const& f) { return "(assert " + f + ")\n"; }
// the assertions in the order start, start + stride, ...
std::string in_order(std::vector<std::string> const& fs, int order)
{
    int n = fs.size(), stride = order == 0 ? 1 : order == 1 ? n - 1 : n / 2 + 1;
    while (std::gcd(stride, n) != 1) { ++stride; }
    std::string s;
    for (int k = 0, at = order == 1 ? n - 1 : order == 2 ? n / 3 : 0; k < n; ++k, at = (at + stride) % n) { s += a(fs[at]); }
    return s;
}

using Problem = std::pair<std::string, bool>; // text and whether it is satisfiable

void family(std::string name, std::uint64_t size, std::function<Problem(std::uint64_t)> make, std::vector<int> opts = some_opts)
{
    add({name, size, [=](std::uint64_t i) {
             auto [s, sat] = make(i);
             for (int o : opts) { check_script(s, o, sat); }
         },
         [=](std::uint64_t i) { return make(i).first; }, 60});
}

Q coef(int pattern, int i)
{
    switch (pattern)
    {
    case 0: return 1;
    case 1: return i % 2 ? -1 : 1;
    case 2: return i + 1;
    case 3: return Q(i % 3 == 1 ? -1 : 1, i + 2);
    default: { Q r = i % 2 ? -7 : 3; for (int k = 0; k < i; ++k) { r *= 10; } return r; }
    }
}

void lra(bool t)
{
    int const most = t ? 20 : 12;
    // a sum against its largest value under bounds
    family("lra-sum", (std::uint64_t)most * 5 * 4 * 4 * 3 * 3, [=](std::uint64_t i) {
        int n = 1 + take(i, most), pattern = take(i, 5), rel = take(i, 4), strict = take(i, 4), delta = take(i, 3) - 1, order = take(i, 3);
        Q top = 0;
        std::vector<std::string> fs, terms;
        bool open = false;
        for (int k = 0; k < n; ++k)
        {
            Q c = coef(pattern, k), u = Q(k * 3 % 7 - 3, k % 3 + 1);
            u.canonicalize();
            top += c * u;
            terms.push_back(times(c, var(k)));
            bool s = strict == 1 ? k == 0 : strict == 2 ? k % 2 == 0 : strict == 3 && k == n - 1;
            open = open || s;
            fs.push_back((s ? c > 0 ? "(< " : "(> " : c > 0 ? "(<= " : "(>= ") + var(k) + " " + num(u) + ")");
        }
        if (order == 2) { std::reverse(terms.begin(), terms.end()); }
        auto e = sum(terms), b = num(top + delta);
        fs.push_back(rel == 0 ? "(>= " + e + " " + b + ")" : rel == 1 ? "(> " + e + " " + b + ")" : rel == 2 ? "(= " + e + " " + b + ")" : "(and (>= " + e + " " + b + ") (distinct " + e + " " + b + "))");
        bool sat = delta < 0 || (delta == 0 && !open && (rel == 0 || rel == 2));
        return Problem{head("QF_LRA", n) + in_order(fs, order) + tail, sat};
    });
    // cycles of differences
    family("lra-cycle", (std::uint64_t)(most + 2) * 3 * 4 * 3 * 3 * 2, [=](std::uint64_t i) {
        int n = 2 + take(i, most + 2), pattern = take(i, 3), strict = take(i, 4), total = take(i, 3) - 1, order = take(i, 3), dir = take(i, 2);
        std::vector<std::string> fs;
        Q s = 0;
        bool open = false;
        for (int k = 0; k < n; ++k)
        {
            Q d = pattern == 0 ? Q(0) : pattern == 1 ? Q(k % 2 ? -k : k + 1, 3) : Q((k * k) % 5 - 2);
            d.canonicalize();
            if (k == n - 1) { d = Q(total, 2) - s; d.canonicalize(); }
            s += d;
            bool st = strict == 1 ? k == 0 : strict == 2 ? k == n - 1 : strict == 3 && k == n / 2;
            open = open || st;
            auto x = var(dir ? n - 1 - k : k), y = var(dir ? (2 * n - 2 - k) % n : (k + 1) % n);
            fs.push_back(k % 2 ? "(" + std::string(st ? "<" : "<=") + " " + x + " (+ " + y + " " + num(d) + "))" : "(not (" + std::string(st ? ">=" : ">") + " (- " + x + " " + y + ") " + num(d) + "))");
        }
        return Problem{head("QF_LRA", n) + in_order(fs, order) + tail, total > 0 || (total == 0 && !open)};
    });
    // systems of equations with one solution: x(k+1) = a xk + b and so on, and a question about an unknown
    family("lra-chain", (std::uint64_t)(most + 2) * 3 * 2 * 5 * 3, [=](std::uint64_t i) {
        int n = 2 + take(i, most + 2), pattern = take(i, 3), from_end = take(i, 2), rel = take(i, 5), order = take(i, 3);
        std::vector<Q> v{from_end ? Q(1, 3) : Q(2)};
        std::vector<std::string> fs;
        for (int k = 1; k < n; ++k)
        {
            Q c = pattern == 0 ? Q(2) : pattern == 1 ? Q(k % 2 ? -1 : 1) : Q(k % 3 + 1, 2), d = Q(k % 4 - 1);
            c.canonicalize();
            Q value = c * v.back() + d;
            if (pattern == 2 && k > 1) { value += v[k - 2]; }
            fs.push_back("(= " + var(k) + " " + sum({times(c, var(k - 1)), num(d), pattern == 2 && k > 1 ? var(k - 2) : "0"}) + ")");
            v.push_back(value);
        }
        // triangular: the last two values (or the first one) determine the rest
        int known = from_end && pattern != 2 ? n - 1 : 0, asked = n - 1 - known;
        fs.push_back("(= " + var(known) + " " + num(v[known]) + ")");
        char const* rels[] = {"=", "<", ">", "<=", "distinct"};
        bool const holds[] = {true, false, false, true, false};
        fs.push_back(std::string("(") + rels[rel] + " " + var(asked) + " " + num(v[asked]) + ")");
        return Problem{head("QF_LRA", n) + in_order(fs, order) + tail, holds[rel]};
    });
    // a sum whose variables but one are bounded, directly or in terms of one another, and a bound of the last one that comes with a
    // decision
    family("lra-late", (std::uint64_t)(most - 1) * 4 * 4 * 3 * 12 * 4, [=](std::uint64_t i) {
        int n = 2 + take(i, most - 1), pattern = take(i, 4), how = take(i, 4), delta = take(i, 3) - 1, free = take(i, 12) % n, form = take(i, 4);
        std::vector<std::string> fs, terms;
        Q least = 0;
        bool open = false;
        std::vector<Q> low(n);
        int before = -1;
        for (int k = 0; k < n; ++k)
        {
            Q c = coef(pattern, k);
            terms.push_back(times(c, var(k)));
            if (k == free) { continue; }
            Q l = Q(k * 5 % 7 - 3, k % 2 + 1);
            l.canonicalize();
            bool link = how >= 2 && before >= 0 && k % 2;
            if (link) { l = (c > 0) == (coef(pattern, before) > 0) ? Q(low[before] + Q(k % 3)) : Q(Q(k % 3) - low[before]); }
            low[k] = l;
            bool s = how == 1 && k == (free ? 0 : n - 1);
            open = open || s;
            char const* rel = c > 0 ? (s ? "(> " : "(>= ") : (s ? "(< " : "(<= ");
            // before is linked in the direction that matters
            std::string rhs = !link ? num(l) : (c > 0) == (coef(pattern, before) > 0) ? "(+ " + var(before) + " " + num(Q(k % 3)) + ")" : "(- " + num(Q(k % 3)) + " " + var(before) + ")";
            fs.push_back(rel + var(k) + " " + rhs + ")");
            least += c * l;
            before = k;
        }
        Q c = coef(pattern, free), at = Q(1, 2) * free;
        at.canonicalize();
        Q b = least + c * at + delta;
        fs.push_back((how == 3 ? "(= " : "(<= ") + sum(terms) + " " + num(b) + ")");
        std::string late = (c > 0 ? "(>= " : "(<= ") + var(free) + " " + num(at) + ")";
        switch (form)
        {
        case 0: fs.push_back("(or p " + late + ")"), fs.push_back("(or (not p) " + late + ")"); break;
        case 1: fs.push_back("(or (and p " + late + ") (and q " + late + "))"); break;
        case 2: fs.push_back("(= p " + late + ")"), fs.push_back("(or p q)"), fs.push_back("(or p (not q))"); break;
        default: fs.push_back("(or " + late + " " + (c > 0 ? "(> " : "(< ") + var(free) + " " + num(c > 0 ? Q(at + 3) : Q(at - 3)) + ") (and p (not p)))"); break;
        }
        auto s = head("QF_LRA", n) + "(declare-fun p () Bool)\n(declare-fun q () Bool)\n";
        return Problem{s + in_order(fs, form == 3 ? 2 : form % 2) + tail, delta > 0 || (delta == 0 && !open)};
    });
    // a variable with many alternatives of which some are excluded
    family("lra-alternatives", (std::uint64_t)most * 3 * 3 * 21, [=](std::uint64_t i) {
        int n = 1 + take(i, most), how = take(i, 3), form = take(i, 3), left = take(i, 21) % (n + 1); // left == n: all are excluded
        std::vector<std::string> fs;
        std::string alt = "(or";
        for (int k = 0; k < n; ++k) { alt += form == 0 ? " (= x0 " + num(Q(k)) + ")" : form == 1 ? " (and (<= x0 " + num(Q(k)) + ") (>= x0 " + num(Q(k)) + "))" : " (= (+ x0 x1) (+ " + num(Q(k)) + " x1))"; }
        fs.push_back(alt + " false)");
        for (int k = 0; k < n; ++k)
        {
            if (k == left) { continue; }
            fs.push_back(how == 0 ? "(distinct x0 " + num(Q(k)) + ")" : how == 1 ? "(or (< x0 " + num(Q(2 * k - 1, 2)) + ") (> x0 " + num(Q(2 * k + 1, 2)) + "))" : "(not (= (- x0) " + num(Q(-k)) + "))");
        }
        return Problem{head("QF_LRA", 2) + in_order(fs, how) + tail, left < n};
    });
    // n-ary predicates with one violated pair
    family("lra-nary", (std::uint64_t)(most - 1) * 6 * 10 * 10 * 2, [=](std::uint64_t i) {
        int n = 2 + take(i, most - 1), pred = take(i, 6), p = take(i, 10) % n, q = take(i, 10) % n, negate = take(i, 2);
        char const* preds[] = {"<", "<=", "=", ">", ">=", "distinct"};
        std::string f = std::string("(") + preds[pred];
        for (int k = 0; k < n; ++k) { f += " " + var(k); }
        f += ")";
        std::string s;
        bool holds = true; // the values are fixed
        std::vector<Q> v;
        for (int k = 0; k < n; ++k) { v.push_back(pred == 2 ? Q(4) : pred < 2 ? Q(k, 2) : Q(n - k, 3)); v.back().canonicalize(); }
        if (p != q) { v[p] = pred == 2 ? Q(5) : v[q]; }
        for (int k = 0; k < n; ++k) { s += a("(= " + num(v[k]) + " " + var(k) + ")"); }
        for (int x = 0; x < n; ++x)
        {
            for (int y = x + 1; y < n; ++y)
            {
                if (pred != 5 && y != x + 1) { continue; }
                holds = holds && (pred == 0 ? v[x] < v[y] : pred == 1 ? v[x] <= v[y] : pred == 2 ? v[x] == v[y] : pred == 3 ? v[x] > v[y] : pred == 4 ? v[x] >= v[y] : v[x] != v[y]);
            }
        }
        return Problem{head("QF_LRA", n) + (p % 2 ? s + a(negate ? "(not " + f + ")" : f) : a(negate ? "(not " + f + ")" : f) + s) + tail, holds != (negate == 1)};
    });
    // deep nesting of ite, let and definitions
    family("lra-nested", (std::uint64_t)(most + 4) * 5 * 14 * 3, [=](std::uint64_t i) {
        int n = 1 + take(i, most + 4), kind = take(i, 5), x = take(i, 14), rel = take(i, 3);
        std::string e, defs;
        Q value = 0;
        if (kind == 0) // the first threshold above x
        {
            e = num(Q(-5));
            value = -5;
            for (int k = n - 1; k >= 0; --k) { e = "(ite (< x0 " + num(Q(k)) + ") " + num(Q(k * 2 + 1, 3)) + " " + e + ")"; if (x < k) { value = Q(k * 2 + 1, 3); } }
        }
        if (kind == 1) // the other way round
        {
            e = num(Q(-5));
            value = -5;
            for (int k = 0; k < n; ++k) { e = "(ite (not (> x0 " + num(Q(k)) + ")) (+ 1 " + e + ") " + num(Q(k)) + ")"; value = x <= k ? value + 1 : Q(k); }
        }
        if (kind == 2) // lets over one another
        {
            e = "a" + std::to_string(n - 1);
            value = x;
            for (int k = n - 1; k >= 0; --k) { e = "(let ((a" + std::to_string(k) + " (+ " + (k ? "a" + std::to_string(k - 1) : "x0") + " " + num(Q(k % 3)) + "))) " + e + ")"; }
            for (int k = 0; k < n; ++k) { value += k % 3; }
        }
        if (kind == 3) // the same name again and again, also in parallel
        {
            e = "(+ x0 b)";
            Q b = 1, y = x;
            std::string close;
            std::string open = "(let ((b 1)) ";
            close += ")";
            for (int k = 0; k < n; ++k) { open += "(let ((x0 (+ x0 b)) (b (* 2 x0))) "; Q nx = y + b; b = 2 * y; y = nx; close += ")"; }
            e = open + e + close;
            value = y + b;
        }
        if (kind == 4) // definitions in terms of earlier ones
        {
            value = x;
            for (int k = 0; k < n; ++k)
            {
                auto f = "F" + std::to_string(k), g = "F" + std::to_string(k - 1);
                defs += "(define-fun " + f + " ((x0 Real) (y Real)) Real " + (k ? "(- (" + g + " x0 y) (ite (< y 3) 1 x0))" : "(+ x0 y)") + ")\n";
                value = k ? Q(value - x) : Q(Q(x) + 3);
            }
            e = "(F" + std::to_string(n - 1) + " x0 3)";
        }
        value.canonicalize();
        char const* rels[] = {"=", "<", ">="};
        bool const holds[] = {true, false, true};
        return Problem{head("QF_LRA", 1) + defs + a("(= x0 " + num(Q(x)) + ")") + a(std::string("(") + rels[rel] + " " + e + " " + num(value) + ")") + tail, holds[rel]};
    }, {0, 7});
    // Boolean structure: chains of implications, parity, nested connectives
    family("bool-wide", (std::uint64_t)14 * 6 * 2 * 2, [=](std::uint64_t i) {
        int n = std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 24, 33}[take(i, 14)], kind = take(i, 6), truth = take(i, 2), rev = take(i, 2);
        std::vector<std::string> fs;
        bool sat = truth;
        auto v = [&](int k) { return var(rev ? n - 1 - k : k); };
        std::string all;
        for (int k = 0; k < n; ++k) { all += " " + v(k); }
        if (kind == 0) // x0, x0 => x1 => ...
        {
            fs.push_back(v(0));
            for (int k = 1; k < n; ++k) { fs.push_back(k % 2 ? "(=> " + v(k - 1) + " " + v(k) + ")" : "(or " + v(k) + " (not " + v(k - 1) + "))"); }
            fs.push_back(truth ? v(n - 1) : "(not " + v(n - 1) + ")");
        }
        if (kind == 1) // parity: all fixed but one, and the xor of all
        {
            int m = std::min(n, 13), ones = 0;
            std::string x = m == 1 ? v(0) : "(xor";
            for (int k = 0; k < m; ++k) { if (m > 1) { x += " " + v(k); } fs.push_back(k % 3 ? v(k) : "(not " + v(k) + ")"); ones += k % 3 != 0; }
            if (m > 1) { x += ")"; }
            fs.push_back((ones % 2 == 1) == (truth == 1) ? x : "(not " + x + ")");
        }
        if (kind == 2) { fs = {n == 1 ? v(0) : "(and" + all + ")", truth ? v(n / 2) : "(not " + v(n / 2) + ")"}; }
        if (kind == 3) { fs = {n == 1 ? v(0) : "(or" + all + ")"}; for (int k = 0; k < n; ++k) { if (!truth || k != n / 2) { fs.push_back("(not " + v(k) + ")"); } } }
        if (kind == 4) // => is right associative
        {
            std::string x = n == 1 ? v(0) : "(=>" + all + ")";
            for (int k = 0; k + 1 < n; ++k) { fs.push_back(v(k)); }
            fs.push_back(truth ? v(n - 1) : "(not " + v(n - 1) + ")");
            fs.push_back(x);
        }
        if (kind == 5) // nested and, or, ite, not
        {
            std::string e = v(n - 1);
            bool value = true;
            for (int k = n - 2; k >= 0; --k)
            {
                bool xk = k % 3 != 1;
                switch (k % 5)
                {
                case 0: e = "(not (and " + v(k) + " " + e + "))"; value = !(xk && value); break;
                case 1: e = "(or " + e + " " + v(k) + ")"; value = value || xk; break;
                case 2: e = "(ite " + e + " " + v(k) + " (not " + v(k) + "))"; value = value ? xk : !xk; break;
                case 3: e = "(= " + v(k) + " " + e + ")"; value = xk == value; break;
                default: e = "(=> " + e + " " + v(k) + ")"; value = !value || xk; break;
                }
            }
            for (int k = 0; k + 1 < n; ++k) { fs.push_back(k % 3 != 1 ? v(k) : "(not " + v(k) + ")"); }
            fs.push_back(v(n - 1));
            fs.push_back(value == (truth == 1) ? e : "(not " + e + ")");
        }
        return Problem{head("QF_LRA", n, "Bool") + in_order(fs, rev * 2) + tail, sat};
    }, {0, 4, 8});
}

void uf(bool t)
{
    int const most = t ? 12 : 9;
    // two applications of a function with n arguments that differ at one position, or nowhere
    family("uf-arity", (std::uint64_t)most * 3 * 13 * 3 * 2, [=](std::uint64_t i) {
        int n = 1 + take(i, most), sorts = take(i, 3), pos = take(i, 13) % (n + 1), how = take(i, 3), result = take(i, 2); // pos == n: the same everywhere
        auto boolean = [&](int k) { return sorts == 1 ? k % 2 == 1 : sorts == 2 && k % 3 == 0; };
        std::string s = "(set-logic QF_UFLRA)\n(declare-fun f (", l, r;
        for (int k = 0; k < n; ++k) { s += boolean(k) ? " Bool" : " Real"; }
        s += result ? ") Bool)\n" : ") Real)\n";
        std::vector<std::string> fs;
        for (int k = 0; k < n; ++k)
        {
            auto x = "x" + std::to_string(k), y = "y" + std::to_string(k);
            for (auto& v : {x, y}) { s += "(declare-fun " + v + " () " + (boolean(k) ? "Bool" : "Real") + ")\n"; }
            l += " " + (boolean(k) ? x : how == 2 ? "(+ " + x + " 1)" : x);
            r += " " + (boolean(k) ? (how == 1 ? "(not " + y + ")" : y) : how == 2 ? "(- " + y + " (- 1))" : y);
            if (k == pos) { continue; }
            if (boolean(k)) { fs.push_back(how == 1 ? "(distinct " + x + " " + y + ")" : k % 2 ? "(= " + y + " " + x + ")" : "(and (=> " + y + " " + x + ") (=> " + x + " " + y + "))"); }
            else { fs.push_back(k % 2 ? "(= " + x + " " + y + ")" : "(and (<= " + x + " " + y + ") (>= " + x + " " + y + "))"); }
        }
        fs.push_back(result || how == 1 ? "(distinct (f" + l + ") (f" + r + "))" : "(< (f" + l + ") (f" + r + "))");
        return Problem{s + in_order(fs, how) + tail, pos < n};
    });
    // a table: f at m points, given directly or by variables; the last row repeats an earlier point
    family("uf-table", (std::uint64_t)(most + 3) * 4 * 12 * 3, [=](std::uint64_t i) {
        int m = 2 + take(i, most + 3), form = take(i, 4), again = take(i, 12) % m, truth = take(i, 3);
        std::string s = head("QF_UFLRA", m + 1) + "(declare-fun f (Real) Real)\n(declare-fun g (Real Bool) Real)\n(declare-fun P (Real Real) Bool)\n";
        std::vector<std::string> fs;
        auto app = [&](std::string x, int) { return form == 1 ? "(g " + x + " true)" : "(f " + x + ")"; };
        for (int k = 0; k < m; ++k)
        {
            Q at = Q(k * 3 % (2 * m), 2), value = form == 2 ? Q(k % 2) : Q(k * 7 % (m + 1), 3);
            at.canonicalize(), value.canonicalize();
            fs.push_back("(= " + var(k) + " " + num(at) + ")");
            if (form == 3) { fs.push_back((k % 3 == 1 ? "(not " : "(and true ") + std::string("(P ") + var(k) + " " + num(Q(k % 2)) + "))"); }
            else { fs.push_back("(= " + app(k % 2 ? var(k) : num(at), k) + " " + num(value) + ")"); }
            if (k != again) { continue; }
            fs.push_back("(= " + var(m) + " (+ " + num(at) + " 1))");
            auto x = "(- " + var(m) + " 1)";
            if (form == 3) { fs.push_back((truth ? k % 3 == 1 : k % 3 != 1) ? "(not (P " + x + " " + num(Q(k % 2)) + "))" : "(P " + x + " " + num(Q(k % 2)) + ")"); }
            else { fs.push_back(truth == 0 ? "(distinct " + app(x, k) + " " + num(value) + ")" : truth == 1 ? "(<= " + app(x, k) + " " + num(value) + ")" : "(= " + num(value) + " " + app(x, k) + ")"); }
        }
        // 3k mod 2m repeats a point when 3 divides 2m
        bool clash = false;
        for (int k = 0; k < m && form != 3; ++k) { for (int l = 0; l < k; ++l) { if (k * 3 % (2 * m) == l * 3 % (2 * m)) { clash = clash || (form == 2 ? k % 2 != l % 2 : k * 7 % (m + 1) != l * 7 % (m + 1)); } } }
        for (int k = 0; k < m && form == 3; ++k) { for (int l = 0; l < k; ++l) { if (k * 3 % (2 * m) == l * 3 % (2 * m) && k % 2 == l % 2) { clash = clash || (k % 3 == 1) != (l % 3 == 1); } } }
        return Problem{s + in_order(fs, truth) + tail, !clash && truth > 0};
    });
    // f^k(x) = x and f^m(x) = x, but f^j(x) != x
    family("uf-power", (std::uint64_t)(t ? 9 : 6) * (t ? 9 : 6) * 6 * 2, [=](std::uint64_t i) {
        int most = t ? 9 : 6, k = 1 + take(i, most), m = 1 + take(i, most), j = 1 + take(i, 6), order = take(i, 2);
        auto power = [](int n) { std::string s = "x0"; for (int i = 0; i < n; ++i) { s = "(f " + s + ")"; } return s; };
        std::vector<std::string> fs{"(= " + power(k) + " x0)", "(= x0 " + power(m) + ")", "(distinct " + power(j) + " x0)"};
        return Problem{head("QF_UFLRA", 1) + "(declare-fun f (Real) Real)\n" + in_order(fs, order) + tail, j % std::gcd(k, m) != 0};
    });
    // arguments that are sums over many variables: equal up to the order of the terms and a constant moved between them
    family("uf-sums", (std::uint64_t)most * 4 * 3 * 3 * 2, [=](std::uint64_t i) {
        int n = 1 + take(i, most), pattern = take(i, 4), delta = take(i, 3) - 1, shape = take(i, 3), shift = take(i, 2);
        std::vector<std::string> l, r, fs;
        for (int k = 0; k < n; ++k)
        {
            l.push_back(times(coef(pattern, k), var(k)));
            r.push_back(times(coef(pattern, k), shift ? "y" + std::to_string(k) : var(k)));
        }
        std::reverse(r.begin(), r.end());
        std::string s = head("QF_UFLRA", n) + "(declare-fun f (Real) Real)\n(declare-fun g (Real Real) Real)\n";
        Q total = 0;
        for (int k = 0; shift && k < n; ++k)
        {
            s += "(declare-fun y" + std::to_string(k) + " () Real)\n";
            Q d = Q(k % 3 - 1);
            total += d * coef(pattern, k);
            fs.push_back("(= y" + std::to_string(k) + " (+ " + var(k) + " " + num(d) + "))");
        }
        // sum of the y is the sum of the x plus total
        l.push_back(num(total));
        r.insert(r.begin() + r.size() / 2, num(Q(delta)));
        auto L = sum(l), R = sum(r);
        fs.push_back(shape == 0 ? "(distinct (f " + L + ") (f " + R + "))" : shape == 1 ? "(< (g " + L + " " + R + ") (g " + R + " " + L + "))" : "(not (= (f (+ 1 (f " + L + "))) (f (+ (f " + R + ") 1))))");
        return Problem{s + in_order(fs, shape) + tail, delta != 0};
    });
    // a transitive chain of equalities between applications, broken at one link or nowhere
    family("uf-links", (std::uint64_t)(most + 3) * 16 * 3 * 2, [=](std::uint64_t i) {
        int n = 1 + take(i, most + 3), broken = take(i, 16) % (n + 1), kind = take(i, 3), order = take(i, 2);
        std::vector<std::string> fs;
        for (int k = 0; k < n; ++k)
        {
            if (k == broken) { continue; }
            auto x = var(k), y = var(k + 1);
            fs.push_back(kind == 0 ? "(= (f " + x + ") (f " + y + "))" : kind == 1 ? "(= " + y + " (f " + x + "))" : k % 2 ? "(= (f " + x + ") (g " + y + " " + y + "))" : "(= (g " + x + " " + x + ") (f " + y + "))");
        }
        // kind 1: y0 is another start of a second chain
        if (kind == 1) { for (int k = 0; k < n; ++k) { fs.push_back("(= y" + std::to_string(k + 1) + " (f y" + std::to_string(k) + "))"); } fs.push_back("(= y0 x0)"); fs.push_back("(distinct y" + std::to_string(n) + " " + var(n) + ")"); }
        if (kind == 0) { fs.push_back("(distinct (f " + var(0) + ") (f " + var(n) + "))"); }
        // kind 2 alternates: equal ends need matching functions
        if (kind == 2) { fs.push_back("(distinct (f (" + std::string("f ") + var(0) + ")) (f (" + (n % 2 ? "g " + var(n) + " " + var(n) : "f " + var(n)) + ")))"); for (int k = 0; k <= n; ++k) { fs.push_back("(= (f " + var(k) + ") (g " + var(k) + " " + var(k) + "))"); } }
        std::string s = head("QF_UFLRA", n + 1) + "(declare-fun f (Real) Real)\n(declare-fun g (Real Real) Real)\n";
        if (kind == 1) { for (int k = 0; k <= n; ++k) { s += "(declare-fun y" + std::to_string(k) + " () Real)\n"; } }
        return Problem{s + in_order(fs, order) + tail, broken < n};
    });
}

} // namespace

void mc::setup(Config const& c)
{
    lra(c.thorough());
    uf(c.thorough());
}
