#include "ref.h"
#include <algorithm>

namespace ref {

bool feasible(std::vector<Con> cons)
{
    std::size_t n = 0;
    for (auto& c : cons) { n = std::max(n, c.l.coef.size()); }
    for (auto& c : cons) { c.l.coef.resize(n); }
    // substitute equalities
    std::vector<Con> ineq;
    std::vector<Con> eqs;
    for (auto& c : cons) { (c.r == Rel::eq ? eqs : ineq).push_back(std::move(c)); }
    for (std::size_t i = 0; i < eqs.size(); ++i)
    {
        std::size_t v = 0;
        while (v < n && eqs[i].l.coef[v] == 0) { ++v; }
        if (v == n)
        {
            if (eqs[i].l.c != 0) { return false; }
            continue;
        }
        auto elim = [&](Con& o) {
            if (o.l.coef[v] != 0)
            {
                Q m = -o.l.coef[v] / eqs[i].l.coef[v];
                o.l.add(eqs[i].l, m);
            }
        };
        for (std::size_t j = i + 1; j < eqs.size(); ++j) { elim(eqs[j]); }
        for (auto& o : ineq) { elim(o); }
    }
    for (std::size_t v = 0; v <= n; ++v)
    {
        std::vector<Con> rest, up, lo;
        for (auto& c : ineq)
        {
            bool k = true;
            for (std::size_t i = v; i < n; ++i) { if (c.l.coef[i] != 0) { k = false; break; } }
            if (k)
            {
                if (c.r == Rel::lt ? !(c.l.c < 0) : !(c.l.c <= 0)) { return false; }
                continue;
            }
            int s = v < n ? sgn(c.l.coef[v]) : 0;
            (s == 0 ? rest : s > 0 ? up : lo).push_back(std::move(c));
        }
        for (auto& u : up)
        {
            for (auto& l : lo)
            {
                Con r;
                r.l = u.l.scaled(1 / u.l.coef[v]);
                r.l.add(l.l, -1 / l.l.coef[v]);
                r.l.coef[v] = 0;
                r.r = u.r == Rel::lt || l.r == Rel::lt ? Rel::lt : Rel::le;
                rest.push_back(std::move(r));
            }
        }
        ineq = std::move(rest);
        if (ineq.empty()) { return true; }
    }
    return true;
}

bool is_number(std::string const& a)
{
    if (a.empty()) { return false; }
    int dots = 0;
    for (char c : a) { if (c == '.') { ++dots; } else if (c < '0' || c > '9') { return false; } }
    return dots <= 1 && a.front() != '.' && a.back() != '.';
}

Q number(std::string const& a)
{
    auto d = a.find('.');
    if (d == std::string::npos) { return Q(mpz_class(a, 10)); }
    std::string digits = a.substr(0, d) + a.substr(d + 1);
    mpz_class den;
    mpz_ui_pow_ui(den.get_mpz_t(), 10, a.size() - d - 1);
    Q q(mpz_class(digits, 10), den);
    q.canonicalize();
    return q;
}

namespace {
bool B(Value const& v)
{
    if (!std::holds_alternative<bool>(v)) { throw Eval_error("Boolean expected"); }
    return std::get<bool>(v);
}
Q const& R(Value const& v)
{
    if (!std::holds_alternative<Q>(v)) { throw Eval_error("number expected"); }
    return std::get<Q>(v);
}
}

Value Evaluator::eval(S const& s, Env const& env) const
{
    if (!s.list)
    {
        if (!s.quoted)
        {
            if (is_number(s.a)) { return number(s.a); }
            if (s.a == "true") { return true; }
            if (s.a == "false") { return false; }
        }
        if (auto it = env.find(s.a); it != env.end()) { return it->second; }
        if (auto it = consts.find(s.a); it != consts.end()) { return it->second; }
        if (auto it = funs.find(s.a); it != funs.end() && it->second.params.empty()) { return eval(it->second.body); }
        if (missing) { return missing(s.a); }
        throw Eval_error("no value for " + s.a);
    }
    if (s.k.empty() || s.k[0].list) { throw Eval_error("bad application " + s.str()); }
    auto const& op = s.k[0].a;
    if (op == "let" && !s.k[0].quoted)
    {
        Env e = env;
        for (auto& b : s.k.at(1).k) { e[b.k.at(0).a] = eval(b.k.at(1), env); }
        return eval(s.k.at(2), e);
    }
    std::vector<Value> v;
    for (std::size_t i = 1; i < s.k.size(); ++i) { v.push_back(eval(s.k[i], env)); }
    if (op == "and") { bool r = true; for (auto& x : v) { r = B(x) && r; } return r; }
    if (op == "or") { bool r = false; for (auto& x : v) { r = B(x) || r; } return r; }
    if (op == "not") { return !B(v.at(0)); }
    if (op == "xor") { bool r = false; for (auto& x : v) { r = r != B(x); } return r; }
    if (op == "=>") { bool r = B(v.back()); for (std::size_t i = v.size() - 1; i-- > 0;) { r = !B(v[i]) || r; } return r; }
    if (op == "=") { for (std::size_t i = 0; i + 1 < v.size(); ++i) { if (v[i].index() != v[i + 1].index()) { throw Eval_error("sorts"); } if (!(v[i] == v[i + 1])) { return false; } } return true; }
    if (op == "distinct") { for (std::size_t i = 0; i < v.size(); ++i) { for (std::size_t j = i + 1; j < v.size(); ++j) { if (v[i] == v[j]) { return false; } } } return true; }
    if (op == "ite") { return B(v.at(0)) ? v.at(1) : v.at(2); }
    if (op == "<" || op == "<=" || op == ">" || op == ">=")
    {
        for (std::size_t i = 0; i + 1 < v.size(); ++i)
        {
            auto const& a = R(v[i]);
            auto const& b = R(v[i + 1]);
            if (!(op == "<" ? a < b : op == "<=" ? a <= b : op == ">" ? a > b : a >= b)) { return false; }
        }
        return true;
    }
    if (op == "+") { Q r = 0; for (auto& x : v) { r += R(x); } return r; }
    if (op == "-") { if (v.size() == 1) { return Q(-R(v[0])); } Q r = R(v.at(0)); for (std::size_t i = 1; i < v.size(); ++i) { r -= R(v[i]); } return r; }
    if (op == "*") { Q r = 1; for (auto& x : v) { r *= R(x); } return r; }
    if (op == "/") { Q r = R(v.at(0)); for (std::size_t i = 1; i < v.size(); ++i) { if (R(v[i]) == 0) { throw Eval_error("division by zero"); } r /= R(v[i]); } return r; }
    if (auto it = funs.find(op); it != funs.end())
    {
        auto& f = it->second;
        if (f.params.size() != v.size()) { throw Eval_error("arity of " + op); }
        Env e;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            if ((f.params[i].second == 'B') != std::holds_alternative<bool>(v[i])) { throw Eval_error("argument sort of " + op); }
            e[f.params[i].first] = v[i];
        }
        return eval(f.body, e);
    }
    if (missing_fun) { return missing_fun(op, v); }
    throw Eval_error("no function " + op);
}

namespace {

// symbolic value along one path: a decided Boolean or a linear term
using Sym = std::variant<bool, Lin>;

struct Pruned {};

struct Path {
    Problem const& p;
    // recorded branching points: alternatives that are possible there and the one taken
    struct Choice { std::vector<int> ok; std::size_t taken; };
    std::vector<Choice>& choices;
    std::size_t pos = 0;
    std::vector<Con> cons;
    // disequalities lin != 0; a convex set satisfies finitely many of them iff it satisfies each of them
    std::vector<Lin> diseqs;
    std::map<std::string, Sym> consts;
    struct App { std::vector<Sym> args; Sym value; };
    std::map<std::string, std::vector<App>> apps;
    int vars = 0;

    Path(Problem const& p, std::vector<Choice>& choices) : p(p), choices(choices) {}

    struct Alt { Lin l; int rel; }; // 0: < 0, 1: <= 0, 2: = 0, 3: != 0

    bool can_differ(Lin const& d)
    {
        if (d.constant()) { return d.c != 0; }
        cons.push_back({d, Rel::lt});
        bool r = feasible(cons);
        if (!r)
        {
            cons.back() = {d.scaled(-1), Rel::lt};
            r = feasible(cons);
        }
        cons.pop_back();
        return r;
    }
    bool possible(Alt const& a)
    {
        if (a.rel == 3) { return can_differ(a.l); }
        cons.push_back({a.l, a.rel == 0 ? Rel::lt : a.rel == 1 ? Rel::le : Rel::eq});
        bool r = feasible(cons);
        // only an equality (possibly implied by two inequalities) can make a disequality impossible
        if (r && a.rel != 0) { for (auto& d : diseqs) { if (!can_differ(d)) { r = false; break; } } }
        cons.pop_back();
        return r;
    }
    int pick(std::vector<int> ok)
    {
        if (ok.empty()) { throw Pruned{}; }
        choices.push_back({std::move(ok), 0});
        return choices[pos++].ok[0];
    }
    int choose(int n)
    {
        if (pos < choices.size()) { auto& c = choices[pos++]; return c.ok[c.taken]; }
        std::vector<int> ok;
        for (int i = 0; i < n; ++i) { ok.push_back(i); }
        return pick(ok);
    }
    // choose a possible alternative and assume it; Pruned if there is none
    int branch(std::vector<Alt> const& alts)
    {
        int c;
        if (pos < choices.size()) { auto& k = choices[pos++]; c = k.ok[k.taken]; }
        else
        {
            std::vector<int> ok;
            for (int i = 0; i < (int)alts.size(); ++i) { if (possible(alts[i])) { ok.push_back(i); } }
            c = pick(ok);
        }
        auto& a = alts[c];
        if (a.rel == 3) { diseqs.push_back(a.l); }
        else { cons.push_back({a.l, a.rel == 0 ? Rel::lt : a.rel == 1 ? Rel::le : Rel::eq}); }
        return c;
    }
    // truth of lin < 0, lin <= 0, lin = 0; with `want` only that truth value is of interest
    bool test(Lin l, Rel r, std::optional<bool> want = {})
    {
        if (l.constant())
        {
            bool v = r == Rel::lt ? l.c < 0 : r == Rel::le ? l.c <= 0 : l.c == 0;
            if (want && v != *want) { throw Pruned{}; }
            return v;
        }
        Lin neg = l.scaled(-1);
        Alt yes = r == Rel::lt ? Alt{l, 0} : r == Rel::le ? Alt{l, 1} : Alt{l, 2};
        Alt no = r == Rel::lt ? Alt{neg, 1} : r == Rel::le ? Alt{neg, 0} : Alt{l, 3};
        if (want) { branch({*want ? yes : no}); return *want; }
        return branch({yes, no}) == 0;
    }
    // make the formula have the given truth value
    void assume(S const& s, bool val, std::map<std::string, Sym> const& env)
    {
        if (s.list && !s.k.empty() && !s.k[0].list)
        {
            auto const& op = s.k[0].a;
            auto n = s.k.size();
            if (op == "not" && n == 2) { return assume(s.k[1], !val, env); }
            if (op == "and" || op == "or")
            {
                if (val == (op == "and")) { for (std::size_t i = 1; i < n; ++i) { assume(s.k[i], val, env); } return; }
                // the first child with the value `val`
                int c = choose((int)n - 1);
                for (int i = 0; i < c; ++i) { assume(s.k[i + 1], !val, env); }
                return assume(s.k[c + 1], val, env);
            }
            if (n == 3 && (op == "=" || op == "<" || op == "<=" || op == ">" || op == ">="))
            {
                auto x = eval(s.k[1], env), y = eval(s.k[2], env);
                if (std::holds_alternative<Lin>(x) && std::holds_alternative<Lin>(y))
                {
                    bool swap = op[0] == '>';
                    Lin d = swap ? std::get<Lin>(y) : std::get<Lin>(x);
                    d.add(swap ? std::get<Lin>(x) : std::get<Lin>(y), -1);
                    test(d, op == "=" ? Rel::eq : op.size() == 2 ? Rel::le : Rel::lt, val);
                    return;
                }
                if (op == "=") { if ((B(x) == B(y)) != val) { throw Pruned{}; } return; }
            }
        }
        if (B(eval(s, env)) != val) { throw Pruned{}; }
    }
    bool equal(Sym const& a, Sym const& b)
    {
        if (std::holds_alternative<bool>(a)) { return std::get<bool>(a) == std::get<bool>(b); }
        Lin d = std::get<Lin>(a);
        d.add(std::get<Lin>(b), -1);
        return test(d, Rel::eq);
    }
    Sym fresh(char sort)
    {
        if (sort == 'B') { return choose(2) == 0; }
        return Lin::var(vars++);
    }
    using Env = std::map<std::string, Sym>;
    static bool B(Sym const& v) { if (!std::holds_alternative<bool>(v)) { throw Eval_error("Boolean expected"); } return std::get<bool>(v); }
    static Lin const& R(Sym const& v) { if (!std::holds_alternative<Lin>(v)) { throw Eval_error("number expected"); } return std::get<Lin>(v); }

    Sym eval(S const& s, Env const& env)
    {
        if (!s.list)
        {
            if (!s.quoted)
            {
                if (is_number(s.a)) { return Lin(number(s.a)); }
                if (s.a == "true") { return true; }
                if (s.a == "false") { return false; }
            }
            if (auto it = env.find(s.a); it != env.end()) { return it->second; }
            if (auto it = consts.find(s.a); it != consts.end()) { return it->second; }
            if (auto it = p.funs.find(s.a); it != p.funs.end() && it->second.params.empty()) { return eval(it->second.body, {}); }
            auto d = p.decls.find(s.a);
            if (d == p.decls.end() || !d->second.args.empty()) { throw Eval_error("undeclared " + s.a); }
            return consts[s.a] = fresh(d->second.ret);
        }
        if (s.k.empty() || s.k[0].list) { throw Eval_error("bad application"); }
        auto const& op = s.k[0].a;
        if (op == "let" && !s.k[0].quoted)
        {
            Env e = env;
            for (auto& b : s.k.at(1).k) { e[b.k.at(0).a] = eval(b.k.at(1), env); }
            return eval(s.k.at(2), e);
        }
        auto n = s.k.size();
        // short-circuit evaluation keeps the number of paths small
        if (op == "and") { for (std::size_t i = 1; i < n; ++i) { if (!B(eval(s.k[i], env))) { return false; } } return true; }
        if (op == "or") { for (std::size_t i = 1; i < n; ++i) { if (B(eval(s.k[i], env))) { return true; } } return false; }
        if (op == "=>") { for (std::size_t i = 1; i + 1 < n; ++i) { if (!B(eval(s.k[i], env))) { return true; } } return B(eval(s.k[n - 1], env)); }
        if (op == "ite") { return eval(B(eval(s.k.at(1), env)) ? s.k.at(2) : s.k.at(3), env); }
        std::vector<Sym> v;
        for (std::size_t i = 1; i < n; ++i) { v.push_back(eval(s.k[i], env)); }
        if (op == "not") { return !B(v.at(0)); }
        if (op == "xor") { bool r = false; for (auto& x : v) { r = r != B(x); } return r; }
        if (op == "=") { for (std::size_t i = 0; i + 1 < v.size(); ++i) { if (!equal(v[i], v[i + 1])) { return false; } } return true; }
        if (op == "distinct") { for (std::size_t i = 0; i < v.size(); ++i) { for (std::size_t j = i + 1; j < v.size(); ++j) { if (equal(v[i], v[j])) { return false; } } } return true; }
        if (op == "<" || op == "<=" || op == ">" || op == ">=")
        {
            for (std::size_t i = 0; i + 1 < v.size(); ++i)
            {
                bool less = op[0] == '<';
                Lin d = R(less ? v[i] : v[i + 1]);
                d.add(R(less ? v[i + 1] : v[i]), -1);
                if (!test(d, op.size() == 2 ? Rel::le : Rel::lt)) { return false; }
            }
            return true;
        }
        if (op == "+") { Lin r; for (auto& x : v) { r.add(R(x)); } return r; }
        if (op == "-") { if (v.size() == 1) { return R(v[0]).scaled(-1); } Lin r = R(v.at(0)); for (std::size_t i = 1; i < v.size(); ++i) { r.add(R(v[i]), -1); } return r; }
        if (op == "*")
        {
            Lin r(Q(1));
            for (auto& x : v)
            {
                auto const& l = R(x);
                if (l.constant()) { r = r.scaled(l.c); }
                else if (r.constant()) { r = l.scaled(r.c); }
                else { throw Eval_error("non-linear"); }
            }
            return r;
        }
        if (op == "/")
        {
            Lin r = R(v.at(0));
            for (std::size_t i = 1; i < v.size(); ++i)
            {
                auto const& l = R(v[i]);
                if (!l.constant() || l.c == 0) { throw Eval_error("division"); }
                r = r.scaled(1 / l.c);
            }
            return r;
        }
        if (auto it = p.funs.find(op); it != p.funs.end())
        {
            Env e;
            for (std::size_t i = 0; i < v.size(); ++i) { e[it->second.params.at(i).first] = v[i]; }
            return eval(it->second.body, e);
        }
        auto d = p.decls.find(op);
        if (d == p.decls.end()) { throw Eval_error("undeclared function " + op); }
        for (auto& app : apps[op])
        {
            bool same = true;
            for (std::size_t i = 0; i < v.size() && same; ++i) { same = equal(app.args[i], v[i]); }
            if (same) { return app.value; }
        }
        auto r = fresh(d->second.ret);
        apps[op].push_back({v, r});
        return r;
    }
};

} // namespace

Decision decide(Problem const& p, std::uint64_t max_paths)
{
    std::vector<Path::Choice> choices;
    std::uint64_t paths = 0;
    for (;;)
    {
        Path path(p, choices);
        ++paths;
        try
        {
            for (auto& a : p.asserts) { path.assume(a, true, {}); }
            return {true, false, paths};
        }
        catch (Pruned const&)
        {
        }
        while (!choices.empty() && choices.back().taken + 1 >= choices.back().ok.size()) { choices.pop_back(); }
        if (choices.empty()) { return {false, false, paths}; }
        ++choices.back().taken;
        if (paths >= max_paths) { return {false, true, paths}; }
    }
}

namespace {
char sort_of(S const& s)
{
    if (s.is("Real")) { return 'R'; }
    if (s.is("Bool")) { return 'B'; }
    throw Parse_error("unknown sort " + s.str());
}
}

// the same script is judged once per option combination
static Decision decide_cached(std::string const& script, std::size_t check, Problem const& p)
{
    static std::string last_script;
    static std::map<std::size_t, Decision> last;
    if (script != last_script) { last_script = script; last.clear(); }
    auto it = last.find(check);
    if (it == last.end()) { it = last.emplace(check, decide(p)).first; }
    return it->second;
}

std::string judge_script(std::string const& script, std::string const& output, Judge& j)
{
    std::vector<S> cmds = read_all(script), out;
    try
    {
        out = read_all(output);
    }
    catch (Parse_error const& e)
    {
        return std::string("output is not readable: ") + e.what() + "\noutput:\n" + output;
    }
    std::size_t o = 0;
    Problem p;
    std::string last;
    std::size_t checked = 0; // number of assertions made before the last check-sat
    auto bad = [&](std::string const& m) { return m + "\noutput:\n" + output; };
    for (auto& c : cmds)
    {
        if (!c.list || c.k.empty()) { return bad("harness: bad command"); }
        auto const& name = c.k[0].a;
        if (name == "declare-const") { p.decls[c.k.at(1).a] = {{}, sort_of(c.k.at(2))}; }
        else if (name == "declare-fun")
        {
            Decl d;
            for (auto& s : c.k.at(2).k) { d.args.push_back(sort_of(s)); }
            d.ret = sort_of(c.k.at(3));
            p.decls[c.k.at(1).a] = d;
        }
        else if (name == "define-fun")
        {
            Fun f;
            for (auto& s : c.k.at(2).k) { f.params.emplace_back(s.k.at(0).a, sort_of(s.k.at(1))); }
            f.ret = sort_of(c.k.at(3));
            f.body = c.k.at(4);
            p.funs[c.k.at(1).a] = f;
        }
        else if (name == "assert") { p.asserts.push_back(c.k.at(1)); }
        else if (name == "check-sat")
        {
            if (o >= out.size()) { return bad("no answer to check-sat"); }
            auto& a = out[o++];
            last = a.str();
            checked = p.asserts.size();
            if (last == "sat") { ++j.sats; }
            else if (last == "unsat") { ++j.unsats; }
            else { return bad("answer to check-sat: " + last); }
            bool has_model = false;
            for (auto& d : cmds) { if (&d == &c + 1 && d.k.size() == 1 && d.k[0].is("get-model")) { has_model = true; } }
            if (last == "unsat" || (j.check_sat_by_oracle || !has_model))
            {
                if (j.want == Judge::models_only) { continue; }
                auto d = j.expected ? Decision{*j.expected, false, 0} : decide_cached(script, o, p);
                if (d.capped) { j.capped = true; }
                else if (d.sat != (last == "sat"))
                {
                    return bad(std::string("check-sat answered ") + last + " but the assertions are " + (d.sat ? "satisfiable" : "unsatisfiable"));
                }
            }
        }
        else if (name == "get-model")
        {
            if (o >= out.size()) { return bad("no answer to get-model"); }
            auto& m = out[o++];
            if (last != "sat")
            {
                if (j.want != Judge::verdicts && (!m.list || m.k.empty() || !m.k[0].is("error"))) { return bad("get-model without a sat answer must be an error"); }
                continue;
            }
            // the standard has no model for changed assertions; a model of the checked ones may be printed
            bool stale = checked != p.asserts.size();
            if (!m.list || (!m.k.empty() && m.k[0].is("error")))
            {
                if (j.want == Judge::verdicts || stale) { continue; }
                return bad("no model after sat");
            }
            ++j.models;
            auto check_model = [&]() -> std::string {
                Evaluator ev;
                ev.funs = p.funs;
                std::set<std::string> seen;
                for (auto& d : m.k)
                {
                    try
                    {
                        if (!d.list || d.k.size() != 5 || !d.k[0].is("define-fun") || d.k[1].list || !d.k[2].list) { return std::string("malformed model entry " + d.str()); }
                        auto dn = d.k[1].a;
                        if (!seen.insert(dn).second) { return std::string("two model entries for " + dn); }
                        auto it = p.decls.find(dn);
                        if (it == p.decls.end()) { return std::string("model entry for undeclared symbol " + dn); }
                        Fun f;
                        for (auto& s : d.k[2].k) { f.params.emplace_back(s.k.at(0).a, sort_of(s.k.at(1))); }
                        f.ret = sort_of(d.k[3]);
                        f.body = d.k[4];
                        if (f.ret != it->second.ret || f.params.size() != it->second.args.size()) { return std::string("model entry of wrong sort: " + d.str()); }
                        for (std::size_t i = 0; i < f.params.size(); ++i)
                        {
                            if (f.params[i].second != it->second.args[i]) { return std::string("model entry of wrong sort: " + d.str()); }
                        }
                        if (f.params.empty())
                        {
                            Evaluator plain;
                            auto v = plain.eval(f.body);
                            if (std::holds_alternative<bool>(v) != (f.ret == 'B')) { return std::string("model value of wrong sort: " + d.str()); }
                            ev.consts[dn] = v;
                        }
                        else { ev.funs[dn] = f; }
                    }
                    catch (std::exception const& e)
                    {
                        return std::string("malformed model entry " + d.str() + ": " + e.what());
                    }
                }
                // symbols without an entry may have any value: try two
                for (int variant = 0; variant < 2; ++variant)
                {
                    bool used = false;
                    ev.missing = [&](std::string const& n) -> Value {
                        used = true;
                        auto it = p.decls.find(n);
                        if (it == p.decls.end()) { throw Eval_error("undeclared " + n); }
                        if (it->second.ret == 'B') { return variant == 1; }
                        return variant ? Q(100003, 7) : Q(0);
                    };
                    ev.missing_fun = [&](std::string const& n, std::vector<Value> const&) -> Value {
                        return ev.missing(n);
                    };
                    for (std::size_t ai = 0; ai < checked; ++ai)
                    {
                        auto& a = p.asserts[ai];
                        try
                        {
                            auto v = ev.eval(a);
                            if (!std::get<bool>(v)) { return std::string("the model does not satisfy " + a.str()); }
                        }
                        catch (std::exception const& e)
                        {
                            return std::string("the model cannot be evaluated on " + a.str() + ": " + e.what());
                        }
                    }
                    if (!used) { break; }
                }
                return "";
            };
            auto msg = check_model();
            if (msg.empty()) { continue; }
            if (j.want != Judge::verdicts) { return bad(msg); }
            // a bad model counts here only if the answer itself is wrong
            auto d = j.expected ? Decision{*j.expected, false, 0} : decide_cached(script, o, p);
            if (d.capped) { j.capped = true; }
            else if (!d.sat) { return bad("check-sat answered sat but the assertions are unsatisfiable"); }
        }
        else if (name == "exit") { break; }
    }
    if (o != out.size()) { return bad("unexpected output: " + out[o].str()); }
    return "";
}

} // namespace ref
