// Controlled search with uninterpreted functions: the real Yaga stack (internalizer, BCP, LRA, UF) under chosen schedules.
#ifndef MC_UF_SEARCH_H
#define MC_UF_SEARCH_H
#include "Solver_wrapper.h"
#include "Yaga.h"
#include "search.h"

namespace mc {

// real variable of a UF pool: a constant or an application; Boolean ones have values 0 and 1
struct Uf_arg { std::vector<std::pair<int, long>> lin; long c = 0; int boolean = -1; /* 2: constant true, 3: constant false */ };
struct Uf_var { std::string name; std::string fun; std::vector<Uf_arg> args; bool boolean = false; };

struct Uf_pool : Pool {
    std::vector<Uf_var> vars;
    std::string arg_str(Uf_arg const& a) const
    {
        if (a.boolean == -2) { return "true"; }
        if (a.boolean == -3) { return "false"; }
        if (a.boolean >= 0) { return text(a.boolean); }
        std::string s = "(+";
        for (auto [v, c] : a.lin) { s += c == 1 ? " " + text(v) : " (* " + num_str(c) + " " + text(v) + ")"; }
        s += a.c || a.lin.empty() ? " " + num_str(a.c) : "";
        if (a.lin.size() == 1 && a.lin[0].second == 1 && a.c == 0) { return text(a.lin[0].first); }
        if (a.lin.empty()) { return num_str(a.c); }
        return s + ")";
    }
    std::string text(int v) const
    {
        auto& x = vars[v];
        if (x.fun.empty()) { return x.name; }
        std::string s = "(" + x.fun;
        for (auto& a : x.args) { s += " " + arg_str(a); }
        return s + ")";
    }
    std::string atom_text(Atom const& a) const
    {
        if (a.lin.size() == 1 && vars[a.lin[0].first].boolean) { return text(a.lin[0].first); }
        std::string s = "(+";
        for (auto [v, c] : a.lin) { s += c == 1 ? " " + text(v) : " (* " + num_str(c) + " " + text(v) + ")"; }
        return std::string(a.rel == '<' ? "(< " : a.rel == 'l' ? "(<= " : "(= ") + (a.lin.size() == 1 ? s.substr(3) : s + ")") + " " + num_str(a.rhs, a.den) + ")";
    }
    std::string uf_script(Cnf const& f) const
    {
        std::string s = "(set-logic QF_UFLRA)\n";
        std::map<std::string, bool> done;
        for (auto& v : vars)
        {
            auto n = v.fun.empty() ? v.name : v.fun;
            if (!done.emplace(n, true).second) { continue; }
            s += "(declare-fun " + n + " (";
            for (auto& a : v.args) { s += a.boolean != -1 ? " Bool" : " Real"; }
            s += std::string(") ") + (v.boolean ? "Bool" : "Real") + ")\n";
        }
        for (auto& c : f.clauses)
        {
            std::string t;
            for (int l : c) { auto a = atom_text(atoms[std::abs(l) - 1]); t += (t.empty() ? "" : " ") + (l < 0 ? "(not " + a + ")" : a); }
            s += "(assert " + (c.empty() ? std::string("false") : c.size() == 1 ? t : "(or " + t + ")") + ")\n";
        }
        return s + "(check-sat)\n(get-model)\n";
    }
    ref::Lin lin(Uf_arg const& a) const
    {
        if (a.boolean == -2) { return ref::Lin(ref::Q(1)); }
        if (a.boolean == -3) { return ref::Lin(ref::Q(0)); }
        if (a.boolean >= 0) { return ref::Lin::var(a.boolean); }
        ref::Lin l(ref::Q(a.c));
        for (auto [v, c] : a.lin) { l.add(ref::Lin::var(v), ref::Q(c)); }
        return l;
    }
    void axioms()
    {
        splits.clear();
        for (std::size_t i = 0; i < vars.size(); ++i)
        {
            if (!vars[i].boolean) { continue; }
            auto one = ref::Lin::var(i);
            one.c = -1;
            splits.push_back({{{ref::Lin::var(i), ref::Rel::eq}}, {{one, ref::Rel::eq}}});
        }
        for (std::size_t i = 0; i < vars.size(); ++i)
        {
            for (std::size_t j = i + 1; j < vars.size(); ++j)
            {
                if (vars[i].fun.empty() || vars[i].fun != vars[j].fun) { continue; }
                std::vector<std::vector<ref::Con>> alts;
                std::vector<ref::Con> all;
                for (std::size_t k = 0; k < vars[i].args.size(); ++k)
                {
                    auto d = lin(vars[i].args[k]).add(lin(vars[j].args[k]), -1);
                    if (!d.constant() || d.c != 0) { alts.push_back({{d, ref::Rel::lt}}); alts.push_back({{d.scaled(-1), ref::Rel::lt}}); }
                    all.push_back({d, ref::Rel::eq});
                }
                auto r = ref::Lin::var(i).add(ref::Lin::var(j), -1);
                all.push_back({r, ref::Rel::eq});
                alts.push_back(all);
                splits.push_back(alts);
            }
        }
    }
};

inline Uf_pool make_uf_pool(std::string name, std::vector<Uf_var> vars, std::vector<Atom> atoms)
{
    Uf_pool p;
    p.name = std::move(name);
    p.vars = std::move(vars);
    p.atoms = std::move(atoms);
    p.axioms();
    p.compute();
    p.reals = p.vars.size();
    return p;
}

class Uf_monitor_theory final : public yaga::Theory {
public:
    std::function<Monitor&()> get;
    std::vector<Clause> propagate(Database& db, Trail& t) override { get().entry(db, t); return {}; }
    void decide(Database&, Trail&, Variable) override {}
    void on_before_backtrack(Database& db, Trail& t, int l) override { get().before_backtrack(db, t, l); }
    void on_learned_clause(Database&, Trail& t, Clause const& c) override { get().on_learned(t, c); }
    void on_conflict_resolved(Database&, Trail& t, Clause const& c) override { get().resolved(t, c); }
    void on_restart(Database& db, Trail& t) override { get().restart(db, t); }
};

struct Uf_search final : yaga::Initializer {
    Uf_pool const& p;
    Cnf const& f;
    Controls& ctl;
    Pool_oracle& oracle;
    bool deduce, prop_rational;
    mutable yaga::Linear_arithmetic* lra = nullptr;
    mutable Controlled_order* order = nullptr;
    mutable std::unique_ptr<Monitor> mon;
    yaga::terms::Term_manager tm;
    yaga::parser::Internalizer_config cfg;
    yaga::terms::Visitor<yaga::parser::Internalizer_config> visitor;
    yaga::Yaga yaga;
    std::vector<yaga::terms::term_t> terms;
    std::vector<Literal> lits;

    Uf_search(Uf_pool const& p, Cnf const& f, Controls& ctl, Pool_oracle& oracle, bool deduce, bool prop_rational)
        : p(p), f(f), ctl(ctl), oracle(oracle), deduce(deduce), prop_rational(prop_rational), cfg(tm, yaga), visitor(tm, cfg), yaga(tm, cfg.rational_vars(), cfg.bool_vars())
    {
        yaga::Options o;
        yaga.set_logic(*this, o);
        std::map<std::string, yaga::terms::term_t> syms;
        auto sym = [&](std::string const& n, bool b) {
            auto it = syms.find(n);
            if (it == syms.end()) { it = syms.emplace(n, tm.mk_uninterpreted_constant(b ? yaga::terms::types::bool_type : yaga::terms::types::real_type)).first; }
            return it->second;
        };
        auto poly = [&](std::vector<std::pair<int, long>> const& lin, long c) {
            std::vector<yaga::terms::term_t> ts;
            for (auto [v, k] : lin)
            {
                std::vector<yaga::terms::term_t> m{number(k), terms[v]};
                ts.push_back(k == 1 ? terms[v] : tm.mk_arithmetic_times(m));
            }
            if (c || ts.empty()) { ts.push_back(number(c)); }
            return ts.size() == 1 ? ts[0] : tm.mk_arithmetic_plus(ts);
        };
        for (auto& v : p.vars)
        {
            if (v.fun.empty()) { terms.push_back(sym(v.name, v.boolean)); continue; }
            std::vector<yaga::terms::term_t> args{sym(v.fun, v.boolean)};
            for (auto& a : v.args) { args.push_back(a.boolean == -2 ? yaga::terms::true_term : a.boolean == -3 ? yaga::terms::false_term : a.boolean >= 0 ? terms[a.boolean] : poly(a.lin, a.c)); }
            terms.push_back(tm.mk_app(args));
        }
        std::vector<bool> used(p.atoms.size());
        for (auto& c : f.clauses) { for (int l : c) { used[std::abs(l) - 1] = true; } }
        oracle.lit_of.clear();
        oracle.real_of.clear();
        oracle.bool_of.clear();
        for (std::size_t i = 0; i < p.atoms.size(); ++i)
        {
            auto& a = p.atoms[i];
            if (!used[i]) { lits.emplace_back(); continue; }
            yaga::terms::term_t t;
            if (a.lin.size() == 1 && p.vars[a.lin[0].first].boolean) { t = terms[a.lin[0].first]; }
            else
            {
                auto l = poly(a.lin, 0);
                auto r = number(a.rhs);
                t = a.rel == '<' ? tm.mk_arithmetic_lt(l, r) : a.rel == 'l' ? tm.mk_arithmetic_leq(l, r) : tm.mk_arithmetic_eq(l, r);
            }
            std::vector<yaga::terms::term_t> roots{t};
            visitor.visit(roots);
            auto lit = *cfg.get_literal_for(tm.positive_term(t));
            if (tm.is_negated(t)) { lit.negate(); }
            lits.push_back(lit);
            oracle.lit_of.emplace(lit.var().ord(), lit.is_negation() ? -(int)(i + 1) : (int)(i + 1));
        }
        for (std::size_t v = 0; v < p.vars.size(); ++v)
        {
            for (auto [t, o] : cfg.rational_vars()) { if (t == terms[v]) { oracle.real_of.emplace(o, (int)v); } }
            if (p.vars[v].boolean)
            {
                // Boolean terms that are only arguments have no literal in the pool: add them as pseudo constraints
                for (auto [t, l] : cfg.bool_vars()) { if (t == terms[v] && !oracle.lit_of.contains(l.var().ord())) { oracle.bool_of.emplace(l.var().ord(), (int)v); } }
            }
        }
        for (auto& c : f.clauses)
        {
            Clause k;
            for (int l : c) { k.push_back(l > 0 ? lits[l - 1] : ~lits[-l - 1]); }
            yaga.solver().db().assert_clause(std::move(k));
        }
        monitor();
    }

    yaga::terms::term_t number(long n) { return n < 0 ? tm.mk_unary_minus(tm.mk_integer_constant(std::to_string(-n))) : tm.mk_integer_constant(std::to_string(n)); }

    void setup(yaga::Yaga* y, yaga::Options const&) const override
    {
        auto& s = y->solver();
        s.trail().set_model<bool>(Variable::boolean, 0);
        s.trail().set_model<Rational>(Variable::rational, 0);
        auto& all = s.set_theory<yaga::Theory_combination>();
        all.add_theory<Uf_monitor_theory>().get = [this]() -> Monitor& { return monitor(); };
        auto& bcp = all.add_theory<yaga::Bool_theory>();
        lra = &all.add_theory<yaga::Linear_arithmetic>();
        yaga::Linear_arithmetic::Options o;
        o.prop_bounds = deduce;
        o.prop_rational = prop_rational;
        lra->set_options(o);
        all.add_theory<yaga::Uninterpreted_functions>(s.tm(), y->real_vars(), y->bool_vars());
        s.set_restart_policy<Controlled_restart>(ctl);
        std::unique_ptr<yaga::Variable_order> real;
        if (ctl.base == 5) { real = std::make_unique<yaga::Generalized_vsids>(*lra); }
        mon = std::make_unique<Monitor>(oracle, lra, deduce, 0);
        order = &s.set_variable_order<Controlled_order>(ctl, *mon, &bcp, std::move(real));
        order->salt = f.hash();
        order->generalized = true;
        order->effectively = prop_rational;
    }
    Monitor& monitor() const { return *mon; }

    bool check()
    {
        bool sat = yaga.solver().check() == yaga::Solver::Result::sat;
        traces();
        outcome(sat);
        return sat;
    }

    // "" iff the final assignment is total, satisfies the instance and makes every function single-valued
    std::string check_model()
    {
        auto& t = yaga.solver().trail();
        for (auto [type, m] : t.models()) { for (int o = 0; o < (int)m->num_vars(); ++o) { if (!m->is_defined(o)) { return "answered sat but variable " + std::to_string(o) + " of type " + std::to_string(type) + " has no value"; } } }
        std::vector<std::optional<ref::Q>> v(p.vars.size());
        for (std::size_t i = 0; i < p.vars.size(); ++i)
        {
            if (p.vars[i].boolean) { for (auto [term, l] : cfg.bool_vars()) { if (term == terms[i]) { v[i] = ref::Q(*Monitor::value(t, l) ? 1 : 0); } } }
            else { for (auto [term, o] : cfg.rational_vars()) { if (term == terms[i]) { v[i] = to_q(t.model<Rational>(Variable::rational).value(o)); } } }
        }
        auto eval = [&](ref::Lin const& l) -> std::optional<ref::Q> {
            ref::Q s = l.c;
            for (std::size_t i = 0; i < l.coef.size(); ++i) { if (l.coef[i] != 0) { if (!v[i]) { return {}; } s += l.coef[i] * *v[i]; } }
            return s;
        };
        std::uint64_t a = 0;
        for (std::size_t i = 0; i < p.atoms.size(); ++i)
        {
            auto s = eval(p.atoms[i].expr());
            if (s && (p.atoms[i].rel == '=' ? *s == 0 : p.atoms[i].rel == '<' ? *s < 0 : *s <= 0)) { a |= 1ull << i; }
        }
        if (!Pool::eval(f, a)) { return "answered sat but the assignment does not satisfy the problem: " + mon->show(t); }
        for (std::size_t i = 0; i < p.vars.size(); ++i)
        {
            for (std::size_t j = i + 1; j < p.vars.size(); ++j)
            {
                if (p.vars[i].fun.empty() || p.vars[i].fun != p.vars[j].fun || !v[i] || !v[j] || *v[i] == *v[j]) { continue; }
                bool same = true;
                for (std::size_t k = 0; k < p.vars[i].args.size(); ++k) { same = same && eval(p.lin(p.vars[i].args[k])) == eval(p.lin(p.vars[j].args[k])); }
                if (same) { return "answered sat but " + p.text(i) + " and " + p.text(j) + " have equal arguments and different values: " + mon->show(t); }
            }
        }
        return "";
    }
};

inline Uf_arg arg(int v) { return {{{v, 1}}}; }

inline std::vector<Uf_pool> uf_pools()
{
    std::vector<Uf_pool> r;
    // 0 x, 1 y, 2 f(x), 3 f(y)
    r.push_back(make_uf_pool("unary", {{"x"}, {"y"}, {"", "f", {arg(0)}}, {"", "f", {arg(1)}}},
        {{{{0, 1}, {1, -1}}, 'l', 0}, {{{1, 1}, {0, -1}}, 'l', 0}, {{{2, 1}, {3, -1}}, '<', 0}, {{{2, 1}}, '=', 1}, {{{3, 1}, {0, -1}}, '=', 0}, {{{0, 1}}, '<', 1}}));
    // 0 x, 1 f(x), 2 f(f(x)), 3 f(f(f(x)))
    r.push_back(make_uf_pool("nested", {{"x"}, {"", "f", {arg(0)}}, {"", "f", {arg(1)}}, {"", "f", {arg(2)}}},
        {{{{2, 1}, {0, -1}}, '=', 0}, {{{3, 1}, {0, -1}}, '=', 0}, {{{1, 1}, {0, -1}}, '=', 0}, {{{1, 1}, {2, -1}}, '<', 0}, {{{0, 1}}, '=', 0}, {{{3, 1}}, 'l', 0}}));
    // 0 x, 1 y, 2 g(x,y), 3 g(y,x), 4 g(x,x)
    r.push_back(make_uf_pool("binary", {{"x"}, {"y"}, {"", "g", {arg(0), arg(1)}}, {"", "g", {arg(1), arg(0)}}, {"", "g", {arg(0), arg(0)}}},
        {{{{0, 1}, {1, -1}}, '=', 0}, {{{2, 1}, {3, -1}}, '<', 0}, {{{4, 1}, {2, -1}}, '=', 0}, {{{0, 1}}, 'l', 0}, {{{1, 1}}, '<', 0}, {{{3, 1}, {0, -1}}, '=', 1}}));
    // 0 x, 1 y, 2 p(x), 3 p(y), 4 b, 5 h(b), 6 h(p(x)), 7 h(true)
    Uf_arg bx, bb, bt;
    bx.boolean = 2;
    bb.boolean = 4;
    bt.boolean = -2;
    r.push_back(make_uf_pool("boolean", {{"x"}, {"y"}, {"", "p", {arg(0)}, true}, {"", "p", {arg(1)}, true}, {"b", "", {}, true}, {"", "h", {bb}}, {"", "h", {bx}}, {"", "h", {bt}}},
        {{{{0, 1}, {1, -1}}, '=', 0}, {{{2, 1}}, '=', 1}, {{{3, 1}}, '=', 1}, {{{4, 1}}, '=', 1}, {{{5, 1}, {6, -1}}, '=', 0}, {{{7, 1}, {5, -1}}, '<', 0}}));
    // 0 x, 1 y, 2 f(x+y), 3 f(2x), 4 f(y+1)
    r.push_back(make_uf_pool("poly", {{"x"}, {"y"}, {"", "f", {{{{0, 1}, {1, 1}}}}}, {"", "f", {{{{0, 2}}}}}, {"", "f", {{{{1, 1}}, 1}}}},
        {{{{0, 1}, {1, -1}}, '=', 0}, {{{2, 1}, {3, -1}}, '=', 0}, {{{4, 1}, {2, -1}}, '<', 0}, {{{0, 1}}, '=', 1}, {{{1, 1}}, '<', 1}, {{{3, 1}, {4, -1}}, 'l', 0}}));
    return r;
}

} // namespace mc
#endif
