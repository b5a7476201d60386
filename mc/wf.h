// Well-formedness of scripts and judgement of whole runs, including ill-formed input. Shares no code with the
// implementation. Three classes: well-formed, ill-formed, and not claimed (constructs on which the language the
// implementation supports and the SMT-LIB standard may reasonably differ).
#ifndef MC_WF_H
#define MC_WF_H
#include "e2e.h"
#include "ref.h"
#include <set>

namespace wf {

using ref::Q;
using ref::S;

enum class Class { ok, bad, unclear };

inline std::set<std::string> const reserved = {"!", "_", "as", "let", "match", "par", "assert", "check-sat", "declare-const",
    "declare-fun", "declare-sort", "define-const", "define-fun", "define-sort", "echo", "exit", "get-assertions", "get-assignment",
    "get-info", "get-model", "get-option", "get-unsat-core", "get-value", "pop", "push", "reset", "set-info", "set-logic",
    "set-option", "exists", "forall", "reset-assertions", "check-sat-assuming", "define-funs-rec", "define-fun-rec",
    "declare-datatype", "declare-datatypes", "get-proof", "get-unsat-assumptions", "lambda", "BINARY", "DECIMAL", "HEXADECIMAL", "NUMERAL", "STRING"};
inline std::set<std::string> const builtin = {"true", "false", "not", "and", "or", "xor", "=>", "=", "distinct", "ite", "<", "<=", ">", ">=",
    "+", "-", "*", "/"};

inline bool simple_symbol(std::string const& a)
{
    if (a.empty() || (a[0] >= '0' && a[0] <= '9')) { return false; }
    for (char c : a)
    {
        bool ok = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || std::string("~!@$%^&*_-+=<>.?/").find(c) != std::string::npos;
        if (!ok) { return false; }
    }
    return true;
}

struct Ty {
    char sort;            // 'B' or 'R', '?' after an error
    std::set<std::string> vars;   // variables of an arithmetic term
    ref::Lin dummy;
    std::map<std::string, Q> poly; // over variables
    Q c = 0;
    bool opaque = false;  // contains ite/application: may or may not be constant
    bool constant() const { return poly.empty() && vars.empty() && !opaque; }
    bool definitely_var() const { return !poly.empty() && !opaque; }
};

class Script_state {
public:
    ref::Problem p;
    bool logic = false, uf = false;
    std::set<std::string> names;

    Class term(S const& s, char want)
    {
        bad = unclear = false;
        auto t = type(s, {});
        if (t.sort != '?' && want && t.sort != want) { bad = true; }
        return unclear ? Class::unclear : bad ? Class::bad : Class::ok;
    }
    // body of a definition
    Class body(S const& s, std::vector<std::pair<std::string, char>> const& params, char want)
    {
        bad = unclear = false;
        Env env;
        for (auto& [n, k] : params)
        {
            Ty t{k};
            if (k == 'R') { t.poly["param " + n] = 1; t.vars.insert("param " + n); }
            env[n] = t;
        }
        auto t = type(s, env);
        if (t.sort != '?' && t.sort != want) { bad = true; }
        return unclear ? Class::unclear : bad ? Class::bad : Class::ok;
    }
private:
    using Env = std::map<std::string, Ty>;
    bool bad = false, unclear = false;

    Ty err() { bad = true; return Ty{'?'}; }
    Ty skip() { unclear = true; return Ty{'?'}; }

    static bool symbol_ok(S const& s) { return !s.list && (s.quoted ? s.a.find('\\') == std::string::npos : simple_symbol(s.a)); }

    Ty type(S const& s, Env const& env)
    {
        if (!s.list)
        {
            if (!s.quoted && ref::is_number(s.a))
            {
                if (s.a.size() > 1 && s.a[0] == '0' && s.a.find('.') != 1) { return skip(); } // leading zeros are not SMT-LIB numerals
                Ty t{'R'};
                t.c = ref::number(s.a);
                return t;
            }
            if (!symbol_ok(s)) { return s.a.empty() || s.a[0] == '#' || s.a[0] == '"' || s.a[0] == ':' ? err() : skip(); }
            if (!s.quoted && reserved.count(s.a)) { return err(); }
            if (s.a == "true" || s.a == "false") { return s.quoted || env.count(s.a) ? skip() : Ty{'B'}; }
            if (auto it = env.find(s.a); it != env.end()) { return it->second; }
            if (auto it = p.funs.find(s.a); it != p.funs.end())
            {
                if (!it->second.params.empty()) { return err(); }
                Ty t{it->second.ret};
                if (t.sort == 'R') { t.opaque = true; }
                return t;
            }
            if (auto it = p.decls.find(s.a); it != p.decls.end())
            {
                if (!it->second.args.empty()) { return err(); }
                Ty t{it->second.ret};
                if (t.sort == 'R') { t.poly[s.a] = 1; t.vars.insert(s.a); }
                return t;
            }
            return builtin.count(s.a) ? err() : err();
        }
        if (s.k.empty() || s.k[0].list) { return err(); }
        auto const& h = s.k[0];
        if (!h.quoted && h.a == "let")
        {
            if (s.k.size() != 3 || !s.k[1].list) { return err(); }
            if (s.k[1].k.empty()) { skip(); }
            Env e = env;
            std::set<std::string> bound;
            for (auto& b : s.k[1].k)
            {
                if (!b.list || b.k.size() != 2 || !symbol_ok(b.k[0]) || (!b.k[0].quoted && reserved.count(b.k[0].a))) { return err(); }
                if (builtin.count(b.k[0].a)) { skip(); }
                if (!bound.insert(b.k[0].a).second) { skip(); }
                e[b.k[0].a] = type(b.k[1], env);
            }
            return type(s.k[2], e);
        }
        if (!h.quoted && (h.a == "!" || h.a == "_" || h.a == "as" || h.a == "match" || h.a == "forall" || h.a == "exists"))
        {
            return err();
        }
        if (!symbol_ok(h) || (!h.quoted && reserved.count(h.a))) { return err(); }
        if (h.quoted && builtin.count(h.a)) { skip(); }
        std::vector<Ty> v;
        bool failed = false;
        for (std::size_t i = 1; i < s.k.size(); ++i) { v.push_back(type(s.k[i], env)); failed |= v.back().sort == '?'; }
        if (env.count(h.a)) { return skip(); }
        if (p.funs.count(h.a) || p.decls.count(h.a))
        {
            std::vector<char> args;
            char ret;
            if (auto it = p.funs.find(h.a); it != p.funs.end()) { ret = it->second.ret; for (auto& [n, k] : it->second.params) { args.push_back(k); } }
            else { args = p.decls[h.a].args; ret = p.decls[h.a].ret; }
            if (args.empty()) { return v.empty() ? skip() : err(); }
            if (args.size() != v.size()) { return err(); }
            for (std::size_t i = 0; i < v.size(); ++i) { if (v[i].sort != '?' && v[i].sort != args[i]) { return err(); } }
            Ty t{ret};
            if (ret == 'R') { t.opaque = true; }
            return failed ? Ty{'?'} : t;
        }
        auto const& op = h.a;
        if (!builtin.count(op) || op == "true" || op == "false") { return err(); }
        auto n = v.size();
        auto all = [&](char k) { for (auto& t : v) { if (t.sort != '?' && t.sort != k) { return false; } } return true; };
        auto ret = [&](char k) { return failed ? Ty{'?'} : Ty{k}; };
        if (op == "not") { return n == 1 && all('B') ? ret('B') : err(); }
        if (op == "and" || op == "or" || op == "xor" || op == "=>") { if (!all('B')) { return err(); } return n >= 2 ? ret('B') : n == 1 ? skip() : skip(); }
        if (op == "ite")
        {
            if (n != 3 || (v[0].sort != '?' && v[0].sort != 'B')) { return err(); }
            if (v[1].sort != '?' && v[2].sort != '?' && v[1].sort != v[2].sort) { return err(); }
            if (failed) { return Ty{'?'}; }
            Ty t{v[1].sort};
            if (t.sort == 'R') { t.opaque = true; }
            return t;
        }
        if (op == "=" || op == "distinct")
        {
            char k = '?';
            for (auto& t : v) { if (t.sort != '?') { if (k != '?' && k != t.sort) { return err(); } k = t.sort; } }
            return n >= 2 ? ret('B') : skip();
        }
        if (!all('R')) { return err(); }
        if (op == "<" || op == "<=" || op == ">" || op == ">=") { return n >= 2 ? ret('B') : skip(); }
        if (failed) { return Ty{'?'}; }
        if (n == 0 || (n == 1 && op != "-")) { return skip(); }
        Ty r{'R'};
        for (auto& t : v) { r.vars.insert(t.vars.begin(), t.vars.end()); }
        auto acc = [&](Ty const& t, Q const& m) {
            for (auto& [x, q] : t.poly) { if ((r.poly[x] += m * q) == 0) { r.poly.erase(x); } }
            r.c += m * t.c;
            r.opaque |= t.opaque;
        };
        if (op == "+") { for (auto& t : v) { acc(t, 1); } }
        else if (op == "-") { for (std::size_t i = 0; i < n; ++i) { acc(v[i], i == 0 && n > 1 ? 1 : -1); } }
        else if (op == "*" || op == "/")
        {
            int def = 0, maybe = 0, zero = 0;
            Q m = 1;
            Ty const* x = nullptr;
            for (std::size_t i = 0; i < n; ++i)
            {
                auto& t = v[i];
                if (op == "/" && i > 0)
                {
                    if (t.constant()) { if (t.c == 0) { return skip(); } m /= t.c; }
                    else if (t.definitely_var()) { def += 2; }
                    else { ++maybe; maybe += 1; }
                    continue;
                }
                if (t.constant()) { m *= t.c; if (t.c == 0 && op == "*") { ++zero; } }
                else { x = &t; if (t.definitely_var()) { ++def; } else { ++maybe; } }
            }
            if (def >= 2) { return zero || maybe ? skip() : err(); }
            if (def + maybe >= 2) { return skip(); }
            if (!x) { r.c = m; }
            else { acc(*x, m); r.c = x->c * m; }
        }
        if (r.poly.empty() && !r.vars.empty()) { r.opaque = true; }
        return r;
    }
};

// Judge a run. Returns a message for a violation, or "" ; cls receives the overall class of the script.
struct Verdict { Class cls = Class::ok; int commands = 0; bool capped = false; int sats = 0, unsats = 0; };

// print_scripts: definition of a judged prefix
inline std::string judge(std::string const& script, mc::Run const& r, Verdict& vd)
{
    Script_state st;
    std::size_t pos = 0;
    std::vector<S> out;
    auto bad = [&](std::string const& m) { return m + "\noutput:\n" + r.out + (r.error.empty() ? "" : "exception: " + r.error); };
    try { out = ref::read_all(r.out); }
    catch (ref::Parse_error const& e) { return bad(std::string("output is not readable: ") + e.what()); }
    std::size_t o = 0;
    bool failed = false; // an ill-formed command was met
    std::string good;    // the well-formed commands so far
    std::string good_out;
    bool last_sat = false, any_check = false, asserted = false;
    auto is_error = [](S const& s) { return s.list && !s.k.empty() && s.k[0].is("error"); };
    auto finish = [&]() -> std::string {
        if (good.empty()) { return ""; }
        ref::Judge j;
        auto m = ref::judge_script(good, good_out, j);
        vd.capped |= j.capped;
        vd.sats += j.sats;
        vd.unsats += j.unsats;
        return m;
    };
    for (;;)
    {
        ref::skip_ws(script, pos);
        if (pos >= script.size()) { break; }
        S c;
        auto pos_before = pos;
        Class k = Class::ok;
        bool rest = false; // the rest of the script cannot be split into commands
        try { c = ref::read_one(script, pos); }
        catch (ref::Parse_error const&) { k = Class::bad; rest = true; }
        ++vd.commands;
        std::string name = c.list && !c.k.empty() && !c.k[0].list && !c.k[0].quoted ? c.k[0].a : "";
        auto sort_ok = [&](S const& s) { return s.is("Real") || s.is("Bool"); };
        auto sort_of = [&](S const& s) { return s.is("Real") ? 'R' : 'B'; };
        auto sym = [&](S const& s, Class& cl) {
            if (s.list || (!s.quoted && (!simple_symbol(s.a) || reserved.count(s.a)))) { cl = Class::bad; }
            else if (builtin.count(s.a)) { cl = Class::unclear; }
        };
        auto meet = [](Class a, Class b) { return a == Class::unclear || b == Class::unclear ? Class::unclear : a == Class::bad || b == Class::bad ? Class::bad : Class::ok; };
        ref::Decl decl;
        ref::Fun fun;
        if (rest)
        {
            // the rest of the input is not read after an exit command, whose end need not be seen
            auto q = script.find("exit", pos_before);
            if (q != std::string::npos) { k = Class::unclear; }
        }
        else if (name.empty()) { k = Class::bad; }
        else if (name == "set-logic")
        {
            if (c.k.size() != 2 || c.k[1].list) { k = Class::bad; }
            else if (!c.k[1].is("QF_LRA") && !c.k[1].is("QF_UFLRA")) { k = Class::bad; }
            else if (c.k[1].quoted) { k = Class::unclear; }
            else if (st.logic) { k = Class::bad; }
        }
        else if (name == "set-info" || name == "set-option")
        {
            if (c.k.size() < 2 || c.k.size() > 3 || c.k[1].list || c.k[1].a.size() < 2 || c.k[1].a[0] != ':' || !simple_symbol(c.k[1].a.substr(1))) { k = Class::bad; }
            else if (c.k.size() == 2 && name == "set-option") { k = Class::unclear; }
            else if (c.k.size() == 3) { k = Class::ok; if (c.k[2].list) { } else if (!c.k[2].quoted && !simple_symbol(c.k[2].a) && !ref::is_number(c.k[2].a)) { k = Class::unclear; } }
            else { k = Class::unclear; }
        }
        else if (name == "declare-const" || name == "declare-fun")
        {
            bool f = name == "declare-fun";
            if (c.k.size() != (f ? 4u : 3u) || (f && !c.k[2].list) || !sort_ok(c.k.back())) { k = Class::bad; }
            else
            {
                sym(c.k[1], k);
                if (f) { for (auto& s : c.k[2].k) { if (!sort_ok(s)) { k = Class::bad; } else { decl.args.push_back(sort_of(s)); } } }
                decl.ret = sort_of(c.k.back());
                if (k != Class::bad && st.names.count(c.k[1].a)) { k = Class::bad; }
                if (k == Class::ok && !decl.args.empty() && !st.uf) { k = st.logic ? Class::bad : Class::unclear; }
                if (k == Class::ok && !st.logic) { k = Class::unclear; }
            }
        }
        else if (name == "define-fun")
        {
            if (c.k.size() != 5 || !c.k[2].list || !sort_ok(c.k[3])) { k = Class::bad; }
            else
            {
                sym(c.k[1], k);
                std::set<std::string> ps;
                for (auto& s : c.k[2].k)
                {
                    if (!s.list || s.k.size() != 2 || !sort_ok(s.k[1])) { k = Class::bad; continue; }
                    Class pk = Class::ok;
                    sym(s.k[0], pk);
                    k = meet(k, pk);
                    if (!ps.insert(s.k[0].a).second) { k = Class::unclear; }
                    fun.params.emplace_back(s.k[0].a, sort_of(s.k[1]));
                }
                fun.ret = sort_of(c.k[3]);
                fun.body = c.k[4];
                if (k != Class::bad) { k = meet(k, st.body(c.k[4], fun.params, fun.ret)); }
                if (k == Class::ok && st.names.count(c.k[1].a)) { k = Class::bad; }
                if (k == Class::ok && !st.logic) { k = Class::unclear; }
            }
        }
        else if (name == "assert") { k = c.k.size() != 2 ? Class::bad : st.term(c.k[1], 'B'); if (k == Class::ok && !st.logic) { k = Class::unclear; } }
        else if (name == "check-sat" || name == "get-model") { k = c.k.size() != 1 ? Class::bad : st.logic || name == "get-model" ? Class::ok : Class::unclear; }
        else if (name == "exit") { k = c.k.size() != 1 ? Class::unclear : Class::ok; }
        else if (reserved.count(name)) { k = Class::unclear; } // commands of SMT-LIB that are not supported here
        else { k = Class::bad; }

        if (k == Class::unclear) { vd.cls = Class::unclear; return ""; }
        if (k == Class::bad)
        {
            if (vd.cls == Class::ok) { vd.cls = Class::bad; }
            failed = true;
            if (o < out.size() && is_error(out[o])) { ++o; if (rest) { break; } continue; }
            // processing must have ended here with an error; a check-sat or get-model with trailing garbage may have printed
            if (name == "set-logic" && o == out.size()) { auto m = finish(); return m.empty() ? "" : bad(m); }
            if (r.error.empty()) { return bad("an ill-formed command was accepted: " + (rest ? std::string("(rest of the script)") : c.str())); }
            bool prints = name == "check-sat" || name == "get-model" || rest;
            if (o < out.size() && !(prints && o + 1 >= out.size())) { return bad("output after an ill-formed command that was not reported: " + c.str()); }
            auto m = finish();
            return m.empty() ? "" : bad(m);
        }
        // well-formed
        bool ended = o >= out.size() && !r.error.empty() && failed;
        if (ended) { break; }
        good += c.str() + "\n";
        if (name == "assert") { asserted = true; }
        if (name == "set-logic") { st.logic = true; st.uf = c.k[1].is("QF_UFLRA"); }
        else if (name == "declare-const" || name == "declare-fun") { st.p.decls[c.k[1].a] = decl; st.names.insert(c.k[1].a); }
        else if (name == "define-fun") { st.p.funs[c.k[1].a] = fun; st.names.insert(c.k[1].a); }
        else if (name == "check-sat")
        {
            if (o >= out.size()) { return bad("no answer to check-sat"); }
            any_check = true;
            asserted = false;
            last_sat = out[o].is("sat");
            good_out += out[o++].str() + "\n";
        }
        else if (name == "get-model")
        {
            if (o >= out.size()) { return bad("no answer to get-model"); }
            if (any_check && last_sat && !asserted && is_error(out[o])) { return bad("error for a well-formed get-model"); }
            good_out += out[o++].str() + "\n";
        }
        else if (name == "exit") { break; }
    }
    auto m = finish();
    if (!m.empty()) { return bad(m); }
    if (o < out.size()) { return bad("unexpected output: " + out[o].str()); }
    if (!failed && !r.error.empty()) { return bad("error on a well-formed script"); }
    return "";
}

} // namespace wf
#endif
