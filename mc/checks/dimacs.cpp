// C19: the propositional program on all bounded layouts of bounded formulas and on all bounded malformed files.
#include "cnf.h"
#include "proc.h"
#include <gmpxx.h>
#include <map>
#include <memory>

extern "C++" int mc_sat_main(int, char**) asm("mc_sat_main");

using namespace mc;

namespace {

enum Answer { is_unsat, is_sat, input_error, open };

std::vector<std::string> words(std::string const& s)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : s + " ")
    {
        if (c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f') { if (!cur.empty()) { r.push_back(cur); cur.clear(); } }
        else { cur += c; }
    }
    return r;
}
bool number(std::string const& w)
{
    std::size_t i = w[0] == '-';
    return w.size() > i && std::all_of(w.begin() + i, w.end(), [](char c) { return '0' <= c && c <= '9'; });
}

// what the file says; `open` if the format leaves it open
Answer read_reference(std::string const& text)
{
    bool header = false, error = false, unclear = false;
    long vars = 0, count = 0;
    std::vector<std::vector<int>> clauses;
    std::vector<int> cur;
    bool partial = false;
    for (auto& line : lines(text))
    {
        auto w = words(line);
        if (w.empty()) { continue; }
        if (w[0][0] == 'c') { if (w[0] != "c") { unclear = true; } continue; }
        if (w[0][0] == 'p')
        {
            if (w.size() == 4 && w[0] == "p" && w[1] == "cnf" && number(w[2]) && number(w[3]) && w[2][0] != '-' && w[3][0] != '-')
            {
                if (header) { error = true; continue; }
                header = true;
                vars = std::stol(w[2]);
                count = std::stol(w[3]);
            }
            else if (w.size() > 3) { unclear = true; }
            else if (header) { unclear = true; } // a broken second problem line
            // otherwise there is no problem line here
            continue;
        }
        for (auto& x : w)
        {
            // the SATLIB files end with a line "%" and a line "0"
            if (x == "%" && w.size() == 1 && header && (long)clauses.size() >= count) { continue; }
            if (!number(x)) { unclear = true; continue; }
            if (!header) { error = true; continue; }
            mpz_class v(x);
            if (abs(v) > vars) { error = true; continue; }
            int l = (int)v.get_si();
            if (l == 0) { if (x != "0") { unclear = true; } if ((long)clauses.size() < count || !cur.empty()) { clauses.push_back(cur); } cur.clear(); partial = false; }
            else { cur.push_back(l); partial = true; }
        }
    }
    if (unclear) { return open; }
    if (!header || error || (long)clauses.size() < count) { return input_error; }
    if ((long)clauses.size() > count || partial) { return open; } // more than declared
    for (int a = 0; a < (1 << std::min(vars, 20l)); ++a)
    {
        bool ok = true;
        for (auto& c : clauses)
        {
            ok = ok && std::any_of(c.begin(), c.end(), [&](int l) { return ((a >> (std::abs(l) - 1)) & 1) == (l > 0); });
        }
        if (ok) { return is_sat; }
        if (vars > 6 && a >= 63) { break; } // only the first six variables occur in such files
    }
    return is_unsat;
}

void judge(std::string const& text, Ended const& e)
{
    transitions();
    traces();
    auto want = read_reference(text);
    state(mix(hash(text), want));
    auto ls = lines(e.out);
    bool s = std::find(ls.begin(), ls.end(), "SAT") != ls.end(), u = std::find(ls.begin(), ls.end(), "UNSAT") != ls.end();
    std::string seen = "\noutput: " + visible(e.out.substr(0, 80)) + "\ndiagnostic: " + visible(e.err.substr(0, 200)) + "\nstatus: " + (e.signaled ? "signal " : "") + std::to_string(e.status)
                     + "\nfile: " + visible(text);
    if (e.signaled) { fail("the program crashed" + seen); }
    if (want == open) { outcome(3); return; }
    if (want == input_error)
    {
        outcome(2);
        if (s || u) { fail("a malformed file was answered" + seen); }
        if (e.status == 0 || e.status == 1) { fail("the exit status of a malformed file is that of an answer" + seen); }
        if (e.err.empty()) { fail("a malformed file was not reported" + seen); }
        return;
    }
    outcome(want);
    if (want == is_sat && (!s || u || e.status != 1)) { fail("the formula is satisfiable, the program says otherwise" + seen); }
    if (want == is_unsat && (!u || s || e.status != 0)) { fail("the formula is unsatisfiable, the program says otherwise" + seen); }
    if (!e.err.empty()) { fail("a diagnostic for a well-formed file" + seen); }
}

Ended run_text(std::string const& text)
{
    static Memory_file f;
    f.write(text);
    return run_main(mc_sat_main, {"sat", f.path()});
}
void check_text(std::string const& text) { judge(text, run_text(text)); }

std::vector<Lits> const small_clauses = {{}, {1}, {-1}, {2}, {1, 2}, {-1, -2}, {1, -2}, {-2, 1}, {1, -1}, {1, 1}, {2, -2, 1}, {-2, -2}};

struct Layout { std::string text; };
std::string layout(Chooser& c, std::vector<Lits> const& f, int vars, bool crlf)
{
    static char const* const pre[] = {"", "c x\n", "\n", "c\n\nc p cnf 1 1\n", " c 1 0\n"};
    static char const* const problem[] = {"p cnf ", "p  cnf ", "p\tcnf\t", "  p cnf   ", "\tp cnf "};
    static int const extra_vars[] = {0, 1, 40};
    static char const* const end_problem[] = {"\n", " \n", "\n\n", "\nc x\n", "\n "};
    static char const* const gap[] = {" ", "\n", "\t", "  ", "\n\n", "\nc 2 0\n", " \n ", "\n c\n\t"};
    static char const* const end[] = {"\n", "", "\nc x\n", "\n%\n0\n", " ", "\nc", "\n\n%\n0\n\n"};
    std::string r = pre[c.choose(5)];
    r += problem[c.choose(5)];
    r += std::to_string(vars + extra_vars[c.choose(3)]) + std::string(c.choose(2) ? "  " : " ") + std::to_string(f.size());
    if (f.empty()) { r += end[c.choose(6)]; return r; }
    r += end_problem[c.choose(5)];
    std::vector<std::string> toks;
    for (auto& k : f) { for (int l : k) { toks.push_back(std::to_string(l)); } toks.push_back("0"); }
    for (std::size_t i = 0; i < toks.size(); ++i) { r += toks[i] + (i + 1 == toks.size() ? end[c.choose(7)] : gap[c.choose(8)]); }
    if (crlf) { std::string q; for (char x : r) { if (x == '\n') { q += '\r'; } q += x; } r = q; }
    return r;
}

std::vector<std::vector<Lits>> sequences(std::vector<Lits> const& from, int max)
{
    std::vector<std::vector<Lits>> r{{}}, cur{{}};
    for (int n = 1; n <= max; ++n)
    {
        std::vector<std::vector<Lits>> next;
        for (auto& s : cur) { for (auto& k : from) { auto t = s; t.push_back(k); next.push_back(t); } }
        r.insert(r.end(), next.begin(), next.end());
        cur = next;
    }
    return r;
}

using List = std::shared_ptr<std::vector<std::vector<Lits>>>;
List make(std::vector<std::vector<Lits>> v) { return std::make_shared<std::vector<std::vector<Lits>>>(std::move(v)); }
std::string plain(std::vector<Lits> const& f, int vars, long count)
{
    std::string r = "p cnf " + std::to_string(vars) + " " + std::to_string(count) + "\n";
    for (auto& c : f) { for (int l : c) { r += std::to_string(l) + " "; } r += "0\n"; }
    return r;
}

// all strings of `len` pieces after `prefix`
void strings(std::string name, std::string prefix, std::vector<std::string> pieces, int len, std::string suffix = "")
{
    std::uint64_t total = 1, block = 1;
    for (int i = 0; i < len; ++i) { total *= pieces.size(); }
    for (int i = 0; i < std::min(len, 2); ++i) { block *= pieces.size(); }
    auto text = [=](std::uint64_t i) {
        std::string r = prefix;
        for (int k = 0; k < len; ++k) { r += pieces[i % pieces.size()]; i /= pieces.size(); }
        return r + suffix;
    };
    add({name, total / block, [=](std::uint64_t i) { for (std::uint64_t k = 0; k < block; ++k) { check_text(text(i * block + k)); } },
         [=](std::uint64_t i) { return "files " + std::to_string(i * block) + ".. starting with " + visible(text(i * block)); }});
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    {
        auto fs = make(sequences(small_clauses, 2));
        for (bool crlf : {false, true})
        {
            int dev = crlf ? 1 : t ? 3 : -2;
            add({crlf ? "layouts-crlf" : "layouts", fs->size(), [=](std::uint64_t i) { explore([&](Chooser& ch) { check_text(layout(ch, (*fs)[i], 2, crlf)); }, dev > 0 ? dev : (*fs)[i].size() < 2 || i % 8 == 0 ? 2 : 1); },
                 [=](std::uint64_t i) { return "all layouts with up to " + std::to_string(std::abs(dev)) + " deviations of\n" + plain((*fs)[i], 2, (*fs)[i].size()); }, 200});
        }
    }
    {
        // every clause sequence over three variables, with every number declared
        std::vector<Lits> all;
        for (int m = 0; m < 27; ++m) { Lits k; for (int v = 0, q = m; v < 3; ++v, q /= 3) { if (q % 3) { k.push_back(q % 3 == 1 ? v + 1 : -v - 1); } } all.push_back(k); }
        auto fs = make(sequences(all, t ? 3 : 2));
        add({"formulas", fs->size(), [=](std::uint64_t i) {
                 auto& f = (*fs)[i];
                 for (int vars : {3, 2, 4, 0}) { for (long d : {0, 1, -1}) { if ((long)f.size() + d >= 0) { check_text(plain(f, vars, f.size() + d)); } } }
             }, [=](std::uint64_t i) { return plain((*fs)[i], 3, (*fs)[i].size()); }});
        auto real = make(sequences(small_clauses, 1));
        add({"program", real->size(), [=](std::uint64_t i) {
                 for (auto& k : small_clauses)
                 {
                     auto f = (*real)[i];
                     f.push_back(k);
                     Memory_file file;
                     auto text = plain(f, 2, f.size());
                     file.write(text);
                     judge(text, run_program(std::string(getenv("MC_BUILD")) + "/sat", {"sat", file.path()}));
                 }
             }, [=](std::uint64_t i) { return "the program itself, one clause after\n" + plain((*real)[i], 2, (*real)[i].size()); }});
    }
    for (int n = 0; n <= (t ? 6 : 4); ++n) { strings("tokens-" + std::to_string(n), "p cnf 2 2\n", {"1 ", "-2 ", "0 ", "3 ", "\n", "p cnf 2 2\n", "\nc 0\n", "\n%\n0\n"}, n); }
    for (int n = 0; n <= (t ? 6 : 5); ++n) { strings("free-tokens-" + std::to_string(n), "", {"p cnf 1 1\n", "p cnf 2 1\n", "1 ", "-2 ", "0 ", "\n"}, n); }
    for (int n = 1; n <= (t ? 5 : 4); ++n)
    {
        strings("big-" + std::to_string(n), "p cnf 3 2\n", {"1 ", "0\n", "4 ", "-4 ", "2147483648 ", "-2147483649 ", "4294967297\n", "99999999999999999999 ", "-2147483648\n"}, n);
        strings("problem-line-" + std::to_string(n), "", {"p ", "cnf ", "2 ", "1 ", "dnf ", "x ", "-1 "}, n, "\n1 0\n");
    }
    add({"usage", 6, [](std::uint64_t i) {
             static Memory_file good, empty;
             good.write("p cnf 1 1\n1 0\n");
             empty.write("");
             std::vector<std::vector<std::string>> const args = {{"sat"}, {"sat", "/nonexistent/file.cnf"}, {"sat", "/"}, {"sat", ""}, {"sat", good.path(), good.path()}, {"sat", empty.path()}};
             auto e = run_main(mc_sat_main, args[i]);
             transitions();
             traces();
             auto ls = lines(e.out);
             bool answer = std::any_of(ls.begin(), ls.end(), [](auto& l) { return l == "SAT" || l == "UNSAT"; });
             if (e.signaled || answer || e.status == 0 || e.status == 1 || e.err.empty()) { fail("no formula was given, the program answers or is silent: " + visible(e.out + e.err) + " status " + std::to_string(e.status)); }
         }, [](std::uint64_t i) { return "usage " + std::to_string(i); }});
    // clauses of every width, with every literal in every position
    add({"wide", 40, [](std::uint64_t i) {
             int n = (int)i + 1;
             for (int sign : {1, -1})
             {
                 std::vector<Lits> f(1);
                 for (int v = 1; v <= n; ++v) { f[0].push_back(sign * v); }
                 for (int v = 1; v <= n; ++v) { f.push_back({-sign * v}); }
                 for (int leave = 0; leave <= n; ++leave)
                 {
                     auto g = f;
                     if (leave) { g.erase(g.begin() + leave); }
                     for (int extra : {0, 7})
                     {
                         auto text = plain(g, n + extra, g.size());
                         auto e = run_text(text);
                         transitions();
                         traces();
                         auto ls = lines(e.out);
                         bool s = std::find(ls.begin(), ls.end(), "SAT") != ls.end(), u = std::find(ls.begin(), ls.end(), "UNSAT") != ls.end();
                         bool want = leave > 0;
                         if (s != want || u == want || e.status != want || !e.err.empty()) { fail("wrong answer for " + visible(text) + ": " + visible(e.out + e.err)); }
                         outcome(want);
                     }
                 }
             }
         }, [](std::uint64_t i) { return "one wide clause and units, " + std::to_string(i + 1) + " variables"; }});
}
