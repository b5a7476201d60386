// C24: the SMT program under all bounded option sequences, files of all layouts and all ways of having no input.
#include "Options.h"
#include "Smt2_parser.h"
#include "proc.h"
#include "ref.h"
#include <map>
#include <sstream>

extern "C++" int mc_smt_main(int, char**) asm("mc_smt_main");

using namespace mc;

namespace {

std::vector<std::string> const scripts = {
    "(set-logic QF_LRA)\n(declare-fun x () Real)\n(declare-fun y () Real)\n(declare-fun p () Bool)\n(assert (or p (< (+ x y) 1)))\n(assert (or (not p) (= x (* 2 y))))\n(assert (<= 0 x))\n(check-sat)\n(get-model)\n",
    "(set-logic QF_LRA)\n(declare-fun x () Real)\n(declare-fun y () Real)\n(assert (or (< x y) (= x y)))\n(assert (or (> x (+ y 1)) (>= (- x y) (/ 1 2))))\n(check-sat)\n",
    "(set-logic QF_UFLRA)\n(declare-fun f (Real) Real)\n(declare-fun a () Real)\n(declare-fun b () Real)\n(assert (or (= a b) (= (f a) 1)))\n(assert (not (= (f a) (f b))))\n(check-sat)\n(get-model)\n",
    "(set-logic QF_LRA)\n(declare-fun p () Bool)\n(declare-fun q () Bool)\n(declare-fun r () Bool)\n(assert (or p q r))\n(assert (or (not p) (not q)))\n(check-sat)\n(get-model)\n",
    "(set-logic QF_LRA)\n(declare-fun x () Real)\n(assert (< x 3))\n(check-sat)\n(assert (< 2 x))\n(check-sat)\n(get-model)\n(assert (= x 2))\n(check-sat)\n(exit)\n(check-sat)\n",
    "(set-logic QF_LRA)\n(declare-fun x () Real)\n(assert (< x z))\n(assert (< x 3))\n(check-sat)\n",
    "(set-logic QF_LRA)\n(declare-fun x () Real)\n(assert (< x 3))\n(check-sat)\n(pop 1)\n(check-sat)\n",
    "(set-logic QF_XYZ)\n(check-sat)\n",
    "",
};
// scripts whose answers can be judged by the reference
bool judged(std::size_t s) { return s <= 4; }

std::string without_stats(std::string const& out)
{
    std::string r;
    for (auto& l : lines(out)) { if (l.find(" = ") == std::string::npos || l.find('(') != std::string::npos) { r += l + "\n"; } }
    return r;
}

struct Interpretation { yaga::Options o; bool ok = true; std::vector<std::string> inputs; };
// the documented meaning of the arguments
Interpretation interpret(std::vector<std::string> const& args)
{
    Interpretation r;
    for (std::size_t i = 1; i < args.size(); ++i)
    {
        auto& a = args[i];
        if (a == "--print-stats") { r.o.print_stats = true; }
        else if (a == "--prop-rational") { r.o.prop_rational = true; }
        else if (a == "--deduce-bounds") { r.o.deduce_bounds = true; }
        else if (a == "--phase")
        {
            std::string v = i + 1 < args.size() ? args[i + 1] : "";
            ++i;
            if (v == "positive") { r.o.phase = yaga::Phase::positive; }
            else if (v == "negative") { r.o.phase = yaga::Phase::negative; }
            else if (v == "cache") { r.o.phase = yaga::Phase::cache; }
            else { r.ok = false; }
        }
        else if (!a.empty() && a[0] == '-') { r.ok = false; }
        else { r.inputs.push_back(a); }
    }
    return r;
}

// what the library prints for the script
Ended library(std::string const& script, yaga::Options const& o)
{
    return in_child([&] {
        std::istringstream in(script);
        try
        {
            yaga::parser::Smt2_parser p;
            p.set_options(o);
            p.parse(in, std::cout);
        }
        catch (std::exception const&) { return 3; }
        return 0;
    });
}
Ended const& library_cached(std::size_t s, yaga::Options const& o)
{
    static std::map<std::tuple<std::size_t, bool, bool, bool, int>, Ended> memo;
    auto key = std::make_tuple(s, o.prop_rational, o.deduce_bounds, o.print_stats, (int)o.phase);
    auto it = memo.find(key);
    if (it == memo.end())
    {
        it = memo.emplace(key, library(scripts[s], o)).first;
        if (judged(s))
        {
            ref::Judge j;
            auto msg = ref::judge_script(scripts[s], without_stats(it->second.out), j);
            if (!msg.empty()) { fail("options changed the answer: " + msg); }
        }
    }
    return it->second;
}

std::string join(std::vector<std::string> const& a) { std::string r; for (auto& x : a) { r += (r.empty() ? "" : " ") + (x.empty() || x.find(' ') != std::string::npos ? "'" + x + "'" : x); } return r; }
std::string show(std::vector<std::string> const& args, Ended const& e)
{
    return "\narguments: " + join(args) + "\noutput: " + visible(e.out.substr(0, 300)) + "\ndiagnostic: " + visible(e.err.substr(0, 200)) + "\nstatus: " + (e.signaled ? "signal " : "") + std::to_string(e.status);
}
bool answers(std::string const& out)
{
    for (auto& l : lines(out)) { if (l == "sat" || l == "unsat" || l == "unknown" || l.rfind("(", 0) == 0) { return true; } }
    return false;
}
void compare(std::vector<std::string> const& args, Ended const& e, Ended const& want, std::string const& script)
{
    transitions();
    traces();
    state(mix(hash(join(args)), hash(e.out)));
    auto w = "\nscript: " + visible(script.substr(0, 400));
    if (e.signaled) { fail("the program crashed" + show(args, e) + w); }
    if (e.out != want.out) { fail("the program prints something else than the library\nlibrary: " + visible(want.out) + show(args, e) + w); }
    if (want.status == 3 ? e.err.empty() : e.err != want.err) { fail("the program reports other errors than the library: " + visible(want.err) + show(args, e) + w); }
    outcome(want.status == 3 ? 2 : e.out.empty() ? 1 : 0);
}
void refuse(std::vector<std::string> const& args, Ended const& e)
{
    transitions();
    traces();
    state(hash(join(args)));
    if (e.signaled) { fail("the program crashed" + show(args, e)); }
    if (answers(e.out)) { fail("an answer for arguments which cannot be understood" + show(args, e)); }
    if (e.err.empty()) { fail("no diagnostic for arguments which cannot be understood" + show(args, e)); }
    outcome(3);
}

Memory_file& file() { static Memory_file f; return f; }
std::string& file_text() { static std::string t; return t; }
void put(std::string const& s) { if (s != file_text()) { file().write(s); file_text() = s; } }

using Words = std::vector<std::string>;
std::vector<Words> const options = {{"--print-stats"}, {"--prop-rational"}, {"--deduce-bounds"}, {"--phase", "positive"}, {"--phase", "negative"}, {"--phase", "cache"}};
std::vector<Words> const bad = {{"-x"}, {"--"}, {"-"}, {"--prop"}, {"--print-statistics"}, {"--phase=positive"}, {"--Prop-Rational"}, {"--deduce-bound"}, {"-print-stats"}, {"--cache"},
                                {"--phase", "Positive"}, {"--phase", "pos"}, {"--phase", ""}, {"--phase", "--print-stats"}, {"--phase", "cached"}, {"--phase", "positive "}, {"--phase", "0"}};

std::vector<std::vector<int>> sequences(int n, int len)
{
    std::vector<std::vector<int>> r{{}}, cur{{}};
    for (int k = 0; k < len; ++k)
    {
        std::vector<std::vector<int>> next;
        for (auto& s : cur) { for (int i = 0; i < n; ++i) { auto t = s; t.push_back(i); next.push_back(t); } }
        r.insert(r.end(), next.begin(), next.end());
        cur = next;
    }
    return r;
}

void run_args(std::size_t s, Words const& args, bool real = false)
{
    put(scripts[s]);
    auto in = interpret(args);
    auto e = real ? run_program(std::string(getenv("MC_BUILD")) + "/smt", args) : run_main(mc_smt_main, args);
    if (!in.ok || in.inputs.empty()) { refuse(args, e); return; }
    if (in.inputs.size() > 1) { return; } // the documentation leaves it open
    compare(args, e, library_cached(s, in.o), scripts[s]);
}

Words place(std::vector<int> const& seq, std::size_t at)
{
    Words args{"smt"};
    for (std::size_t k = 0; k <= seq.size(); ++k)
    {
        if (k == at) { args.push_back(file().path()); }
        if (k < seq.size()) { auto& o = options[seq[k]]; args.insert(args.end(), o.begin(), o.end()); }
    }
    return args;
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    {
        auto seqs = std::make_shared<std::vector<std::vector<int>>>(sequences((int)options.size(), t ? 5 : 3));
        add({"options", seqs->size(), [=](std::uint64_t i) {
                 auto& q = (*seqs)[i];
                 for (std::size_t s = 0; s < scripts.size(); ++s) { for (std::size_t at = 0; at <= q.size(); ++at) { run_args(s, place(q, at)); } }
             }, [=](std::uint64_t i) { return join(place((*seqs)[i], 0)) + " on all scripts, the file in all places"; }});
        auto two = std::make_shared<std::vector<std::vector<int>>>(sequences((int)options.size(), t ? 3 : 2));
        add({"refused", two->size() * bad.size(), [=](std::uint64_t i) {
                 auto& q = (*two)[i / bad.size()];
                 auto& b = bad[i % bad.size()];
                 for (std::size_t at = 0; at <= q.size(); ++at)
                 {
                     // the wrong word before or after each option, the file first, last or missing
                     Words args;
                     for (std::size_t k = 0; k <= q.size(); ++k)
                     {
                         if (k == at) { args.insert(args.end(), b.begin(), b.end()); }
                         if (k < q.size()) { auto& o = options[q[k]]; args.insert(args.end(), o.begin(), o.end()); }
                     }
                     auto last = args, first = args;
                     args.insert(args.begin(), "smt");
                     last.insert(last.begin(), "smt");
                     last.push_back(file().path());
                     first.insert(first.begin(), file().path());
                     first.insert(first.begin(), "smt");
                     run_args(0, args);
                     run_args(0, last);
                     run_args(4, first);
                 }
             }, [=](std::uint64_t i) { return join(bad[i % bad.size()]) + " in all places of " + join(place((*two)[i / bad.size()], 0)); }});
        add({"no-input", two->size(), [=](std::uint64_t i) {
                 auto& q = (*two)[i];
                 for (std::string name : {"", "/nonexistent/file.smt2", "/proc/self/status/x", "/"})
                 {
                     for (std::size_t at = 0; at <= q.size(); ++at)
                     {
                         Words args = place(q, at);
                         for (auto& a : args) { if (a == file().path()) { a = name; } }
                         refuse(args, run_main(mc_smt_main, args));
                     }
                 }
                 Words args{"smt"}, open;
                 for (int o : q) { args.insert(args.end(), options[o].begin(), options[o].end()); }
                 refuse(args, run_main(mc_smt_main, args));
                 args.push_back("--phase");
                 refuse(args, run_main(mc_smt_main, args));
                 open = args;
                 open.insert(open.begin() + 1, file().path());
                 run_args(0, open);
                 args.push_back(file().path());
                 run_args(0, args);
             }, [=](std::uint64_t i) { return "no readable input, options " + join(place((*two)[i], 0)); }});
        add({"program", 36, [=](std::uint64_t i) {
                 for (std::size_t s = 0; s < scripts.size(); ++s) { run_args(s, place({(int)i / 6, (int)i % 6}, i % 3), true); }
                 run_args(0, {"smt", "--print-stats", bad[i % bad.size()][0], file().path()}, true);
             }, [](std::uint64_t i) { return "the program itself, " + join(place({(int)i / 6, (int)i % 6}, i % 3)); }});
    }
    // the end of an input buffer at every place of a script
    for (int size : {8192, 16384})
    {
        std::vector<std::size_t> which = t ? std::vector<std::size_t>{0, 1, 2, 3, 4, 5, 6} : std::vector<std::size_t>{0, 2, 4, 6};
        for (auto s : which)
        {
            auto len = scripts[s].size();
            add({"buffers-" + std::to_string(size) + "-" + std::to_string(s), len + 2, [=](std::uint64_t i) {
                     auto& text = scripts[s];
                     for (int style = 0; style < 2; ++style)
                     {
                         // short comments or commands; one long token would take the scanner quadratic time
                         std::string pad, piece = style ? "; padding padding padding padding\n" : "(set-info :a b)\n";
                         while (pad.size() + i + piece.size() <= (std::size_t)size) { pad += piece; }
                         pad.resize((std::size_t)size - i, '\n');
                         put(pad + text);
                         Words args{"smt", "--phase", "positive", file().path()};
                         compare(args, run_main(mc_smt_main, args), library_cached(s, {}), text + " after " + std::to_string(pad.size()) + " characters");
                     }
                 }, [=](std::uint64_t i) { return "the first " + std::to_string(i) + " characters of a script end at character " + std::to_string(size); }});
        }
    }
    // files that end early, line ends
    {
        std::vector<std::string> ends = {"", "\n", "\r\n", " ", ";", "; comment", "\n\n", "\t\n;x\n"};
        add({"endings", scripts.size() * ends.size() * 2, [=](std::uint64_t i) {
                 auto text = scripts[i / 2 / ends.size()];
                 while (!text.empty() && text.back() == '\n') { text.pop_back(); }
                 if (i % 2) { std::string q; for (char x : text) { if (x == '\n') { q += '\r'; } q += x; } text = q; }
                 put(text + ends[i / 2 % ends.size()]);
                 for (auto& o : options)
                 {
                     Words args{"smt", file().path()};
                     args.insert(args.end(), o.begin(), o.end());
                     compare(args, run_main(mc_smt_main, args), library_cached(i / 2 / ends.size(), interpret(args).o), file_text());
                 }
             }, [=](std::uint64_t i) { return "script " + std::to_string(i / 2 / ends.size()) + " ending in " + visible(ends[i / 2 % ends.size()]); }});
    }
}
