// Run the SMT front end of the implementation on a script, in process.
#ifndef MC_E2E_H
#define MC_E2E_H
#include "Options.h"
#include "Smt2_parser.h"
#include "ref.h"
#include "runner.h"
#include <iostream>
#include <sstream>

namespace mc {

struct Run { std::string out; std::string error; };

inline Run run_smt_once(std::string const& script, yaga::Options const& opts = {})
{
    std::istringstream in(script);
    std::ostringstream out;
    Run r;
    // the counters are printed to the standard output; they are part of what is compared by C28
    struct Redirect {
        std::streambuf* old;
        Redirect(std::streambuf* to) : old(to ? std::cout.rdbuf(to) : nullptr) { }
        ~Redirect() { if (old) { std::cout.rdbuf(old); } }
    } redirect(config().property == "C28" ? out.rdbuf() : nullptr);
    try
    {
        yaga::parser::Smt2_parser p;
        auto chosen = opts;
        if (config().property == "C28") { chosen.print_stats = true; }
        p.set_options(chosen);
        p.parse(in, out);
    }
    catch (std::exception const& e)
    {
        r.error = e.what();
        if (r.error.empty()) { r.error = "?"; }
    }
    r.out = out.str();
    return r;
}

inline Run run_smt(std::string const& script, yaga::Options const& opts = {})
{
    auto r = run_smt_once(script, opts);
    if (config().property == "C28")
    {
        for (int round = 1; round <= 2; ++round)
        {
            Other_memory m(round);
            auto q = run_smt_once(script, opts);
            if (q.out != r.out || q.error != r.error) { fail("two runs of the same input differ\nfirst: " + r.out + r.error + "\nother: " + q.out + q.error); }
        }
    }
    return r;
}

// the option combinations of the SMT program: index 0..11
inline yaga::Options options(int i)
{
    yaga::Options o;
    o.prop_rational = i & 1;
    o.deduce_bounds = i & 2;
    o.phase = (i >> 2) % 3 == 0 ? yaga::Phase::positive : (i >> 2) % 3 == 1 ? yaga::Phase::negative : yaga::Phase::cache;
    return o;
}
inline constexpr int num_options = 12;

inline std::string options_str(int i)
{
    static char const* ph[] = {"positive", "negative", "cache"};
    return std::string(i & 1 ? "--prop-rational " : "") + (i & 2 ? "--deduce-bounds " : "") + "--phase " + ph[(i >> 2) % 3];
}

// which disagreements a property is about
inline ref::Judge::Want want_of(std::string const& property)
{
    if (property == "C02" || property == "C04") { return ref::Judge::verdicts; }
    if (property == "C03" || property == "C05") { return ref::Judge::models_only; }
    return ref::Judge::both;
}

// run a well-formed script and judge everything it printed
inline void check_script(std::string const& script, int opt, std::optional<bool> expected = {})
{
    auto r = run_smt(script, options(opt));
    transitions();
    traces();
    ref::Judge j;
    j.want = want_of(config().property);
    j.expected = expected;
    auto msg = r.error.empty() ? ref::judge_script(script, r.out, j) : "error on a well-formed script: " + r.error + "\noutput:\n" + r.out;
    if (j.capped) { capped("reference procedure hit its path limit"); }
    if (!msg.empty()) { fail(msg + "\noptions: " + options_str(opt)); }
    for (int i = 0; i < j.sats; ++i) { outcome(1); }
    for (int i = 0; i < j.unsats; ++i) { outcome(0); }
    for (int i = 0; i < j.models; ++i) { outcome(2); }
    state(hash(r.out + script));
}

} // namespace mc
#endif
