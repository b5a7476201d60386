// Reference semantics: exact linear arithmetic, evaluation of terms under a model, and a naive but complete
// decision procedure (enumeration of all feasible evaluation paths). Shares no code with the implementation.
#ifndef MC_REF_H
#define MC_REF_H
#include "sexp.h"
#include <gmpxx.h>
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <variant>
#include <vector>

namespace ref {

using Q = mpq_class;

// sum of coef[i] * x_i + c
struct Lin {
    std::vector<Q> coef;
    Q c = 0;
    Lin() {}
    explicit Lin(Q v) : c(std::move(v)) {}
    static Lin var(int i) { Lin l; l.coef.resize(i + 1); l.coef[i] = 1; return l; }
    bool constant() const { for (auto& q : coef) { if (q != 0) { return false; } } return true; }
    Lin& add(Lin const& o, Q const& m = 1)
    {
        if (coef.size() < o.coef.size()) { coef.resize(o.coef.size()); }
        for (std::size_t i = 0; i < o.coef.size(); ++i) { coef[i] += m * o.coef[i]; }
        c += m * o.c;
        return *this;
    }
    Lin scaled(Q const& m) const { Lin r; r.add(*this, m); return r; }
};

enum class Rel { lt, le, eq }; // lin REL 0

struct Con { Lin l; Rel r; };

// feasibility of a conjunction over the reals (Gauss + Fourier-Motzkin)
bool feasible(std::vector<Con> cons);

using Value = std::variant<bool, Q>;
inline std::string str(Value const& v) { return std::holds_alternative<bool>(v) ? (std::get<bool>(v) ? "true" : "false") : std::get<Q>(v).get_str(); }

struct Fun { std::vector<std::pair<std::string, char>> params; char ret; S body; }; // sorts: 'B' or 'R'

struct Eval_error : std::runtime_error { using std::runtime_error::runtime_error; };

// is the token a numeral or a decimal of SMT-LIB
bool is_number(std::string const& a);
Q number(std::string const& a);

// Evaluate a term. `consts` gives values of constants, `funs` definitions of functions.
struct Evaluator {
    std::map<std::string, Value> consts;
    std::map<std::string, Fun> funs;
    // called for a constant without a value (default: throw)
    std::function<Value(std::string const&)> missing;
    std::function<Value(std::string const&, std::vector<Value> const&)> missing_fun;
    using Env = std::map<std::string, Value>;
    Value eval(S const& s, Env const& env = {}) const;
};

// Declarations of a script
struct Decl { std::vector<char> args; char ret; };

// Naive decision procedure: explores all feasible evaluation paths of the conjunction.
struct Problem {
    std::map<std::string, Decl> decls;   // constants and uninterpreted functions
    std::map<std::string, Fun> funs;     // defined functions
    std::vector<S> asserts;
};
struct Decision { bool sat; bool capped; std::uint64_t paths; };
Decision decide(Problem const& p, std::uint64_t max_paths = 200000);

// Result of judging the output of the implementation for a whole script. Empty: agrees with the reference.
struct Judge {
    int sats = 0, unsats = 0, models = 0;
    bool capped = false;
    bool check_sat_by_oracle = false; // also run the oracle for sat answers without a model
    enum Want { both, verdicts, models_only } want = both; // which disagreements count
    std::optional<bool> expected;     // known answer of every check-sat of the script, when the caller has a faster oracle
};
std::string judge_script(std::string const& script, std::string const& output, Judge& j);

} // namespace ref
#endif
