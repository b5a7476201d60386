// The propositional solver assembled the way the sat program does it.
#ifndef MC_BOOLSOLVER_H
#define MC_BOOLSOLVER_H
#include "Bool_theory.h"
#include "Evsids.h"
#include "Restart.h"
#include "Solver.h"
#include "cnf.h"

namespace mc {

inline yaga::Literal lit(int l) { return l < 0 ? ~yaga::Literal{-l - 1} : yaga::Literal{l - 1}; }
inline int dimacs(yaga::Literal l) { return l.is_negation() ? -(l.var().ord() + 1) : l.var().ord() + 1; }
inline Lits dimacs(yaga::Clause const& c) { Lits r; for (auto l : c) { r.push_back(dimacs(l)); } return r; }
inline std::string str(Lits const& c) { std::string s = "("; for (int l : c) { s += std::to_string(l) + " "; } if (!c.empty()) { s.pop_back(); } return s + ")"; }

struct Bool_solver {
    yaga::terms::Term_manager tm;
    yaga::Solver solver{tm};
    yaga::Bool_theory* bcp;
    Bool_solver(yaga::Phase phase = yaga::Phase::positive)
    {
        bcp = &solver.set_theory<yaga::Bool_theory>();
        bcp->set_phase(phase);
        solver.set_variable_order<yaga::Evsids>();
        solver.set_restart_policy<yaga::Glucose_restart>();
    }
    void load(Cnf const& f)
    {
        solver.trail().set_model<bool>(yaga::Variable::boolean, f.vars);
        for (auto& c : f.clauses)
        {
            yaga::Clause k;
            for (int l : c) { k.push_back(lit(l)); }
            solver.db().assert_clause(std::move(k));
        }
    }
    // "" iff the current assignment is total and satisfies all clauses of f
    std::string check_model(Cnf const& f)
    {
        auto const& m = solver.trail().model<bool>(yaga::Variable::boolean);
        for (int i = 0; i < f.vars; ++i) { if (!m.is_defined(i)) { return "answered sat but variable " + std::to_string(i + 1) + " has no value"; } }
        for (auto& c : f.clauses)
        {
            if (!std::any_of(c.begin(), c.end(), [&](int l) { return m.value(std::abs(l) - 1) == (l > 0); })) { return "answered sat but the assignment falsifies " + str(c); }
        }
        return "";
    }
};

inline yaga::Phase phase(int i) { return i == 0 ? yaga::Phase::positive : i == 1 ? yaga::Phase::negative : yaga::Phase::cache; }

} // namespace mc
#endif
