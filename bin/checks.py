SEARCH = "all schedules (decision order x phase, alternative decision values, restart points) within a deviation bound around 6 base orders (incl. the real Evsids/Generalized_vsids), on enumerated Boolean, LRA and UFLRA problems over pools of 3-6 atoms; every reached solver state is judged"

CHECKS = {
 "C01": dict(bins=[dict(bin="cnf")], technique="exhaustive enumeration of bounded clause sets, real solver vs brute force",
   bounds="all clause sets of <=5 (thorough 7) clauses over 3 variables; raw clause sequences; powersets of wide clauses; all graphs on <=6 (7) vertices; pigeonhole and Tseitin families with all deletions/charges; clauses of up to 67 literals with every literal made the last open one; up to 40 selections of alternatives",
   note="Every instance of each family is solved by the real solver under each phase option; sat answers are certified by evaluating the assignment, unsat answers by brute force or the analytic status of the family."),
 "C02": dict(bins=[dict(bin="lra"), dict(bin="wide", match={"quick": "^lra-|^bool-wide", "thorough": "^lra-|^bool-wide"})], technique="exhaustive enumeration of bounded LRA problems and options, real solver vs exact reference decision procedure",
   bounds="all clause sets / conjunctions up to a stated size over pools of linear atoms in 1-3 rational variables (strict, non-strict, equality, disequality), grammar-enumerated scripts; each under every combination of the prop-rational/deduce-bounds/phase options; sums, cycles, chains and alternatives over up to 24 variables whose status is known from their parameters",
   note="The expected verdict is computed from a precomputed table of the feasible sign cells of the pool (exact Fourier-Motzkin on each cell), or for scripts by the reference decision procedure in mc/ref.cpp."),
 "C03": dict(bins=[dict(bin="lra"), dict(bin="wide", match={"quick": "^lra-|^bool-wide", "thorough": "^lra-|^bool-wide"})], technique="exhaustive enumeration of bounded LRA problems, models evaluated by an independent exact evaluator",
   bounds="as C02; after every sat answer the printed model is evaluated on every assertion",
   note="The model printed by get-model (and the value of every declared symbol) is parsed back and every assertion is evaluated exactly over unbounded rationals."),
 "C04": dict(bins=[dict(bin="uf"), dict(bin="wide", match={"quick": "^uf-", "thorough": "^uf-"})], technique="exhaustive enumeration of bounded UFLRA problems, real solver vs exact reference decision procedure",
   bounds="all conjunctions/clause sets up to a stated size over pools of atoms with unary/binary functions, predicates, arithmetic and ite; grammar-enumerated scripts; functions of up to 12 arguments differing in each place, tables of up to 24 rows, powers and links of functions",
   note="The oracle is Ackermann expansion plus Fourier-Motzkin over exact rationals (mc/ref.cpp), independent of the solver's code."),
 "C05": dict(bins=[dict(bin="uf"), dict(bin="wide", match={"quick": "^uf-", "thorough": "^uf-"})], technique="exhaustive enumeration of bounded UFLRA problems, models evaluated by an independent exact evaluator",
   bounds="as C04; after every sat answer the printed function and constant definitions are evaluated on every assertion",
   note="Printed define-fun bodies are interpreted exactly, so a model that is not a function or that does not satisfy an assertion is reported."),
 "C06": dict(bins=[dict(bin="search")], technique="stateless exploration of the real solver under a controlled scheduler; verdict and model of every schedule against the pool oracle",
   bounds=SEARCH,
   note="The real Solver/Bool_theory/Linear_arithmetic/Uninterpreted_functions run under an order and restart policy whose choices are enumerated (depth-first over choice sequences with a bound on deviations)."),
 "C07": dict(bins=[dict(bin="search"), dict(bin="arith")], technique="stateless exploration of the real solver under a controlled scheduler; monitors on every conflict, reason and learned clause; exhaustive event histories of the real arithmetic plugin alone",
   bounds=SEARCH + "; all sets of 2-4 constraints over 2-3 variables from pools of 9-11 and of 2-4 constraints over 4-5 variables from wider pools, single constraints over up to 7 (10) variables, all histories of 4-6 (5-10) asserted literals, decided values, constraints created during the search, backtracks and restarts within a deviation bound",
   note="Entailment is decided over the feasible sign cells of the pool plus exact Fourier-Motzkin for literals created during the search."),
 "C08": dict(bins=[dict(bin="search"), dict(bin="conflict")], technique="stateless exploration of the real solver under a controlled scheduler; monitors on every analysed conflict and the following backjump; exhaustive trails and conflicts given to the real conflict analysis and solver",
   bounds=SEARCH + "; all small trails with every reason assignment and every set of conflict clauses, long clauses over many levels (see families)",
   note="Every clause produced by conflict analysis is evaluated in the assignment it was derived from; the level the search returns to is compared with the rule in the property."),
 "C09": dict(bins=[dict(bin="search"), dict(bin="bcp")], technique="stateless exploration of the real solver under a controlled scheduler, monitors after every propagation; exhaustive event histories of the real Boolean plugin against a naive closure",
   bounds=SEARCH + "; all histories of <=5-6 (6-8) decisions, theory propagations, learned clauses, backtracks and restarts over all formulas of 2-4 clauses over 3-5 variables up to renaming; clauses of up to 67 literals with every order of falsification pattern (see families)",
   note="After every round of propagation each clause of the database is evaluated; each reason and conflict is compared with the assignment; the clauses are compared with a copy."),
 "C10": dict(bins=[dict(bin="search"), dict(bin="trail")], technique="stateless exploration of the real solver under a controlled scheduler, snapshots around every backtrack; exhaustive operation sequences of the real trail against a reference record",
   bounds=SEARCH + "; all sequences of 5-6 (7-8) decisions, propagations at every level, backtracks, clears and resizes over 3-6 variables of both types; patterns of up to 40 levels, with a backtrack to each",
   note="Values, levels, reasons and level contents are compared with a reference record after every operation; around every backtrack and restart of the search with a snapshot."),
 "C11": dict(bins=[dict(bin="search"), dict(bin="arith")], technique="stateless exploration of the real solver under a controlled scheduler; lock-step recomputation of all bounds; exhaustive event histories of the real arithmetic plugin alone",
   bounds=SEARCH + "; all sets of 2-4 constraints over 2-3 variables from pools of 9-11 and of 2-4 constraints over 4-5 variables from wider pools, single constraints over up to 7 (10) variables, all histories of 4-6 (5-10) asserted literals, decided values, constraints created during the search, backtracks and restarts within a deviation bound",
   note="After each arithmetic propagation the bounds of every real variable are recomputed from the trail by the reference and compared."),
 "C12": dict(bins=[dict(bin="search"), dict(bin="arith"), dict(bin="phase", match={"quick": "value-", "thorough": "value-"})], technique="stateless exploration of the real solver under a controlled scheduler; monitors on every decided value and every evaluated constraint; exhaustive event histories of the real arithmetic plugin alone",
   bounds=SEARCH + "; all sets of 2-4 constraints over 2-3 variables from pools of 9-11 and of 2-4 constraints over 4-5 variables from wider pools, single constraints over up to 7 (10) variables, all histories of 4-6 (5-10) asserted literals, decided values, constraints created during the search, backtracks and restarts within a deviation bound; 40 (100) decisions in every bound interval of a grid, each excluding the values chosen before",
   note="Each decided value is tested against the reference bounds; each fully assigned constraint is evaluated exactly."),
 "C20": dict(bins=[dict(bin="search"), dict(bin="order")], technique="stateless exploration of the real solver under a controlled scheduler, monitors on every decision; exhaustive operation histories of the real orders and their priority queue against a reference",
   bounds=SEARCH + "; all queue contents of 6 (8) elements x 2 operations, all queue operation sequences of length 6, all event histories of length 5 (6) of both orders and all periodic histories of 1800 learned clauses (rescaling); queues of up to 200 (400) elements and orders with up to 128 (300) further variables under patterned contents with all pairs of updates",
   note="Each pick is compared with the set of unassigned variables and with a reference activity record kept in long double."),
 "C21": dict(bins=[dict(bin="search"), dict(bin="subsume"), dict(bin="bcp")], technique="stateless exploration of the real solver under a controlled scheduler, monitors on every minimisation and clean-up; exhaustive learned-clause histories and trails against the subset relation and truth tables",
   bounds=SEARCH + "; all sequences of 4 (5) learned clauses over 3 variables and of 3 over 4 variables with all restart points, also with colliding signatures; all trails over 5 (6) variables with every reason and every false clause; clauses of up to 67 literals",
   note="Each shortened clause is compared with the original and the reasons; each clean-up with the subset relation; propagation after clean-ups with a naive closure."),
 "C22": dict(bins=[dict(bin="search"), dict(bin="restart")], technique="stateless exploration of the real solver under a controlled scheduler, monitors on restarts; exhaustive event histories of the real restart policies against reference schedules",
   bounds=SEARCH + "; 2^20 (2^24) elements of the sequence, 255 (2047) complete periods, all histories of 7 (9) event blocks; all histories of 6 (8) clauses and restarts for 81 parameter sets, all periodic histories of period 5 (7) and 1500 clauses",
   note="The trail is empty and the asserted clauses unchanged after every restart, verdicts stay right under every enumerated restart schedule; requests are compared with schedules computed in exact or extended arithmetic."),
 "C13": dict(bins=[dict(bin="rational")], technique="exhaustive enumeration of bounded operand tuples and in-place operation histories on the real rational and integer types, every result compared with GMP",
   bounds="all pairs and operation histories over a boundary set of operands around 0, +-1, +-2^31, +-2^32, +-2^62, +-2^63, +-2^64 and their fractions (see families in the evidence)",
   note="Each operation, in every aliasing form (binary, in-place, self-assigned, moved-from, copied), is executed on the real type and compared with mpq_class; normal form, ordering, hash and text are compared after every step."),
 "C14": dict(bins=[dict(bin="constraint")], technique="exhaustive enumeration of constraint vectors and creation histories on the real constraint factory, canonical form oracle",
   bounds="all constraints with <=5 variables over coefficient and right-hand-side sets; all creation histories up to a depth, including decisions and backtracks between creations",
   note="The stored constraint and the literal are turned into a canonical relation and compared with the canonical relation of what was written; literal sharing is compared with equality of canonical forms."),
 "C15": dict(bins=[dict(bin="term"), dict(bin="script"), dict(bin="wide", match={"quick": "lra-nary|lra-nested|bool-wide", "thorough": "lra-nary|lra-nested|bool-wide"})], technique="exhaustive enumeration of term-constructor compositions on the real term manager, evaluation by an independent evaluator under all assignments of a grid",
   bounds="all terms up to a depth over constants, variables, functions and all constructors; grammars of nested connectives, chains, sums, conditionals and scalings as scripts, verdict and model compared with the formula as written",
   note="Every constructed term is evaluated structurally from the term store and compared with the value of the formula that was written under every assignment of a distinguishing grid; hash-consing is compared by rebuilding and by semantic difference."),
 "C16": dict(bins=[dict(bin="script"), dict(bin="wide", match={"quick": "lra-nested", "thorough": "lra-nested"})], technique="exhaustive enumeration of bounded grammars and command histories of scripts with lets and definitions on the real front end, independent evaluation by environment",
   bounds="nested and parallel lets to depth 3, up to two chained definitions with every shadowing pattern of 3 names, all spellings; histories of <=5 (6) scoped commands",
   note="an independent well-formedness checker, evaluator and decision procedure (mc/wf.h, mc/ref.cpp) judge every answer, model and error; scoping in the reference is by environments, not by substitution."),
 "C17": dict(bins=[dict(bin="script")], technique="exhaustive enumeration of token sequences, single and double token edits, argument lists and command histories on the real front end; independent well-formedness oracle",
   bounds="all token strings of length <=5 (7) as assertion body and as commands over 11-12 tokens; all single (double) token edits of 4 seed scripts over a 36-word vocabulary; all argument lists of <=3 (4) over 14 arguments for 17 operators; all histories of <=4 (6) commands over 12-14 well- and ill-formed commands",
   note="an independent well-formedness checker, evaluator and decision procedure (mc/wf.h, mc/ref.cpp) judge every answer, model and error; ill-formed commands must be reported exactly where they occur, well-formed ones accepted; constructs the language definition leaves open are run (no crash) but not judged."),
 "C18": dict(bins=[dict(bin="script")], technique="exhaustive enumeration of command histories on the real front end, every answer judged against the assertions made so far",
   bounds="all histories of 5-6 (7) commands over 7-8 commands in seven alphabets (LRA, UF, Boolean, growing signatures, definitional variables, answers) under several option combinations",
   note="an independent well-formedness checker, evaluator and decision procedure (mc/wf.h, mc/ref.cpp) judge every answer, model and error."),
 "C23": dict(bins=[dict(bin="script")], technique="exhaustive enumeration of numerals by spelling and magnitude on the real front end, printed models evaluated exactly",
   bounds="all integers of <=3 (4) digits and decimals of <=2+3 (2+4) digits over 5 digits in 6 contexts; all (pairs of) numbers within 2 of 2^k and 1 of 10^k up to 2^200 and 10^80 in 35 contexts; patterns of up to 300 digits",
   note="an independent well-formedness checker, evaluator and decision procedure (mc/wf.h, mc/ref.cpp) judge every answer, model and error; values are parsed by GMP directly from the text."),
 "C19": dict(bins=[dict(bin="dimacs", needs=["sat"])], technique="exhaustive enumeration of bounded DIMACS files (layouts, token sequences, malformed files) on the real program, judged by an independent reader and brute force",
   bounds="all sequences of <=2 clauses over 12 shapes in all layouts within 1-2 (3) deviations from the plain one; all sequences of <=2 (3) of 27 clauses with every declared number of variables and clauses; all token strings of length <=4-5 (6) incl. literals beyond every machine integer; all problem lines of <=4 (5) words; missing files and wrong usage",
   note="The program's own main function runs in a child process per file (and the linked program itself for one family); output, diagnostic and exit status are compared with the reading of an independent reader. Files with more clauses than declared or with words that are not numbers are run but not judged."),
 "C24": dict(bins=[dict(bin="cli", needs=["smt"])], technique="exhaustive enumeration of bounded argument lists, file layouts and missing inputs on the real program, compared with the library under the documented meaning of the options",
   bounds="all sequences of <=3 (5) of the 6 options with the file in every place, on 9 scripts; 17 wrong words in every place of all sequences of <=2 (3) options; 4 unreadable inputs; every position of the end of an 8 KiB and 16 KiB buffer inside 4 (7) scripts; all line endings",
   note="The program's own main function runs in a child process per argument list (and the linked program itself for one family); standard output must be what the library prints for the same script and options, and the answers printed under every combination are judged by the reference decision procedure."),
 "C25": dict(bins=[
     dict(bin="rational", variant="asan"),
     dict(bin="lex", variant="asan", match={"quick": "layout-|quoted|names|responses|words|strings|chars"}),
     dict(bin="api", variant="asan", match={"quick": "calls-[12]-1"}),
     dict(bin="compose", variant="asan", match={"quick": "solver-sets|solver-full3of4|solver-php|fixpoint-[12]|dispatcher-0"}),
     dict(bin="stats", variant="asan", match={"quick": "repeated-|several-[23]-[1-4]"}),
     dict(bin="cnf", variant="asan", match={"quick": "sets3v-[0-4]|raw2v-[12]|full3of[45]-minus[012]$|php|tseitin3x3|tseitin4x4"}),
     dict(bin="uf", variant="asan", match={"quick": "uf-congruence-conj|uf-terms"}),
     dict(bin="lra", variant="asan", match={"quick": "conj|w3minus0|scheduling|real-pigeonhole"}),
     dict(bin="search", variant="asan", match={"quick": "bool3|-w[23]minus0-d2|(bounds|mcsat)-conj|uf-unary-conj"}),
     dict(bin="script", variant="asan", match={"quick": "let-nested$|define1|quoted[07]|quoted-uf|define-uf|term-tokens[0-4]|command-tokens[0-3]|edits0|sorts:.*/[01]/|boundary$|long"}),
     dict(bin="dimacs", variant="asan", match={"quick": "layouts-crlf|formulas|big-[123]"}),
     dict(bin="conflict", variant="asan", match={"quick": "analyse-[45]$"}),
     dict(bin="order", variant="asan", match={"quick": "rescale|queue-deep"}),
     dict(bin="arith", variant="asan", match={"quick": "together"}),
     dict(bin="subsume", variant="asan", match={"quick": "minimise|clean-up-many"}),
     dict(bin="constraint", variant="asan", match={"quick": "vectors[123]"}),
     dict(bin="wide", variant="asan", match={"quick": "uf-arity|uf-sum|lra-nested|lra-late|bool-wide"}),
     dict(bin="phase", variant="asan", match={"quick": "value-many|value-exclusions|wiring-many"}),
     dict(bin="bcp", variant="asan", thorough_only=True),
     dict(bin="trail", variant="asan", thorough_only=True),
     dict(bin="term", variant="asan", thorough_only=True),
     dict(bin="restart", variant="asan", thorough_only=True),
   ], families="quick", technique="the exhaustive enumerations of the other checks (inputs, command histories, schedules, event histories) on the implementation built with AddressSanitizer, UndefinedBehaviorSanitizer, container checks and its own assertions",
   bounds="the quick bounds of the families named in the evidence (thorough: all families of all harnesses at their quick bounds)",
   note="Any sanitizer report, failed assertion, crash or hang of any enumerated execution is a violation; each is attributed to one item and replayed alone before it is reported."),
 "C26": dict(bins=[dict(bin="phase"), dict(bin="search", match={"quick": "cache|conj|bool3"})], technique="exhaustive event histories of the real Boolean and arithmetic plugins against a record of the values held; stateless exploration of the real solver with a monitor on every decided value",
   bounds="all histories of bounded length of own decisions, foreign assignments, learned clauses, backtracks and restarts over 2-4 variables under each phase; all bound intervals and sets of excluded values over a grid; patterned histories of 4-129 (300) variables; " + SEARCH,
   note="Each decided value is compared with the value a reference record of earlier assignments asks for; the effect of the options is observed in models of formulas that force nothing."),
 "C27": dict(bins=[dict(bin="stats"), dict(bin="search", match={"quick": "conj|bool3|w[23]minus0"})], technique="exhaustive enumeration of bounded clause sets and search schedules on the real solver, each counter compared with the events observed by a listener; program reports compared with such a run",
   bounds="all clause sets of <=4 (5) clauses over 3 variables, near-complete wide clause sets, pigeonhole, colouring and Tseitin families under 3 phases and 2 restart policies; all sequences of up to 5 conflicts reported at once over 2-4 (5) variables; " + SEARCH,
   note="A listener around the real plugins counts conflicts, clauses, decisions and restarts; every counter of the solver and every printed number must agree."),
 "C28": dict(bins=[dict(bin="cnf", match={"quick": "sets3v-[0-4]$|full3of4|php|colour|tseitin3x3"}), dict(bin="lra", match={"quick": "conj|pairs2|w3minus|real-pigeonhole|scheduling|difference"}), dict(bin="uf", match={"quick": "conj|pigeonhole"}), dict(bin="script", match={"quick": "let-nested$|define1|sorts:.*/[01]/"}), dict(bin="stats", match={"quick": "several", "thorough": "several"})],
   technique="exhaustive enumeration of bounded inputs and options, every execution of the real solver repeated in other heap layouts and over other memory contents and compared",
   bounds="the families of C01, C02, C04 and C16-C18 named in the evidence and all sequences of up to 5 conflicts reported at once; each item is run in a fresh solver three times: plainly, and twice with other live allocations between the solver's objects and all fresh memory filled with another pattern, blocks of one size handed out at falling and at rising addresses",
   note="Outputs (answers, models, errors, counters, learned clauses where they are accessible) of all runs of an item must be identical; the allocator of the harness fills new memory with a pattern that differs between the runs and keeps holes so that addresses and their order differ."),
 "C29": dict(bins=[dict(bin="compose")], technique="exhaustive enumeration of event histories, propagation systems and small searches on the real dispatcher, theory combination and solver with recording and scripted components",
   bounds="all histories of 4 (5) operations after 0-2 additions of components; all systems of <=3 rules over 4 variables, each rule in one of 3 theories, eager or stepwise, at the current or a lower level; all trail histories of 7 (9) operations; searches on clause sets and pigeonhole families with 4 restart intervals and 3 phases",
   note="Recording components compare every call with the call that was made; the joint fixpoint is compared with the closure of the rules."),
 "C30": dict(bins=[dict(bin="api")], technique="exhaustive enumeration of call sequences on the real C++ facade, judged by exact elimination over sign cells",
   bounds="all sets of 1-3 of 16 constraints with all sets of 1-2 (3) clauses of <=2 literals over them and a Boolean variable, 4 orders of calls, all options, both arithmetic logics; propositional clause sets; all sequences of 1-4 (6) logics on one facade, checked in between or not",
   note="The verdict is computed from the feasible sign cells of the constraints; assignments are evaluated exactly; refused calls must throw and change nothing."),
 "C31": dict(bins=[dict(bin="search"), dict(bin="cnf", match={"quick": "sets3v-[0-4]$|full3of[45]-minus[012]$|php|tseitin"})], technique="stateless exploration of the real solver under a controlled scheduler, monitors on every learned clause and on the length of every search; exhaustive clause sets with a time limit",
   bounds=SEARCH,
   note="Every learned clause that continues the search must be new; a search of the small problems with more than 2000 conflicts or 20000 decisions, or an item over its time limit, is a violation."),
 "C32": dict(bins=[dict(bin="lex")], technique="exhaustive enumeration of character sequences through the real tokenizer against the lexical grammar, and of layouts and spellings of scripts through the real front end",
   bounds="all strings of <=4 (5) of 23 character classes, <=6 (7) numeral characters, <=7 (9) quoting characters, <=4 (5) marks; all one-character edits and concatenations of reserved words; tokens at every offset around the borders of input blocks; 9 scripts with every gap at every place, all pairs of gaps everywhere (thorough: at every pair of places), every pair of symbols quoted; all names of <=3 (4) of 15 characters in 4 roles",
   note="The tokenizer is compared with a hand-written longest-match reference; a layout or spelling variant must print exactly what the plain script prints; printed names are read back."),
}
