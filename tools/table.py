prop("C01", "Each linear constraint becomes equivalent bounds in the simplex problem",
     "For every set of constraints handed to the solver, assigning the literals of a subset of the constraints imposes exactly these constraints: constraints over one variable become a bound on that variable divided by its coefficient (with the relation inverted for negative coefficients), constraints over several variables a bound on a row with the same coefficients, and constraints without variables are decided at once by comparing zero with the right-hand side. Constraints whose literal is false are ignored, each kept constraint is associated with its own literal, and the objective is represented by its own row.",
     ["inputs"], "all relations, coefficients, right-hand sides and literals", "The tests only use a handful of coefficients and relations.",
     [S + "solving.cc", S + "problem.cc"], [("translation of inequalities to bounds and rows", S + "solving.cc Solver::prepare"), ("relation inversion", S + "problem.cc invert")],
     AI, "the set of real solutions described by bounds and rows is compared with the constraint for symbolic coefficients")
prop("C02", "Asserted bounds are in force, the strongest one per direction",
     "Whenever constraints are asserted, for every variable and direction the strongest of all bounds asserted so far is in force, and crossing lower and upper bounds are reported as a conflict at once. Before the search for a feasible assignment continues, non-basic variables lie within their bounds and each basic variable outside its bounds is queued for repair.",
     ["inputs", "histories"], "all sequences of asserted literals and all previous bounds", "Tests see a few orders of assertion; ties, repeated and equality bounds are rare.",
     [S + "solving.cc"], [("applying bounds", S + "solving.cc Solver::update_bound_, Variable::update"), ("queueing", S + "solving.cc Solver::enqueue_")],
     AI, "one generic assertion step from an arbitrary abstract state")
prop("C03", "Backtracking restores the previous state exactly",
     "Undoing a decision level restores the bounds in force before the level was entered, and the values of all variables unless they have been stored deliberately, no matter at which point of the procedure the level is undone. The queue of violated variables is emptied, the row equations hold again and exactly one level is removed from the trail.",
     ["histories", "schedules"], "all sequences of asserting, pivoting, conflicts, storing assignments and undoing", "Tests backtrack along few schedules chosen by the search and cannot inspect the state.",
     [S + "solving.cc"], [("trails", S + "solving.cc Variable::update_lower/update_upper/set_value"), ("restoring", S + "solving.cc Solver::undo"), ("storing", S + "solving.cc Solver::store_sat_assignment")],
     AI, "ghost state compared after undoing at arbitrary points; histories are covered inductively over trail contents")
prop("C04", "Every clause given to the ASP solver is implied by the linear constraints",
     "Each clause added by the theory (conflicts of rows, crossing bounds, propagated bounds, pairwise conflicts) is a consequence of the linear constraints its literals stand for, so no answer set is lost. A conflict clause only refers to constraints currently asserted.",
     ["inputs", "histories"], "all rows, bounds and values", "A wrong clause only shows if the lost answer is the one a test looks for.",
     [S + "solving.cc"], [("conflict clause of a row", S + "solving.cc Solver::select_"), ("crossing bounds", S + "solving.cc Solver::update_bound_"), ("row propagation", S + "solving.cc Solver::propagate_"), ("pairwise conflicts", S + "solving.cc Solver::prepare, Bound::conflicts")],
     AI, "emptiness of the polyhedron negated by the clause, decided in the abstract domain")
prop("C05", "Simplex steps preserve the row equations and the bookkeeping",
     "After each step of the simplex procedure, the value of every basic variable equals the value of its row, the mapping between variables and their rows or columns stays a bijection, non-basic variables stay within their bounds, and every basic variable violating a bound is queued. This holds for every tableau, assignment and choice of pivot.",
     ["inputs", "histories"], "all tableaus, assignments, bounds and pivots", "Tests check a few final assignments; a broken invariant only shows in later steps.",
     [S + "solving.cc", S + "tableau.cc"], [("moving a non-basic variable", S + "solving.cc Solver::update_"), ("pivoting", S + "solving.cc Solver::pivot_"), ("queue", S + "solving.cc Solver::enqueue_")],
     AI, "inductive invariant over one generic step")
prop("C06", "The sparse tableau represents the system of rows exactly",
     "Reading, setting, iterating and pivoting the sparse tableau have exactly the effect of the corresponding operation on the matrix it represents: pivoting solves the pivot row for the pivot column and substitutes it in all other rows, for all entries and sparsity patterns. Afterwards rows and columns are sorted, contain no explicit zeros and list every non-zero entry, and all stored numbers are integers.",
     ["inputs"], "all entries, denominators and sparsity patterns", "Tests use random small tableaus; fill-in next to lazily deleted entries is rare.",
     [S + "tableau.cc", S + "tableau.hh"], [("pivoting", S + "tableau.cc Tableau::pivot"), ("insertion", S + "tableau.cc Tableau::set"), ("iteration", S + "tableau.hh Tableau::update_row/update_col")],
     AI, "identities of rational functions over symbolic entries for representative sparsity patterns")
prop("C07", "Pivots follow Bland's rule; satisfiability is only claimed when bounds hold",
     "In each step the violated basic variable with the smallest index leaves the basis at the bound it violates, and the non-basic variable with the smallest index that can move in the required direction enters it. The procedure only reports satisfiability if all variables are within their bounds and only reports a conflict if some violated row cannot be moved any further.",
     ["inputs", "histories"], "all tableaus, assignments, bounds and queue contents", "Violating the rule leads to cycling on rare degenerate inputs only.",
     [S + "solving.cc"], [("selection", S + "solving.cc Solver::select_"), ("main loop", S + "solving.cc Solver::solve")],
     AI, "the exchanged pair of one generic iteration is compared with the rule")
prop("C08", "Optimization stays feasible, never worsens, and stops with a certificate",
     "Each step of the optimization keeps all bounds and rows satisfied, never decreases the objective and changes the assignment or the basis. When it stops, either no non-basic variable can improve the objective (then the objective is reported as bounded) or some improving direction is not limited by any bound (then it is reported as unbounded); entering and leaving variables are selected by smallest index.",
     ["inputs", "histories"], "all feasible states, objectives and bounds", "Tests only check objective values of a few programs.",
     [S + "solving.cc"], [("optimization", S + "solving.cc Solver::optimize")],
     AI, "one generic iteration from an arbitrary feasible state and certificates at termination")
prop("C09", "Global optimization: shared best value only improves and is enforced",
     "With global optimization, the best objective value shared by all threads never gets worse, every improvement reaches every thread exactly once, and each thread then only accepts solutions better by the given step. Once the problem is known to be unbounded, only unbounded solutions are accepted and the shared state never becomes bounded again.",
     ["inputs", "histories", "schedules"], "all values, steps, generations and orders of updates", "Tests run a few programs with one thread.",
     [S + "solving.cc", S + "solving.hh"], [("shared state", S + "solving.cc ObjectiveState::update/value"), ("bounding", S + "solving.cc Solver::integrate_objective"), ("discarding", S + "solving.cc Solver::discard_bounded"), ("models", S + "solving.cc Propagator::on_model")],
     AI, "each operation on the shared state and the derived bound are compared with the specification for arbitrary contents")
prop("C10", "Integer and rational arithmetic is exact",
     "Every operation, comparison, conversion and parsing of integers and rationals gives the exact mathematical result for numbers of any size, also if an object is combined with itself; results are kept in canonical form, arguments taken by constant reference are unchanged, and each number is initialised and released exactly once. Text that is no number is rejected.",
     ["inputs"], "all numbers, including those exceeding machine words, and aliased arguments", "Tests compare a few small numbers; aliasing and large numbers are rare.",
     [S + "number_flint.hh"], [("integers", S + "number_flint.hh class Integer"), ("rationals", S + "number_flint.hh class Rational")],
     AI, "operations interpreted over summaries of FLINT and compared with exact arithmetic")
prop("C11", "Numbers with an infinitesimal part form an ordered vector space",
     "Pairs c + k*e used for strict inequalities are added, scaled, compared and assigned exactly like linear polynomials in a positive infinitesimal e, also if an object is combined with itself; conversion to a rational is only possible without an infinitesimal part.",
     ["inputs"], "all pairs of rationals and all argument aliasings", "Tests use few strict constraints.",
     [S + "number.hh"], [("arithmetic and order", S + "number.hh class RationalQ")],
     AI, "operations compared with lexicographically ordered polynomials")
prop("C12", "Theory atoms are translated to equivalent linear constraints",
     "The constraints and the objective obtained from &sum, &diff, &dom, &minimize and &maximize atoms mean exactly what the atoms say for every truth assignment of the conditions of their elements and all numbers: constants, strings with decimals, nested arithmetic, repeated variables, negative signs, conditions shared between atoms or reused in later steps. Every well-formed atom is accepted.",
     ["inputs", "histories"], "all numbers, all truth values of conditions, all term shapes up to two nested operators, sequences of two steps", "The tests use a few concrete terms; signs, shared conditions and several steps are barely combined.",
     [S + "parsing.cc"], [("terms", S + "parsing.cc parse_sum_elem, parse_diff_elem, evaluate"), ("atoms", S + "parsing.cc parse_theory"), ("conditions", S + "parsing.cc parse_sum_elems"), ("like terms", S + "parsing.cc simplify")],
     AI, "evaluate_theory is interpreted for lazily chosen terms with symbolic numbers and compared as linear forms with the meaning of the atoms")
prop("C13", "Ill-formed theory atoms are rejected",
     "A theory atom that has no meaning as a linear constraint (product of variables, division by zero or by a variable, missing guard, no or several elements in a domain or difference, interval outside a domain, arithmetic over symbols, non-integer numbers in arguments of variables, sets and lists, objectives with constants) is always rejected with an error and never silently read as something else.",
     ["inputs"], "all term shapes up to two nested operators", "Tests only reject a handful of terms.",
     [S + "parsing.cc"], [("terms", S + "parsing.cc parse_sum_elem, parse_diff_elem, evaluate"), ("atoms", S + "parsing.cc parse_theory")],
     AI, "evaluate_theory is interpreted for lazily chosen terms; each path on which the specification has no meaning must throw")
prop("C14", "Errors are reported as failures and never cross the C interface as exceptions",
     "No C++ exception leaves a function of the C interface, a callback given to clingo, or a noexcept function; each caught error is reported as a failure with clingo's error set; and no failure reported by a function of the C API of clingo or clingo-lpx is ignored.",
     ["inputs", "fault_sequences"], "all paths on which clingo or the library reports an error", "Error paths are hardly ever taken in tests.",
     [S + "clingo-lpx.cc", "app/src/main.cc", "app/lib/src/app.cc"], [("C interface", S + "clingo-lpx.cc extern \"C\" functions"), ("callbacks", S + "clingo-lpx.cc init/propagate/undo/check/decide, parse_*"), ("noexcept", S + "solving.cc Propagator::undo"), ("application", "app/src/main.cc App")],
     ST, "exception-escape and ignored-status analysis over the call graph")
prop("C15", "Options have the documented effect on the command line and via configure",
     "Each documented value of an option, in any case, sets exactly that option, whether given on the command line or with clingolpx_configure; every other text and every unknown key is rejected with an error and changes nothing. Options that are not given leave the features off (local objectives, no strict mode). Parsers access the object registered for them with its own type, and an infinitesimal step is only accepted in strict mode.",
     ["inputs", "configurations"], "all options, documented values in several spellings, and texts close to them", "Tests set a few options through one of the two interfaces.",
     [S + "clingo-lpx.cc"], [("configure", S + "clingo-lpx.cc clingolpx_configure"), ("command line", S + "clingo-lpx.cc clingolpx_register_options, parse_*"), ("validation", S + "clingo-lpx.cc clingolpx_validate_options")],
     AI, "both interfaces are interpreted for enumerated texts and the resulting options compared with the documentation")
prop("C16", "The C interface exposes exactly the variables and values of the assignment",
     "Iterating over an assignment through the C interface visits each variable of the program exactly once and nothing else; indices, symbols and looked-up variables correspond to each other; and the value reported for an index and a thread is the value the solver of that thread has for that variable, exactly.",
     ["inputs", "configurations"], "all patterns of user and auxiliary variables, all values, several threads, with and without strict mode", "Tests look at the symbols attached to models and hardly use the C interface.",
     [S + "clingo-lpx.cc", S + "solving.cc"], [("iteration and access", S + "clingo-lpx.cc LPXPropagatorFacade, clingolpx_assignment_*"), ("lookup", S + "solving.cc Propagator::lookup_symbol/get_symbol/has_value/get_value")],
     AI, "the C functions are interpreted for all patterns of variables up to a bound and symbolic values")
prop("C17", "Models are extended and printed with exactly the values of the variables",
     "Each model is extended by one term per user variable with its name and its exact value, and by the objective value together with whether it is bounded if there is an objective; auxiliary variables never show up. The application prints exactly these values with each model, in ascending order of the symbols, and stays silent about everything else.",
     ["inputs", "configurations"], "all patterns of variables, all values, bounded and unbounded objectives", "Tests see a few concrete values, mostly integers and without auxiliary variables.",
     [S + "clingo-lpx.cc", "app/src/main.cc"], [("extending models", S + "clingo-lpx.cc LPXPropagatorFacade::extend_model"), ("printing", "app/src/main.cc App::print_model")],
     AI, "both functions are interpreted for symbolic values and the terms added or printed compared with the assignment")
prop("C18", "Threads only share state that is protected",
     "While several threads are solving, each callback only modifies the solver of its own thread and shared state that no callback of another thread accesses at the same time; the shared objective state is only read while its mutex is held and only written while it is held exclusively, and there is no other mutable global state. Hence there are no data races, and the results of one thread never leak into another one.",
     ["schedules", "inputs"], "all pairs of callbacks running concurrently, all contents of the shared state", "Races show up only under rare interleavings; the tests use one thread.",
     [S + "solving.cc", S + "solving.hh"], [("callbacks", S + "solving.cc Propagator::propagate/check/undo/decide/on_model"), ("shared objective", S + "solving.cc ObjectiveState::update/value")],
     AI, "callbacks are interpreted with everything another callback may modify being inaccessible; lock state is tracked; static variables are checked structurally")
prop("C19", "Statistics count the pivots and propagated bounds of all threads",
     "The statistics of a step (below key Simplex) report the number of pivots performed as Pivots and the number of bounds propagated as Bounds propagated, summed up over all threads; the accumulated statistics are the sums over all steps.",
     ["inputs", "histories", "configurations"], "all counters, numbers of threads and earlier statistics", "Tests never look at statistics.",
     [S + "solving.cc", S + "clingo-lpx.cc"], [("reporting", S + "solving.cc Propagator::on_statistics"), ("counting", S + "solving.cc Solver::pivot_, propagate_")],
     AI, "symbolic counters; pivots and clauses of one generic iteration compared with the counters")
prop("C20", "The sign heuristic follows the chosen strategy",
     "With strategy match, a literal is made false exactly if one of its constraints is violated, or one of the constraints of its complement is satisfied, by the current assignment of the deciding thread; with strategy conflict it is the other way round; and without a strategy the decision of the ASP solver is kept. The variable decided upon never changes.",
     ["inputs", "histories"], "all assignments, bounds, relations and signs of literals", "A wrong sign only makes solving slower.",
     [S + "solving.cc"], [("adjusting signs", S + "solving.cc Solver::adjust, Bound::compare"), ("callback", S + "solving.cc Propagator::decide")],
     AI, "decisions for symbolic bounds and values are compared with the specification")
prop("C21", "Multi-shot solving keeps variables, constraints and facts of earlier steps",
     "In each step of a multi-shot run, the variables keep their indices, all constraints of earlier steps are still watched and known to the solver of each thread, constraints that became facts in earlier steps are enforced again in each thread as soon as the top-level check is performed, nothing else is, and the best objective value of earlier steps is forgotten.",
     ["histories", "configurations"], "sequences of up to three steps, all distributions of facts over steps, changing numbers of threads", "Tests run few multi-shot programs, all with one thread.",
     [S + "solving.cc"], [("initialisation", S + "solving.cc Propagator::init"), ("replaying facts", S + "solving.cc Propagator::check"), ("recording facts", S + "solving.cc Propagator::propagate")],
     AI, "sequences of steps with symbolic bounds")
prop("C22", "Callbacks stop as soon as the ASP solver reports a conflict",
     "When adding a clause or propagating fails, the callback does not interact with the ASP solver any more and returns, and each function in between reports the failure; failures are never reported without cause. This is what the protocol of clingo requires of propagators.",
     ["inputs", "fault_sequences"], "all points at which adding a clause or propagating can fail, all abstract states", "Conflicts at unusual points are rare in small programs.",
     [S + "solving.cc"], [("asserting and propagating", S + "solving.cc Solver::solve, update_bound_, propagate_"), ("objectives", S + "solving.cc Solver::integrate_objective, discard_bounded, assert_bound_"), ("setup", S + "solving.cc Solver::prepare, Propagator::init")],
     AI, "each such call fails in some partition; interactions after a failure are violations")
prop("C23", "The theory grammar admits exactly the documented language",
     "The grammar registered with clingo admits exactly the documented atoms (&sum, &diff and &dom in heads, &minimize and &maximize as directives), guards, relations and arithmetic operators with the usual precedence and associativity; strict relations are admitted in strict mode and only there.",
     ["programs", "configurations"], "all programs using theory atoms, both modes", "Tests exercise a few expressions; priorities and places only matter for combinations of operators.",
     [S + "parsing.hh", S + "clingo-lpx.cc"], [("grammars", S + "parsing.hh THEORY, THEORY_Q"), ("registration", S + "clingo-lpx.cc clingolpx_register")],
     "interpretation of clingolpx_register and comparison of the parsed theory definition with the documented language", "the texts added to the control object are parsed and compared operator by operator")
prop("C24", "Versions, C interface, Python binding and Python application agree",
     "The C interface has the functions, types and values the protocol of clingo's theory class requires, the Python binding describes exactly these, and all version numbers agree. The Python application registers the theory, passes every statement, option, model and statistics through it, and prints the assignment of each model.",
     ["programs", "configurations"], "all uses of the library through C and Python", "The Python part is not built or tested here; mismatches only show when calling the affected function.",
     ["libclingo-lpx/clingo-lpx.h", S + "clingo-lpx.cc", "libpyclingo-lpx/_clingolpx.c", "libpyclingo-lpx/clingolpx/__init__.py", "libpyclingo-lpx/clingolpx/__main__.py", "app/src/main.cc"],
     [("C interface", "libclingo-lpx/clingo-lpx.h"), ("type tables", "libpyclingo-lpx/_clingolpx.c _cffi_types, _cffi_globals"), ("Python application", "libpyclingo-lpx/clingolpx/__main__.py ClingoLPXApp")],
     "comparison of types across languages and abstract interpretation of the Python syntax tree", "types compared function by function; the Python code is interpreted with opaque library objects")
prop("C25", "Registration and application connect clingo, theory and propagator correctly",
     "Registering a theory adds its grammar to the grounded program part and registers one propagator of the number type of the mode with exactly the configured options, whose callbacks pass their arguments to it unchanged; decisions are only taken over if a strategy is selected. The application registers the theory, adds each statement of the given files once, grounds, solves with itself as event handler, passes all hooks to its theory and ends with an error as soon as any step fails.",
     ["configurations", "fault_sequences"], "all configurations, arguments of callbacks and failing steps", "Tests use a test driver of their own and neither the C interface nor the application.",
     [S + "clingo-lpx.cc", "app/src/main.cc", "app/lib/src/app.cc", "app/lib/clingo-lpx-app/app.hh"],
     [("registration", S + "clingo-lpx.cc clingolpx_register, LPXPropagatorFacade"), ("callbacks", S + "clingo-lpx.cc init, propagate, undo, check, decide"), ("application", "app/src/main.cc App, main"), ("rewriter", "app/lib/src/app.cc Rewriter")],
     AI, "the functions are interpreted with models of clingo's C and C++ API in which every step may fail")
prop("C26", "No undefined behaviour: lifetimes, initialisation and ranges are respected",
     "No execution of the library uses an iterator, pointer or reference to an element its container has moved or removed, an object that was deleted, or a variable that was never initialised, accesses containers out of range, dereferences null pointers or divides by zero. Classes owned through a base class have virtual destructors.",
     ["inputs", "histories"], "all partitions of the abstract states the other properties start from", "Undefined behaviour often goes unnoticed in tests, which are run without sanitizers.",
     [S + "solving.cc", S + "tableau.cc", S + "tableau.hh", S + "parsing.cc", S + "clingo-lpx.cc"],
     [("trails and bounds", S + "solving.cc Solver::undo, Solver::prepare, Variable::update"), ("terms under construction", S + "parsing.cc parse_sum_elem, parse_sum_elems, simplify"), ("tableau iterators", S + "tableau.cc Tableau::set, Tableau::pivot"), ("owned propagators", S + "clingo-lpx.cc clingolpx_theory, PropagatorFacade")],
     AI, "lifetimes, invalidation and initialisation are part of the abstract state; front-end diagnostics and ownership rules are structural")
prop("C27", "Propagation options select exactly what is propagated",
     "With bound propagation disabled, rows never give rise to clauses. If it is restricted to changed rows, each row whose basic variable was moved or exchanged since the row was last examined, or that has never been examined, is examined whenever propagation succeeds, and with full propagation each row; examining a row makes each constraint over its basic variable false that the bounds in force exclude. With propagation of conflicts, for all pairs of constraints over the same variable that exclude each other, unit propagation makes one false once the other is true; without it no such clause is added.",
     ["inputs", "histories", "configurations"], "all bounds, coefficients, values, relations and previous states of the rows", "Missing propagation only makes solving slower, and additional clauses go unnoticed as long as they are implied.",
     [S + "solving.cc"], [("rows", S + "solving.cc Solver::propagate_"), ("changed rows", S + "solving.cc Solver::enqueue_, update_, pivot_"), ("pairs", S + "solving.cc Solver::prepare, Bound::conflicts")],
     AI, "one generic step for each option; the bounds implied by rows are compared with the clauses added")
prop("C28", "Assignments survive backtracking exactly if this is configured",
     "With --store=partial the values of the variables after each successful propagation, and with partial and total those after checking a total assignment, are kept when decision levels are undone; all other values found on a level, in particular those before a conflict and all values with --store=no, are replaced by the values last kept.",
     ["histories", "configurations"], "all values, bounds and rows; sequences of two propagations on one or two levels, checks of partial and total assignments", "Kept assignments only influence the number of pivots and which of several optimal assignments is found.",
     [S + "solving.cc"], [("propagation", S + "solving.cc Solver::solve"), ("total assignments", S + "solving.cc Propagator::check"), ("storing and restoring", S + "solving.cc Solver::store_sat_assignment, Solver::undo")],
     AI, "values after backtracking are compared with those found before for each option")
