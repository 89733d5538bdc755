SETUP = "python3 -m mzv.build"
DIFF = "property-based testing: random models, exhaustive reference enumeration of every assignment as oracle, integrated shrinking"

prop("C01", "A compiled model has exactly the solutions of the model it was compiled from",
     "For a model of integer and Boolean variables, arrays of them, arithmetic, comparison, logic, conditionals, comprehensions, local declarations, user-defined functions and array access, the solutions reported by the driver when asked for all solutions are exactly the assignments that satisfy the model under the relational semantics: no solution is lost, none is invented, and each assigns every declared variable the value the model gives it. "
     "This holds at every optimisation level and with half-reification on or off, and the search is declared complete or unsatisfiable accordingly.",
     ["programs", "configurations"], "every well-typed model with small integer and Boolean domains; -O0..-O3, half reification on and off; standard library and Gecode library back ends",
     "the test suite solves a few hundred fixed models; wrong simplification, common-subexpression sharing, unification, undefinedness or reification needs a particular combination of expressions and contexts that no fixed list reaches (ten such defects were found in the tree and repaired)",
     ["lib/flatten.cpp", "lib/flatten/flatten_binop.cpp", "lib/flatten/flatten_call.cpp", "lib/flatten/flatten_ite.cpp", "lib/flatten/flatten_comp.cpp", "lib/flatten/flatten_arrayaccess.cpp", "lib/flatten/flatten_let.cpp", "lib/flatten/flatten_unop.cpp", "lib/optimize.cpp", "lib/optimize_constraints.cpp", "lib/chain_compressor.cpp", "share/minizinc/std/stdlib/stdlib_internal.mzn"],
     [("flattening with common subexpression elimination and partiality tracking", "lib/flatten.cpp flat_exp, EnvI"), ("presolve: unification, substitution, constraint simplification", "lib/optimize.cpp"), ("redefinition of comparison and arithmetic for FlatZinc", "share/minizinc/std")],
     DIFF, "2600 models per quick run, 60000 thorough; up to ~220 assignments per model all decided; trusts Gecode 6.2 on FlatZinc", observe=["solution stream of minizinc -a"])

GW = "the test suite has one or two instances per constraint, nearly always in a positive context; the meaning must hold for every argument shape, repeated variables, constants, shifted index sets and every Boolean context"
prop("C02", "Counting, all-different and cardinality constraints mean what is documented",
     "Every predicate and function of the standard library for counting and equality patterns (all different and its exceptions, symmetric all different, all equal, among, at least, at most, exactly, count and its relational forms, number of values, distribute, global cardinality in all its forms, sliding sums and the like) is true of exactly the assignments its documentation describes, in positive, negated, reified, half-reified and conditional contexts.",
     ["programs", "inputs"], "every constraint of the group over arrays of up to 4 variables, constants or small expressions, any index set, any Boolean context", GW,
     ["share/minizinc/std/all_different.mzn", "share/minizinc/std/count.mzn", "share/minizinc/std/global_cardinality.mzn", "share/minizinc/std/among.mzn", "share/minizinc/std/nvalue.mzn", "share/minizinc/std/sliding_sum.mzn", "share/minizinc/std/distribute.mzn", "share/minizinc/gecode_presolver"],
     [("decompositions and reified decompositions", "share/minizinc/std/fzn_*.mzn"), ("solver specific redefinitions and the internal solver's posters", "share/minizinc/gecode_presolver, solvers/gecode")],
     DIFF, "2000 models per quick run; arrays up to 4 elements")
prop("C03", "Ordering, sorting, indexing and precedence constraints mean what is documented",
     "Every predicate and function of the standard library for ordering, lexicographic order, sorting, index of a value or extremum, element access, inverse, membership and value precedence is true of (or evaluates on) exactly the assignments its documentation describes, in every Boolean context in which it is supported.",
     ["programs", "inputs"], "every constraint of the group over arrays of up to 4 variables, constants or small expressions, any index set, any supported Boolean context", GW,
     ["share/minizinc/std/increasing.mzn", "share/minizinc/std/lex_less.mzn", "share/minizinc/std/sort.mzn", "share/minizinc/std/arg_sort.mzn", "share/minizinc/std/inverse.mzn", "share/minizinc/std/element.mzn", "share/minizinc/std/member.mzn", "share/minizinc/std/value_precede.mzn"],
     [("decompositions and reified decompositions", "share/minizinc/std/fzn_*.mzn"), ("solver specific redefinitions and the internal solver's posters", "share/minizinc/gecode_presolver, solvers/gecode")],
     DIFF, "2000 models per quick run; arrays up to 4 elements")

prop("C04", "Scheduling, packing and network flow constraints mean what is documented",
     "Every predicate and function of the standard library for scheduling (cumulative, cumulatives with upper or lower bounds, disjunctive in both forms, span, alternative), for packing (bin packing with common, individual and variable loads, non-overlapping boxes in any dimension, knapsack, geometric objects) and for network flow is true of (or evaluates on) exactly the assignments its documentation describes, with mandatory and with optional tasks or items, in every Boolean context in which it is supported.",
     ["programs", "inputs"], "every constraint of the group over up to 4 tasks, items or boxes (variable or fixed, present or absent, any index set, short and long horizons), any supported Boolean context", GW,
     ["share/minizinc/std/cumulative.mzn", "share/minizinc/std/cumulatives.mzn", "share/minizinc/std/disjunctive.mzn", "share/minizinc/std/disjunctive_strict.mzn", "share/minizinc/std/span.mzn", "share/minizinc/std/alternative.mzn", "share/minizinc/std/bin_packing.mzn", "share/minizinc/std/bin_packing_load.mzn", "share/minizinc/std/diffn.mzn", "share/minizinc/std/knapsack.mzn", "share/minizinc/std/network_flow.mzn", "share/minizinc/std/geost.mzn", "solvers/gecode/gecode_constraints.cpp"],
     [("decompositions and reified decompositions", "share/minizinc/std/fzn_*.mzn"), ("solver specific redefinitions and the internal solver's posters", "share/minizinc/gecode_presolver, solvers/gecode")],
     DIFF, "2000 models per quick run; up to 4 tasks, at most 700 assignments")
prop("C05", "Table, automaton and decision diagram constraints mean what is documented",
     "Every extensional predicate and function of the standard library (table over integers, Booleans and options, regular with deterministic and nondeterministic automata, automata given by regular expressions, mdd in its forms, and the versions with costs) is true of exactly the assignments its documentation describes, for any index sets of its arguments and for values outside the alphabet or table, in every Boolean context in which it is supported.",
     ["programs", "inputs"], "every constraint of the group over arrays of up to 4 variables, random tables, automata, expressions and diagrams, any index set, any supported Boolean context", GW,
     ["lib/support/regex", "share/minizinc/std/table.mzn", "share/minizinc/std/regular.mzn", "share/minizinc/std/regular_nfa.mzn", "share/minizinc/std/regular_set.mzn", "share/minizinc/std/mdd.mzn", "share/minizinc/std/cost_mdd.mzn", "share/minizinc/std/cost_regular.mzn", "solvers/gecode/gecode_constraints.cpp"],
     [("regular expression compiler", "lib/builtins.cpp, lib/support/regex.yxx"), ("decompositions and reified decompositions", "share/minizinc/std/fzn_*.mzn"), ("the internal solver's posters", "solvers/gecode/gecode_constraints.cpp")],
     DIFF, "2000 models per quick run; up to 4 variables")
prop("C06", "A fixed expression evaluates to the value the language defines for it",
     "Every expression without decision variables (arithmetic, comparison and logic on integers, floats, Booleans and enumerated values; strings and their functions including show, format, join, concatenation and regular splitting; set algebra; arrays of any dimension and index set with slicing, concatenation, comprehensions, sorting, element and index functions; tuples, records and option values with default; conditionals, let and user-defined functions) evaluates to the value the language defines, the same in output, in a parameter declaration, in a let, inside a function, as the value of a variable and in a constraint, at any optimisation level.",
     ["inputs", "programs"], "every well-typed fixed expression over the built-in types with small values; integer values within +-10^15, floats within 10^-9..10^12; array, set, string, enum, tuple, record and option types nested up to the depth the language allows",
     "the tests evaluate a few fixed expressions per function; a wrong case (an empty set or array, an index set that does not start at one, a negative operand, a slice, a nested comprehension with conditions, a gap in a set) needs a particular value and context (eight such defects were found in the tree and repaired)",
     ["lib/eval_par.cpp", "lib/builtins.cpp", "lib/typecheck.cpp", "lib/ast.cpp", "lib/flatten.cpp", "lib/values.cpp", "include/minizinc/iter.hh", "share/minizinc/std/stdlib"],
     [("evaluation of fixed expressions", "lib/eval_par.cpp eval_int, eval_bool, eval_intset, eval_array_lit, eval_comp"), ("built-in functions", "lib/builtins.cpp"), ("set iterators", "include/minizinc/iter.hh, lib/values.cpp"), ("coercions, slicing and enum typing", "lib/typecheck.cpp")],
     "property-based testing: typed random expressions with a reference evaluator in Python as oracle, integrated shrinking",
     "about 16000 expressions per quick run; the reference evaluator shares no code with the implementation", observe=["output of minizinc"])
prop("C07", "Bounds and domains reported at compile time enclose every value taken",
     "When a model asks for the bounds or domain of an expression over decision variables (lb, ub, dom, lb_array, ub_array, dom_array) in a fixed context, a function, a declaration or a local declaration, the answer encloses every value the expression takes in any solution, and asking neither removes a solution, invents one, nor fails, at any optimisation level.",
     ["programs", "configurations"], "integer expressions over small integer and Boolean variables, with constraints and local declarations around them; -O0..-O3",
     "bounds are computed syntactically, by interval arithmetic and from tightened domains; a missing tightening is harmless and a wrong one loses solutions only for some sign and overlap of domains, which fixed models do not sample",
     ["lib/eval_par.cpp", "lib/builtins.cpp", "lib/flatten.cpp", "lib/flatten/flatten_binop.cpp", "lib/flatten/flatten_arrayaccess.cpp", "lib/flatten/flatten_comp.cpp", "include/minizinc/eval_par.hh"],
     [("interval arithmetic over expressions", "lib/eval_par.cpp compute_int_bounds, compute_intset_bounds"), ("bound and domain builtins", "lib/builtins.cpp b_lb, b_ub, b_dom"), ("domains tightened while flattening", "lib/flatten.cpp, lib/flatten/flatten_binop.cpp")],
     DIFF, "2200 models per quick run; every assignment of the variables decided by enumeration", observe=["output of minizinc -a"])
prop("C08", "Models with set variables have exactly the solutions of the model",
     "For a model over variables of type set of int and arrays of them, together with integer and Boolean variables, using set algebra, membership, subset and equality, cardinality, ranges with variable ends, set literals and comprehensions over variables, element access, conditionals, local declarations and the set globals (disjoint, all_disjoint, partition_set, roots, range, int_set_channel, link_set_to_booleans, sum_set, at_most1 and the like), the solutions reported for all solutions are exactly the assignments that satisfy the model, with set support in the solver, with the library that represents sets by Booleans, and with the in-process Gecode solver, at -O0, -O1 and -O2.",
     ["programs", "configurations"], "every well-typed model with up to about 250 assignments over sets of up to 4 elements (negative, sparse and empty universes included)",
     "the tests solve a few set models; a wrong case needs an empty or sparse universe, a repeated operand, a negated or reified context or a second compilation pass (more than ten such defects were found in the tree and repaired)",
     ["lib/flatten.cpp", "lib/flatten/flatten_binop.cpp", "lib/flatten/flatten_ite.cpp", "lib/flatten/flatten_comp.cpp", "lib/flatten/flatten_setlit.cpp", "lib/eval_par.cpp", "solvers/gecode/gecode_constraints.cpp", "share/minizinc/std/nosets.mzn", "share/minizinc/std/stdlib/stdlib_set.mzn"],
     [("set bounds and flattening of set expressions", "lib/eval_par.cpp compute_intset_bounds, lib/flatten"), ("posters for set constraints of the in-process solver", "solvers/gecode/gecode_constraints.cpp"), ("sets as arrays of Booleans", "share/minizinc/std/nosets.mzn")],
     DIFF, "1800 models per quick run; three back ends", observe=["solution stream of minizinc -a"])
prop("C09", "Half-reification preserves the solutions",
     "When a solver library offers half-reified predicates p_imp(args, r) that mean no more than r -> p(args), the solutions of a compiled model are exactly those of the model: the compiler uses a half-reified form only where the enclosing Boolean context is positive, so that an implication which leaves r free when p holds never invents, loses or distorts a solution, for integer, Boolean and set constraints, in every nesting of negation, implication, equivalence, conditionals, local declarations, functions, comprehensions and undefinedness.",
     ["programs", "configurations"], "every well-typed model with small domains, compiled against a library whose half-reified predicates are as weak as allowed; -O0..-O3, chain compression on and off",
     "no solver of the test suite makes half-reification as weak as its contract allows, so wrong contexts stay invisible there (two wrong contexts were found in the tree and repaired)",
     ["lib/flatten.cpp", "lib/flatten/flatten_binop.cpp", "lib/flatten/flatten_call.cpp", "lib/flatten/flatten_ite.cpp", "lib/flatten/flatten_let.cpp", "lib/flatten/flatten_unop.cpp", "lib/flatten/flatten_comp.cpp", "lib/chain_compressor.cpp", "include/minizinc/flatten_internal.hh"],
     [("context tracking", "lib/flatten Ctx, BCtx, EnvI::addCtxAnn, cse_result_change_ctx"), ("choice of the reified or half-reified predicate", "lib/model.cpp matchReification"), ("implication chains", "lib/chain_compressor.cpp")],
     DIFF, "1900 models per quick run; back end implements p_imp(x, r) as p_reif(x, q) with r -> q", observe=["solution stream of minizinc -a"])
prop("C10", "Models with optional variables have exactly the solutions of the model",
     "For a model over variables of type opt int and opt bool and arrays of them, together with plain variables, using arithmetic, comparison, weak comparison and Boolean connectives on optional operands, occurs, absent, guarded deopt, default, conditionals with absent branches, element access with optional values or an optional index, aggregates (sum, product, min, max, count, forall, exists) over optional elements, comprehensions whose condition is a variable, local declarations and functions with optional parameters, the solutions reported for all solutions are exactly the assignments (absence being one of the values) that satisfy the model, with and without set support in the solver and with the in-process Gecode solver, at -O0, -O1 and -O2.",
     ["programs", "configurations"], "every well-typed model with up to about 200 assignments over optional variables with small domains",
     "the meaning of an absent operand depends on the operator and its context (negated, reified, in a comprehension, defined by an expression); more than ten wrong combinations were found in the tree and repaired",
     ["lib/flatten/flatten_binop.cpp", "lib/flatten/flatten_comp.cpp", "lib/flatten/flatten_ite.cpp", "lib/flatten/flatten_call.cpp", "lib/flatten.cpp", "lib/typecheck.cpp", "lib/output.cpp", "share/minizinc/std/stdlib"],
     [("representation of optional variables by occurs and deopt", "lib/flatten.cpp bind, share/minizinc/std/stdlib"), ("comprehensions with variable conditions", "lib/flatten/flatten_comp.cpp"), ("conditionals with absent branches", "lib/flatten/flatten_ite.cpp")],
     DIFF, "1800 models per quick run; three back ends", observe=["solution stream of minizinc -a"])
prop("C11", "Parameter values pass through every data format unchanged",
     "A parameter value of any type (int, float, bool, string, enum, set, option, array of any dimension and index set, tuple, record, nested) given in the model, in one or more DZN files, in a JSON file or on the command line (as DZN or JSON) is the value the model sees, and what is printed for it by the DZN and the JSON output modes denotes that value again and gives it back when used as data; data that does not fit its declaration (a wrong type, a value outside the domain, a wrong index set, an unknown enum member, a second different assignment, an unknown DZN name, a missing value) is rejected with an error.",
     ["inputs", "configurations"], "up to 9 parameters of random types and values spread over the data sources; nesting as deep as the formats allow",
     "a format loses a value only for some type and value (an empty array or inner dimension, an integer beyond 32 bits, an escape in a string, an index set that does not start at one, an enum inside a tuple); the tests read a few fixed files (eight such defects were found in the tree and repaired)",
     ["lib/json_parser.cpp", "lib/lexer.lxx", "lib/parser.yxx", "lib/output.cpp", "lib/builtins.cpp", "lib/typecheck.cpp", "lib/flattener.cpp", "lib/eval_par.cpp"],
     [("JSON data", "lib/json_parser.cpp"), ("checking of instance data against declarations", "lib/eval_par.cpp check_par_domain, check_index_sets"), ("DZN and JSON output", "lib/output.cpp, lib/builtins.cpp b_show_dzn, b_show_json")],
     "property-based testing: random types and values, round trip through every format, planted data errors; integrated shrinking",
     "650 instances per quick run, each printed in DZN and JSON and fed back", observe=["output of minizinc"])
prop("C12", "Optimisation returns an optimal solution, and counts of solutions are respected",
     "For a model with an objective (integer, Boolean or float expression, minimise or maximise), whatever the search annotations, every reported solution satisfies the model, each of -a and -i reports solutions of strictly improving objective, the last one before ========== has the optimal objective value, and the _objective value printed is the value of the objective expression; without an objective, -n K reports exactly min(K, number of solutions) solutions, all different, and ========== only if the search space was exhausted; an infeasible model is reported unsatisfiable; all this with an external solver and with the in-process solvers, at -O0..-O2.",
     ["programs", "configurations"], "every well-typed model with up to a few hundred assignments and an arbitrary objective; -a, -i, -n K, --canonicalize, output modes",
     "the objective is an expression that is flattened with its own context, bounds and renaming; a wrong context or bound returns a suboptimal answer only for some expression and some data",
     ["lib/flatten.cpp", "lib/flattener.cpp", "lib/solver.cpp", "lib/solns2out.cpp", "lib/output.cpp", "solvers/gecode/gecode_solverinstance.cpp", "solvers/fzn/fzn_solverinstance.cpp"],
     [("objective in the flat model", "lib/flatten.cpp, lib/output.cpp _objective"), ("branch and bound in process", "solvers/gecode/gecode_solverinstance.cpp"), ("number of solutions", "lib/solver.cpp, solvers/fzn/fzn_solverinstance.cpp, lib/solns2out.cpp")],
     DIFF, "1900 models per quick run", observe=["solution stream of minizinc -a, -i, -n"])
prop("C13", "A solver's solution stream is translated faithfully, however it arrives",
     "Whatever a FlatZinc solver writes (solutions with values of every FlatZinc type in any legal layout, comments, statistics, duplicates, any final status, CR-LF line ends), however its output is cut into chunks, wherever it ends (a truncated last solution, a nonzero exit status, a signal), and whatever the output mode (item, dzn, json, JSON stream) and stream options (messages, separators, canonicalisation, uniqueness, statistics, raw copy, output file), MiniZinc reports exactly the complete solutions of the stream, once each in the order asked for, with the values the solver gave, and the right status; the same when the stream is piped to minizinc --ozn-file.",
     ["inputs", "faults", "schedules"], "streams of up to 12 solutions over integer, Boolean, float, set, enum variables and arrays of them of up to 3 dimensions; chunk boundaries anywhere",
     "the tests run only well-behaved solvers whose output arrives in one piece; translation of a stream that is cut inside a token, ends early or carries unusual layout is never exercised",
     ["lib/solns2out.cpp", "lib/solver.cpp", "lib/output.cpp", "solvers/fzn/fzn_solverinstance.cpp", "include/minizinc/process.hh", "minizinc.cpp"],
     [("stream assembly and evaluation of output", "lib/solns2out.cpp Solns2Out::feedRawDataChunk, parseAssignments, evalOutput, evalStatus"), ("solver process", "include/minizinc/process.hh"), ("--ozn-file", "lib/solver.cpp, lib/solns2out.cpp")],
     "property-based testing with fault injection: random solution streams replayed by a scripted solver, expected output computed from the stream; integrated shrinking",
     "1300 streams per quick run", observe=["standard output and exit of minizinc"])

prop("C14", "Models over tuples, records, enums and arrays of them keep their solutions",
     "For every well-typed model over variables of tuple, record, enumerated and (nested) array types, combined by field and element access (with fixed and variable indices), literals, conditionals with fixed and variable conditions, local declarations, type synonyms, user functions, comprehensions, concatenation and comparison (=, !=, <, <=, >, >=, in), and whether the structured values are fixed, variable or mixed, the solutions MiniZinc reports are exactly those of the model, with every structured value printed with its fields in place, and never a crash or an internal error.",
     ["programs"], "every well-typed model of the generator with up to a few hundred assignments",
     "a structured value is taken apart and put back together at many places (arrays of structures, conditionals, coercion of fixed to variable fields, comparisons, output) and each mistake needs a particular nesting of types and operators",
     ["lib/typecheck.cpp", "lib/type.cpp", "lib/eval_par.cpp", "lib/flatten.cpp", "lib/flatten/flatten_ite.cpp", "lib/flatten/flatten_binop.cpp", "lib/flatten/flatten_arraylit.cpp", "lib/flatten/flatten_arrayaccess.cpp", "lib/output.cpp"],
     [("conditionals and comparisons over structures", "lib/flatten/flatten_ite.cpp, lib/flatten/flatten_binop.cpp"), ("arrays of structures", "lib/flatten/flatten_arraylit.cpp, lib/flatten/flatten_arrayaccess.cpp"), ("fixed evaluation and comparison", "lib/eval_par.cpp"), ("structured types", "lib/typecheck.cpp, lib/type.cpp")],
     DIFF, "1700 models per quick run", observe=["solution stream of minizinc -a"])
