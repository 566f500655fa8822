"""What each check runs, and how it is described. Used by /verif/check and tools/gen_manifest.py."""

# engines: (kind, binary, share of the cases)
#   native  the harness as it is
#   asan    the harness under AddressSanitizer (nightly)
#   miri    the harness under Miri (nightly); fixed numbers of cases for quick and thorough
NATIVE = [("native", "mon")]
MOCK = [("native", "mock")]

COMMON = ("The monitors see only executions: the guarantee is for the cases generated with this seed. "
          "Trusted: the harness' own reference (written independently of numopt) and rustc. ")

P = {}


def p(pid, technique, rule, need, note, level="exploration", engines=NATIVE):
    P[pid] = dict(technique=technique, rule=rule, need=need, note=COMMON + note, level=level, engines=engines)


p("C01", "online value monitor against an independent evaluator",
  "A case is a random expression program (up to a few dozen operations over shared subexpressions, every operand form) built once as numopt nodes and once in the harness' own representation, evaluated at three points; it is non-trivial if its shape (operators, sharing, operand forms, special constants) was not seen before.",
  ["deep_expressions"], "Comparison tolerance follows a running bound on the size of intermediate values; points near singularities are excluded by that bound.")
p("C02", "online derivative monitor against hyper-dual automatic differentiation",
  "A case is a random expression program with shared subexpressions, all its first derivatives (asked singly and together) at several points; non-trivial if its shape is new.",
  ["deep_expressions", "direct_partials"], "Points at which the reference cannot bound the rounding error are skipped and counted.")
p("C03", "online gradient/Hessian monitor against hyper-dual automatic differentiation",
  "A case is a random expression; listed entries are compared with second-order automatic differentiation, unlisted pairs must have zero second derivatives at all points; non-trivial if its shape is new.",
  ["deep_expressions"], "That an unlisted pair is identically zero is checked at the sampled points only.")
p("C04", "online monitor of affine detection against an own classifier and evaluations",
  "A case is a random expression, biased to affine ones and near-affine ones (including products and quotients with constant factors); non-trivial if its shape is new.",
  ["deep_expressions", "constants_compared"], "Completeness is judged by the syntactic class in the statement, soundness by evaluation.")
p("C05", "online monitor of evaluations with missing values",
  "A case is an expression or constraint evaluated with every combination of missing values that matters, and constraints at points around their limits; non-trivial if its shape is new.",
  ["deep_expressions"], "NaN is the library's documented marker for undefined.")
p("C06", "round-trip monitor: printed text re-parsed by an own precedence parser",
  "A case is a printed expression, constraint or model whose text is parsed by the harness and compared with the original at random points; non-trivial if its shape is new.",
  ["deep_expressions"], "The grammar is that of ordinary arithmetic precedence; names are plain identifiers in this check.")
p("C07", "metamorphic runs and histories against a model of identities",
  "A case is a model built under two namings (equal, swapped, hostile names) or a history of clones, drops and comparisons; non-trivial if the model shape or history is new.",
  [], "Identity is judged through results, equality and hashing of handles.")
p("C08", "online monitor of the standard form against membership sampled at points",
  "A case is a random model with points on, near and off its constraints; feasibility and objective are compared through the standard problem's matrices, limits and evaluations; non-trivial if the model shape is new.",
  ["large_cases"], "Slack values are derived from the rows; values beyond the library's infinity of 1e8 are out of scope.")
p("C09", "online monitor of class, integrality and initial point against an own classifier",
  "A case is a random model of every class with random initial values; non-trivial if the model shape is new.",
  ["large_cases"], "")
p("C10", "metamorphic monitor of limits under permutation and repetition",
  "A case is a model with several limits per variable in several orders; non-trivial if the model shape is new.",
  [], "")
p("C11", "online monitor of evaluation sequences against automatic differentiation",
  "A case is a nonlinear model and a sequence of evaluations and Hessian combinations at new and repeated points; non-trivial if the model shape is new.",
  [], "")
p("C12", "online monitor of problem views against dense references, refusal of bad shapes",
  "A case is a problem of some class built from random parts with the right or wrong shapes; non-trivial by dimensions, class, kind of defect.",
  ["nonfinite_multipliers", "large_cases"], "Refusal means a panic, as documented by the constructors' assertions.")
p("C13", "online monitor of sparse matrix conversions against dense references",
  "A case is a random triplet matrix with duplicates, empty rows and any order, converted, iterated, multiplied and read back; non-trivial by its pattern.",
  ["large_cases"], "")
p("C14", "offline checker of written LP files: own parser and the reading of a real solver",
  "A case is a problem written as an LP file, read back by the harness' parser of the LP grammar, and on a sample by clp (which writes it out as MPS); non-trivial by dimensions and pattern.",
  ["files_read_by_clp", "rows_compared", "large_cases", "cut_files_refused", "impossible_files_refused"], "Trusts the MPS writer of clp 1.17.9 for the part that is re-read by the solvers.")
p("C15", "fault enumeration over solution files: every truncation, mutations, own reader as oracle",
  "A case is a generated solution file of cbc or clp, read whole, cut at every byte, or mutated (lines, numbers, indices, bytes); evaluations count cases, each of which reads up to hundreds of files; non-trivial by the file's structure.",
  ["large_cases"], "The format is that of the installed cbc and clp; real files of both are part of the workload.", level="fault_enumeration")
p("C16", "certificate checker over runs of the real solvers",
  "A case is a linear program with known feasibility solved by cbc, clp and Ipopt; primal feasibility, dual signs, complementarity and stationarity are checked from the reported values; non-trivial by model shape.",
  ["solves", "clp_solved", "cbc_solved", "ipopt_solved", "large_cases", "long_programs"],
  "Scope: bounded programs inside the library's infinity of 1e8; for Ipopt a strict interior and independent equations, fewer than columns. Two recorded known findings (KNOWN_FINDINGS).")
p("C17", "online monitor of real cbc runs against exhaustive enumeration",
  "A case is a small mixed-integer program solved by cbc, compared with brute force over the integer box (linear part by enumeration of bases); non-trivial by model shape.",
  ["solves", "large_cases", "splits"], "Contradictions of cbc itself (different answers to the same file with reductions off) are attributed to cbc and counted as solver_faults.")
p("C18", "optimality-condition checker over runs of the real Ipopt",
  "A case is a convex or smooth nonlinear model with known well-posedness solved by Ipopt; feasibility and first-order conditions from automatic differentiation; non-trivial by model shape.",
  ["solves", "ipopt_solved", "large_cases"], "Scope: limits that are not equal, values inside 1e8, tolerance 2e-5 scaled.")
p("C19", "recording solver with unique values; every value traced to its origin",
  "A case is a model solved by a recording solver that answers with all different values; rows are recognised by unique coefficients; non-trivial by model shape.",
  ["large_cases"], "")
p("C20", "monitor over every solver and class, stand-in commands recording invocations",
  "A case is a problem of some class given to each solver with stand-in commands; refusals must come before any command is started; non-trivial by problem.",
  ["refused_Clp_Milp", "refused_Clp_Nlp", "refused_Cbc_Nlp", "refused_Ipopt_Milp", "accepted_Cbc_Milp", "accepted_Ipopt_Nlp"], "")
p("C21", "fault injection into the external command at every offset of its output",
  "A case is one failure of the command (missing, unstartable, exit code, signal, stall, no file, partial or garbled file at an offset) in one solve; non-trivial by kind, offset class and file.",
  ["fault_no_fault", "fault_unfinished", "fault_killed_partial", "fault_truncated", "unstartable_missing", "slow_commands", "ends_not_reported"],
  "Faults are those a process can show through files, exit codes and signals.", level="fault_enumeration")
p("C22", "directory monitor around solves (snapshots before and after)",
  "A case is a sequence of solves with all outcomes in a scratch world with decoy files; the working, temporary and other directories are compared before and after; non-trivial by outcome sequence.",
  ["files_watched", "solves", "ends_not_reported", "other_directories"], "Only the directories that the process can name (working, temporary, decoys) are watched.")
p("C23", "concurrent stress with delays; each result compared with the problem it belongs to",
  "A case is a set of threads and processes solving different problems at once with random delays in the command; non-trivial by the observed order of commands.",
  ["solves", "processes"], "Interleavings are those that injected delays and the scheduler produced.")
p("C24", "stand-in Ipopt library driving legal callback sequences, replies compared with a reference",
  "A case is a problem (own terms or from a model) solved by the bridge while the stand-in library asks a random legal sequence of evaluations; non-trivial by the sequence of requests.",
  ["Hess_x0_l0", "Hess_x1_l0", "Hess_x0_l1", "Jac_x0", "G_x1", "solves_of_models", "large_cases"],
  "The calling rules are those of the Ipopt 3.11 C interface.", engines=MOCK)
p("C25", "AddressSanitizer, Miri and guard zones on the bridge with a hostile stand-in Ipopt",
  "A case is a problem with a hostile evaluation function or entries outside of their matrices, option values and library failures, solved up to three times; non-trivial by the sequence of requests.",
  ["created", "released", "create_refused", "option_refused", "hostile_F", "hostile_J", "hostile_Hk", "outside", "unwritten", "values_read"],
  "The real library is not instrumented; the stand-in checks what it is given.",
  engines=[("native", "mock"), ("asan", "mock"), ("miri", "mock")])
p("C26", "histories of settings against a model of the store; values seen by commands and library",
  "A case is a history of settings on several solver objects, compared after every step, with solves whose arguments are recorded; non-trivial by the history.",
  ["set", "wrong_type", "unknown", "values_seen_by_commands", "options_seen_by_ipopt"], "",
  engines=[("native", "mon"), ("native", "mock")])
p("C27", "stand-in Ipopt library recording what it is given and answering with every code",
  "A case is a problem solved up to three times with random return codes and results; non-trivial by dimensions and return code.",
  ["code_success", "code_infeasible", "code_other", "unwritten", "large_cases"], "", engines=MOCK)
p("C28", "histories of edits, solves and failures against freshly built models",
  "A case is a history on one model with a recording solver or real solvers, compared at every solve with a model built afresh, or one problem object solved repeatedly; non-trivial by history and model shape.",
  ["compared_with_fresh", "compared_after_failure", "failed_solves", "solves_of_one_problem", "real_Ipopt_solved"], "")
p("C29", "crash monitor over real Ipopt runs on models without finite values",
  "A case is a model whose functions or derivatives are undefined or overflow at points that Ipopt visits; non-trivial by model shape.",
  ["solves", "division_by_zero_error", "overflow_error", "constant_error"], "A crash of the process is a violation.")
p("C30", "online monitor of path enumeration against an independent walk by node address",
  "A case is a random expression program with shared subexpressions and lists of variables asked for (some missing, some asked twice, some foreign); non-trivial if its shape is new.",
  ["paths_compared", "expressions_with_several_paths", "variables_not_contained", "not_variables", "deep_expressions"], "The reference walks the arguments that the nodes themselves report; that they are the right ones is C01 and C02.")
p("C31", "resource monitor: counting allocator, open files, threads and children between repetitions",
  "A case is an expression, a model, a series of solves of one model, a solve with a stand-in command (with a fault or not) or with Ipopt, repeated up to seven times with what is held counted exactly after each; non-trivial by shape and fault.",
  ["expressions", "models", "models_solved_repeatedly", "commands_repeated", "commands_solved", "ipopt_repeated", "ipopt_solves", "slow_commands", "unwritten_inputs"],
  "What stays constant from the second repetition on counts as set up once. Memory is that of the Rust allocator; the Ipopt library's own is covered by the count of problems in C25.")
p("C32", "history monitor of what models, constraints and variables report",
  "A case is a model with hostile tags and a history of uses (solves that succeed and fail, initial values, evaluation, differentiation, printing, clones, more constraints, another objective); after each use everything is asked again and compared with what was given; non-trivial by history and model shape.",
  ["initial_values_set", "compared_after_use", "solves", "constraints", "with_unusual_names", "with_unusual_numbers"], "")
p("C33", "online monitor of standard components against membership and automatic differentiation",
  "A case is a random model; the components of each constraint (numbered from random counters), their sum and those of the whole model are compared with the constraint at points on, near and off it; non-trivial if the model shape is new.",
  ["constraints", "points_satisfying", "points_violating", "derivatives_compared", "objectives_compared", "models", "with_unusual_numbers", "parts_A", "parts_ALS", "parts_F", "parts_FLS", "parts_L"],
  "The value of a new variable is derived from the row that it occurs in.")
p("C34", "monitor of the standard streams (captured) and of the process state around uses",
  "A case is a use of the library without a solver, or a solve with a stand-in command (with output of its own, any level, fault or not), a real command, Ipopt or a solver of the harness, with the standard streams replaced by memory files and the process state read before and after; non-trivial by what is solved and how.",
  ["library_uses", "model_solves", "quiet_commands", "speaking_commands", "commands_not_run", "real_commands", "ipopt_solves", "solved", "not_solved", "errors"],
  "Process state is the list in the statement, as the system reports it. The stand-in for cbc is silent with logLevel 0, like cbc; the one for clp is not, like clp.")
