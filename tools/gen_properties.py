#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
N = "src/model/node.rs"; F = "src/model/function/"
p("C01", "Expressions evaluate to the arithmetic they were written as",
  "An expression built from finite constants and variables with addition, subtraction, multiplication, division, negation, sine and cosine, in any mix of operand forms (owned, borrowed, plain number on either side) and with any sharing of subexpressions, evaluates at every point to the value of the arithmetic as written, up to floating-point rounding. Building such an expression never fails, except that dividing by a literal zero constant is refused.",
  ["inputs", "programs"], "every expression program over the operators, every operand form, every evaluation point away from singularities",
  "The unit tests evaluate a few fixed one- and two-operator expressions; the simplifier rewrites (constant folding, flattening, distribution) interact only in nested shapes they never build.",
  [N, F+"add.rs", F+"mul.rs", F+"div.rs", F+"sin.rs", F+"cos.rs", "src/model/node_func.rs", "src/model/node_base.rs"],
  [("operator overloads with on-the-fly simplification", N), ("recursive evaluation", "src/model/node_base.rs")],
  ["return value of evaluation", "panics during construction"])
p("C02", "First derivatives are exact",
  "The derivative of any expression with respect to any variable, asked for one variable or for several at once, evaluates to the true partial derivative at every point where the expression is smooth, including expressions in which subexpressions are shared or repeated. A variable the expression does not contain gets derivative zero. The partial derivative of a function with respect to a direct argument that occurs once is its true partial derivative, and with respect to anything that is no argument it is zero.",
  ["inputs", "programs"], "every expression DAG, every set of differentiation variables, every smooth point",
  "Tests compare printed derivatives of about twenty fixed expressions; the chain rule over all paths of a shared DAG (e.g. u/u, f*(f*y)) has unboundedly many shapes.",
  ["src/model/node_diff.rs", F+"add.rs", F+"mul.rs", F+"div.rs", F+"sin.rs", F+"cos.rs"],
  [("chain rule summed over all simple paths", "src/model/node_diff.rs"), ("per-function partials", F)],
  ["evaluation of the returned derivative expressions"])
p("C03", "Gradient and Hessian components are exact and complete",
  "The standard components of an expression list every variable it contains exactly once in the gradient, with its true partial derivative, and every unordered pair of variables at most once in the Hessian, with its true second derivative. A pair that is not listed has an identically zero second derivative.",
  ["inputs", "programs"], "every expression, every pair of its variables, every smooth point",
  "Two tests look at one affine and one quadratic expression; sparsity decisions depend on simplification of the second derivative of arbitrary expressions.",
  ["src/model/node_std.rs", "src/model/node_diff.rs"],
  [("gradient/Hessian extraction with zero pruning", "src/model/node_std.rs")],
  ["gradient and Hessian entry lists of standard components"])
p("C04", "Affine detection is sound and complete",
  "An expression reported as affine equals its reported coefficients times its variables plus its reported constant at every point, and an expression composed only of sums, differences, negations and multiplication or division by constants is always reported as affine. Whether affine or not, the reported variables include every variable the expression depends on and no variable that it does not contain. An expression reported as constant has that value at every point, and a number is reported as a constant with its value.",
  ["inputs", "programs"], "every expression including ones made with the function constructors directly",
  "Tests check five or so expressions per function; soundness is a statement about all nestings of the functions.",
  ["src/model/node_std.rs", F+"add.rs", F+"mul.rs", F+"div.rs", F+"sin.rs", F+"cos.rs"],
  [("bottom-up affine/coefficients propagation", "src/model/node_std.rs and src/model/function/*.rs")],
  ["standard properties of an expression against its evaluation"])
p("C05", "Missing values never look like results; violations are exact",
  "Evaluating an expression at an assignment that leaves out a variable that occurs in it gives NaN, never an ordinary number. The violation of a constraint is the absolute difference of its sides for an equality and the amount by which it is exceeded for an inequality, zero exactly when the constraint is satisfied, and NaN when either side is undefined.",
  ["inputs"], "every expression and constraint, every complete or incomplete assignment",
  "One test evaluates violations at a handful of complete assignments; no test evaluates with missing values inside a constraint.",
  ["src/model/node_base.rs", "src/model/constraint.rs", "src/model/node_cmp.rs"],
  [("NaN for unassigned variables", "src/model/node_base.rs"), ("violation", "src/model/constraint.rs")],
  ["return values of evaluation and violation"])
p("C06", "Printed expressions, constraints and models denote what they are",
  "The printed form of any expression, read as ordinary arithmetic with the usual precedence, denotes a function with the same values as the expression. A printed constraint shows its two sides and its direction, and a printed model shows its objective sense, its objective and all of its constraints in the order they were added, with their labels.",
  ["inputs", "programs"], "every expression, constraint and model whose variables have identifier-like names",
  "Tests compare the strings of a few fixed expressions; correct bracketing is a statement about all pairs of nested operators.",
  [F+"add.rs", F+"mul.rs", F+"div.rs", "src/model/constraint.rs", "src/model/model.rs"],
  [("Display with bracketing rules per operand kind", F), ("model listing", "src/model/model.rs")],
  ["printed text re-parsed by an independent parser"])
p("C07", "Variables and constraints are identified by creation, not by name",
  "Two separately created variables or constraints are always distinct and a clone is always the same object as its original, in comparison and as a map key, whatever their names, labels or structure. Models behave the same when their variables are renamed, even if all get one name or the name of an internally introduced slack variable.",
  ["inputs", "histories"], "every model and every renaming of its variables, every sequence of clones and drops",
  "Tests use distinct names nearly everywhere; confusion between equal names or reused addresses shows only under particular histories.",
  [N, "src/model/variable.rs", "src/model/constraint.rs", "src/model/model_std.rs", "src/model/constraint_std.rs"],
  [("pointer identity for equality and hashing", N), ("columns keyed by variable object", "src/model/model_std.rs")],
  ["equality, map lookups, columns of the standard problem, evaluations and solutions"])
p("C08", "The standard problem has the model's feasible set and objective",
  "With values and constants inside the library's infinity of 1e8, a point satisfies every constraint of a model exactly when, together with the implied values of the introduced slack variables, it satisfies the linear equations, nonlinear equations and variable limits of the model's standard problem. The standard objective is the model's objective when minimizing and its negation when maximizing, up to a constant offset for linear problems.",
  ["inputs", "programs"], "every model (any mix of affine/nonlinear equalities, inequalities and simple bounds with expressions on both sides), every point",
  "Three tests check the matrices of one model per class; equivalence of feasible sets is a statement about all constraint shapes and all points.",
  ["src/model/constraint_std.rs", "src/model/model_std.rs"],
  [("bound / affine+slack / nonlinear+slack reformulation", "src/model/constraint_std.rs"), ("assembly of rows and limits", "src/model/model_std.rs")],
  ["matrices, limits and evaluations of the standard problem at sampled points"])
p("C09", "Problem class, integrality and initial point follow the model",
  "A model becomes a linear, mixed-integer linear, nonlinear or mixed-integer nonlinear problem exactly according to whether its objective and constraints are affine and whether it contains integer variables, and the columns marked integer are exactly those of its integer variables. Supplied initial values appear at their variables' positions in the initial point, the latest supplied set replacing earlier ones, and every other position is zero.",
  ["inputs", "programs"], "every model and every set of initial values, including values for variables not in the model",
  "Tests cover one model for three of the four classes and never a mixed-integer nonlinear one.",
  ["src/model/model_std.rs", "src/model/model.rs"],
  [("class selection", "src/model/model_std.rs"), ("integer flags and initial values by column", "src/model/model_std.rs")],
  ["variant, integrality flags and initial point of the standard problem"])
p("C10", "The tightest simple bound wins, whatever the order",
  "When any number of simple bounds are placed on a variable, in any order, its limits in the standard problem are the tightest lower and the tightest upper one, and the library's infinity (1e8) where there is none. The dual of each limit is attributed to a constraint that states exactly that limit, and never to a looser bound or to another variable's constraint.",
  ["inputs", "histories"], "every sequence of simple bounds over every set of variables",
  "No test places two bounds of the same direction on one variable.",
  ["src/model/model_std.rs", "src/model/constraint_std.rs", "src/model/model.rs"],
  [("running min/max of limits with attribution", "src/model/model_std.rs")],
  ["limits of the standard problem, attribution maps and final duals of a recording solver"])
p("C11", "Nonlinear evaluations are right at every point of any sequence",
  "Evaluating the standard nonlinear problem of a model at any sequence of points gives, at each of them, the objective, gradient, objective Hessian, constraint values, Jacobian and constraint Hessians of the model at that point, with no trace of earlier points. The Hessians are given by lower-triangular entries in which each pair of variables contributes once.",
  ["inputs", "histories"], "every nonlinear model, every sequence of evaluation points",
  "One test evaluates one model at one point.",
  ["src/model/model_std.rs", "src/problem/minlp.rs", "src/problem/nlp.rs"],
  [("evaluation closure over the standard components", "src/model/model_std.rs")],
  ["values read from the problem after each evaluation"])
p("C12", "Problem views agree, shapes are checked, Hessians combine linearly",
  "A linear or mixed-integer linear problem presents the same data, and evaluates to the same objective and gradient, through every view it offers (which has no nonlinear rows and no entries of their derivatives), and building any problem from vectors and matrices of inconsistent dimensions is refused. The combined constraint Hessian equals the sum of the multipliers times the constraint Hessians of the latest evaluation, whatever was combined or evaluated before.",
  ["inputs", "histories"], "every problem, every inconsistent shape, every history of evaluations and combinations",
  "One test combines Hessians once; no test builds an inconsistent problem or compares views.",
  ["src/problem/lp.rs", "src/problem/milp.rs", "src/problem/nlp.rs", "src/problem/minlp.rs"],
  [("dimension assertions", "src/problem/minlp.rs"), ("combined Hessian pattern and values", "src/problem/minlp.rs"), ("nested base problems", "src/problem/lp.rs")],
  ["accessors of all views, panics on construction, combined Hessian entries"])
p("C13", "Sparse matrix conversions preserve the matrix",
  "Converting a coordinate matrix to compressed rows, summing its duplicate entries and multiplying by a vector all describe the same matrix: entries keep their positions and values, duplicates add up, and after summing each position occurs at most once. Compressed row pointers start at zero, never decrease, end at the number of entries and delimit each row's entries, including for empty rows and empty matrices. A matrix made from a pattern or a number of entries starts with zero values.",
  ["inputs"], "every coordinate matrix with indices inside its shape, including duplicates, empty rows, unsorted entries and zero dimensions",
  "Two tests use one 3x5 matrix without empty rows.",
  ["src/matrix/coo.rs", "src/matrix/csr.rs"],
  [("counting sort into rows", "src/matrix/coo.rs"), ("last-seen-row duplicate merge", "src/matrix/csr.rs")],
  ["accessors of the converted matrices, products"])
p("C14", "The written LP file is the problem",
  "The LP file written for a mixed-integer linear problem, read by the rules of the LP format, has exactly the problem's objective, equality rows, variable limits and integer variables, to at least ten significant digits. This holds for any matrix (duplicate entries, cancelling entries, empty rows, unused variables) and the reading solvers see the same problem. A file that cannot be written in full is reported as an error.",
  ["inputs"], "every mixed-integer linear problem with finite data",
  "No test inspects the file; solver tests exercise a few small well-formed problems.",
  ["src/problem/milp.rs", "src/matrix/csr.rs"],
  [("LP writer", "src/problem/milp.rs")],
  ["file content re-parsed by an independent LP reader, objective and row values from the installed solvers"])
p("C15", "Solution files are read exactly or rejected",
  "A complete solution file of a supported solver is read into exactly the status, variable values, row duals and bound duals it states, whatever the order of its lines. Any other content (missing, truncated, malformed, out-of-range or arbitrary bytes) gives an error or a non-solved status, never a panic, and never a solved status in which some variable was given no value by the file. Whatever the status, results have one entry per variable and row.",
  ["inputs", "crash_points"], "every solution file in the formats of the supported solvers, every truncation of one, every corruption",
  "The reader is only exercised through successful solves of a few problems.",
  ["src/solver/cbc_cmd.rs"],
  [("line-oriented solution reader shared by both command-line solvers", "src/solver/cbc_cmd.rs")],
  ["return value of the reader on generated files"])
p("C16", "Solved linear programs carry a certificate of optimality",
  "When solving a model that is a linear program ends as solved, with any of the supported solvers, the reported variable values satisfy all constraints, the reported duals have the right sign (nonnegative for inequalities), are zero for inactive inequalities and balance the objective gradient, so that together they certify optimality. A well-scaled linear program with an objective and an optimal solution ends as solved, one with contradictory constraints never ends as solved, and infeasible is reported only if no point is feasible.",
  ["inputs", "configurations"], "every well-scaled bounded linear model whose values stay inside the library's infinity of 1e8, for each linear-capable solver (for the interior-point solver: with a strict interior, fewer independent equations than variables, and rows that have entries; for the simplex solver: with at least one row)",
  "Tests solve six fixed linear models; a wrong sign, row or attribution shows only for particular active sets and mixes of constraint kinds.",
  ["src/model/model.rs", "src/model/model_std.rs", "src/model/constraint_std.rs", "src/solver/clp_cmd.rs", "src/solver/cbc_cmd.rs", "src/solver/ipopt.rs", "src/problem/milp.rs"],
  [("reformulation, file exchange or callbacks, and mapping back", "src/model/model.rs, src/solver/*.rs")],
  ["status, final primal and dual values of the model after a real solve"])
p("C17", "Solved integer programs are integral, feasible and optimal",
  "When solving a model that is a mixed-integer linear program ends as solved, integer variables have integer values, all constraints hold and no feasible point has a better objective. A bounded feasible one with an objective ends as solved and one without any integer-feasible point ends as infeasible, whether or not its linear relaxation is feasible.",
  ["inputs"], "every small bounded mixed-integer linear model",
  "Two tests solve the same four-variable problem; infeasibility of integer problems is never exercised.",
  ["src/solver/cbc_cmd.rs", "src/problem/milp.rs", "src/model/model_std.rs", "src/model/model.rs"],
  [("integrality flags to LP file", "src/problem/milp.rs"), ("status from solution file", "src/solver/cbc_cmd.rs")],
  ["status and final primal values of the model, against exhaustive enumeration"])
p("C18", "Solved nonlinear programs satisfy the optimality conditions",
  "When solving a nonlinear model ends as solved, the reported values satisfy all constraints and, with the reported duals, the first-order optimality conditions of the model: duals of inequalities are nonnegative, vanish where inactive, and balance the objective gradient. A well-posed convex model ends as solved at its unique minimizer, including when linear and nonlinear constraints are mixed.",
  ["inputs"], "every smooth model whose values stay inside the library's infinity of 1e8, with limits that are not equal and fewer independent equations than variables; convex models for the unique-minimizer part",
  "Three tests solve fixed problems; the one with both linear and nonlinear rows starts at its solution.",
  ["src/solver/ipopt.rs", "src/model/model.rs", "src/model/model_std.rs", "src/problem/nlp.rs"],
  [("callbacks into the evaluated problem", "src/solver/ipopt.rs"), ("dual sign conversion", "src/solver/ipopt.rs")],
  ["status, final primal and dual values of the model after a real solve"])
p("C19", "Results are mapped back to the right variables and constraints",
  "After a solve, each variable of the model is reported with the value the solver gave to its column, and each constraint's reported dual is the one the solver gave to the row or limit that represents that constraint. No value is attributed to another variable or constraint, for any number, kind and order of variables and constraints.",
  ["inputs", "programs"], "every model of every problem class, every solution returned by a solver",
  "Tests check duals of one linear model; permutations of columns and rows are not covered.",
  ["src/model/model.rs", "src/model/model_std.rs"],
  [("column and row maps", "src/model/model_std.rs"), ("extraction of final values", "src/model/model.rs")],
  ["final primal and dual maps after a solve with a recording solver that returns unique values"])
p("C20", "Solvers refuse problem classes they cannot represent",
  "Each solver accepts exactly the problem classes it documents (linear for Clp; linear and mixed-integer linear for Cbc; linear and nonlinear for Ipopt) and refuses every other with an error, instead of dropping integrality or nonlinear parts. A refused solve runs no solver, creates no file and leaves the model without results.",
  ["inputs", "configurations"], "every model, every solver",
  "No test passes an unsupported problem to a solver.",
  ["src/solver/clp_cmd.rs", "src/solver/cbc_cmd.rs", "src/solver/ipopt.rs", "src/model/model.rs"],
  [("class dispatch at the start of each solve", "src/solver/*.rs")],
  ["return value of solve, recorded solver invocations and directory contents"])
p("C21", "A failing external solver is never mistaken for success",
  "If the command-line solver is missing, cannot start, exits unsuccessfully, is killed at any point of writing its solution, or leaves a missing, partial or garbled solution file, the solve returns an error or a non-solved status. It never panics and never reports solved with values that the solver did not report. Whatever the status, results have one entry per variable and row.",
  ["fault_sequences", "crash_points"], "every failure of the external process, at every offset of its output",
  "The tests only run the installed solvers to normal completion.",
  ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs"],
  [("process spawn/wait and solution file hand-over", "src/solver/cbc_cmd.rs, src/solver/clp_cmd.rs")],
  ["return value of solve with stand-in solver executables that inject the fault"])
p("C22", "Command-line solves leave no files behind and touch no others",
  "Whatever the outcome of a solve with a command-line solver (solved, infeasible, refused, misconfigured, failed or killed solver, bad solution file), every file it created in the working or temporary directory is gone when it returns. Files that were already there keep their content.",
  ["fault_sequences", "configurations"], "every outcome of a command-line solve",
  "No test looks at the directory.",
  ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs"],
  [("removal of input and output file on each return path", "src/solver/cbc_cmd.rs, src/solver/clp_cmd.rs")],
  ["directory snapshots before and after each solve"])
p("C23", "Concurrent solves do not interfere",
  "Any number of solves running at the same time, in threads of one process (sharing solver objects or not) or in several processes, in one working directory, each return the result of their own problem. No solve reads, overwrites or removes another's files, whatever the relative timing of the solver processes.",
  ["schedules"], "every interleaving of concurrent solves",
  "All solver tests are serialized.",
  ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs"],
  [("unique file names per solve", "src/solver/cbc_cmd.rs, src/solver/clp_cmd.rs")],
  ["results of problems with unique answers solved concurrently with injected delays; recorded file names"])
p("C24", "Ipopt is answered for the point it asks about",
  "For any problem and any sequence of evaluation requests that follows Ipopt's calling rules, each answer is the objective, gradient, constraint values (linear residuals then nonlinear functions), Jacobian or Hessian of the Lagrangian at the point, multipliers and objective factor of that request, in the structure announced at the start. Which requests came before, and whether the point or the multipliers are flagged as new, makes no difference to the answer.",
  ["histories", "inputs"], "every problem, every legal sequence of callbacks with new/unchanged points, multipliers and objective factors",
  "Tests only run full Ipopt solves, which request evaluations in one fixed pattern.",
  ["src/solver/ipopt.rs", "src/problem/nlp.rs", "src/problem/minlp.rs"],
  [("callbacks with cached evaluation", "src/solver/ipopt.rs")],
  ["values written by the callbacks when driven by a stand-in Ipopt library"])
p("C25", "The Ipopt bridge is memory-safe and releases what it acquires",
  "No use of the safe interface makes the bridge to Ipopt read or write outside its buffers, use freed memory or otherwise be undefined, even when a user-supplied evaluation function resizes what it is given or when matrices hold positions outside their shape. Every Ipopt problem that is created is released exactly once on every path out of a solve, and invalid option values are reported as errors.",
  ["inputs", "histories", "fault_sequences"], "every problem and evaluation function, every failure inside Ipopt, every option value",
  "Tests run well-behaved problems without a memory checker.",
  ["src/solver/ipopt.rs", "src/solver/cipopt.rs", "src/problem/minlp.rs"],
  [("raw-pointer callbacks with size checks", "src/solver/ipopt.rs")],
  ["Miri and AddressSanitizer reports, create/free log of the stand-in library"])
p("C26", "Solver parameters behave as a typed store",
  "Setting a parameter that the solver has to a value of its type succeeds and is what is read back and passed to the solver; setting an unknown parameter or a value of another type is an error and changes nothing. No sequence of settings affects other parameters or other solver objects.",
  ["histories"], "every sequence of parameter settings on every solver",
  "Tests set two parameters to valid values.",
  ["src/solver/base.rs", "src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs"],
  [("type-checked update", "src/solver/base.rs"), ("parameters handed to the solver", "src/solver/*.rs")],
  ["results of settings and readings, arguments and options seen by stand-in solvers"])
p("C27", "Ipopt is given the problem and its answer is reported faithfully",
  "Ipopt receives exactly the problem's dimensions, variable limits, zero constraint limits, entry counts and initial point (zeros if there is none). Its final point and limit multipliers are returned unchanged, its constraint multipliers are returned with opposite sign, split into linear and nonlinear ones, and the status is solved only for its success codes and infeasible only for its infeasibility code.",
  ["inputs"], "every problem, every return code and solution of Ipopt",
  "Tests see only successful real solves.",
  ["src/solver/ipopt.rs"],
  [("problem creation, call and result conversion", "src/solver/ipopt.rs")],
  ["arguments received and results returned by a stand-in Ipopt library against the reported solution"])
p("C28", "Solving is repeatable and leaves no stale results",
  "Solving does not change a model or problem: solving again, with the same or another solver, or after a failed solve, gives the same status and objective as solving afresh, and changes made to the model in between take full effect. When a solve fails with an error, the model has no status, primal values or duals left over from an earlier solve.",
  ["histories"], "every sequence of edits, successful solves and failing solves on a model",
  "One test solves the same model twice with the same solver.",
  ["src/model/model.rs", "src/model/model_std.rs", "src/solver/cbc_cmd.rs", "src/solver/ipopt.rs"],
  [("reset before each solve, fresh standard problem", "src/model/model.rs")],
  ["status, primal and dual maps after each step of random solve histories"])
p("C29", "Models without finite values never crash a nonlinear solve",
  "Solving a model whose functions or derivatives are undefined, infinite or overflow at its starting point or at points that the nonlinear solver visits ends with a status or an error; it never crashes the process and never panics. If it ends as solved from a finite (or no) starting point, all reported values are finite.",
  ["inputs"], "every model and starting point, including division by zero, overflow and constants that are not finite",
  "No test evaluates a model outside of its domain; the linear solver inside Ipopt crashes on derivatives that are not finite, which only particular models reach.",
  ["src/solver/ipopt.rs", "src/model/node_std.rs", "src/model/function/div.rs"],
  [("callbacks report derivatives that are not finite as failed evaluations", "src/solver/ipopt.rs")],
  ["exit of the process, status and values after a solve with Ipopt"])
p("C30", "All paths to a variable are found, each once",
  "The paths from an expression to a variable are exactly the ways to reach the variable by going from an expression to one of its arguments, one path per occurrence when the expression is written out in full, however its subexpressions are shared. A variable that does not occur has no paths, every variable asked for (and no other) is in the answer, and asking for paths to or derivatives with respect to anything that is not a variable is refused.",
  ["inputs", "programs"], "every expression DAG, every list of variables asked for",
  "One test counts the paths of four small expressions; derivatives, and through them every nonlinear solve, are sums over these paths.",
  ["src/model/node_diff.rs", "src/model/node_base.rs"],
  [("search over partial paths", "src/model/node_diff.rs")],
  ["the returned paths, compared node by node with an independent enumeration"])
p("C31", "Nothing is retained: memory, files, threads and processes are released",
  "Building, evaluating, differentiating, printing, transforming and solving, with success, refusal or failure, can be repeated without end: all memory, open files and threads taken for it are released when the objects are dropped, and a model or problem that is kept does not hold more after each further use. When a solve with a command-line solver returns, the command it started has ended and has been waited for.",
  ["histories", "fault_sequences"], "every expression, model, solver and outcome of a solve, repeated any number of times",
  "Tests end before anything that accumulates is felt, and look at results only; cycles of shared nodes, forgotten buffers and children that are not waited for show only in what the process holds.",
  ["src/model/node.rs", "src/model/model.rs", "src/model/model_std.rs", "src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs"],
  [("reference counted nodes without cycles", "src/model/node.rs"), ("waiting for the command", "src/solver/cbc_cmd.rs, src/solver/clp_cmd.rs"), ("release after the callbacks", "src/solver/ipopt.rs")],
  ["live bytes and blocks of the allocator, open files, threads and children of the process between repetitions"])
p("C32", "What a model reports is what it was given, and use does not change it",
  "A variable reports the name, kind and value, a constraint the sides, relation and tag, and a model the objective, its direction, the constraints in the order they were added and the initial values it was given, to the bit and to the character. A model that was not solved has no results. Evaluating, differentiating, printing, cloning, transforming and solving (with success or failure) leaves all of that, and what existing expressions print and evaluate to, as it was.",
  ["histories", "inputs"], "every model, tag, name and value, and every history of uses",
  "Tests read back one value right after setting it; that solving or transforming leaves the model alone shows only if everything is asked again after every kind of use.",
  ["src/model/model.rs", "src/model/constraint.rs", "src/model/variable.rs", "src/model/constant.rs"],
  [("accessors", "src/model/model.rs, src/model/constraint.rs"), ("solve", "src/model/model.rs")],
  ["objective, constraints, initial values, sides, tags, names, printed text and values of all expressions after each use"])
p("C33", "Standard components denote their constraint, at the given row numbers",
  "The standard components of a constraint are its meaning: a point satisfies the constraint exactly if it satisfies the rows and limits of the components for some value of the new variable, if there is one; listed derivatives of the nonlinear rows are those of the row. Rows are numbered consecutively from the counters given, which are advanced by the rows used; every row and limit names its constraint as owner and every variable is in its properties. Adding components puts theirs behind those already there; the components of a model are those of its constraints in order, and those of its objective (negated for maximization).",
  ["inputs"], "every constraint, counter and order of adding",
  "Tests list the components of a few small constraints; whether a form is equivalent to its constraint is a statement about all points.",
  ["src/model/constraint_std.rs", "src/model/model_std.rs", "src/model/node_std.rs"],
  [("constraint forms", "src/model/constraint_std.rs"), ("adding up", "src/model/model_std.rs")],
  ["the components, evaluated at points on, near and off the constraint"])
p("C34", "Solves are as quiet as asked and leave the process as it was",
  "With a command-line solver's logLevel at zero, or Ipopt's print_level at zero and its banner off, a solve writes nothing to standard output, whatever its outcome; with another logLevel what the command writes is passed on unchanged. The library itself writes nothing to standard output or standard error, in any use. Building, transforming and solving, with success or failure, leave the process's working directory, environment, file mode mask, signal handling, resource limits and place in standard input as they were.",
  ["histories", "fault_sequences"], "every model, solver, level and outcome of a solve",
  "Tests do not look at the standard streams or the process; what is left changed on a failure path is felt only by what the program does next.",
  ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs", "src/model/model.rs"],
  [("command with its streams", "src/solver/cbc_cmd.rs, src/solver/clp_cmd.rs"), ("options passed to the library", "src/solver/ipopt.rs")],
  ["bytes on standard output and error, and the process's state before and after"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [x["id"] for x in P if len(x["title"]) > 80])
