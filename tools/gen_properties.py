"""Regenerates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

core = "jaxfg/core/"; sol = "jaxfg/solvers/"
p("C01", "Storage layouts give every variable its own block",
  "For any collection of distinct variables of any types and dimensions, in global or local (tangent) parameterization, the storage layout assigns each variable a block of exactly its own dimension; blocks are pairwise disjoint, cover the whole storage vector with no gap, variables of one type are contiguous and in the order given, and variables are listed in ascending storage order. The recorded per-type start indices and counts and the total dimension agree with those blocks, and the global and local layouts of the same variables list them in the same order.",
  ["inputs", "configurations"], "all sequences of distinct variables, all type assignments, all parameter/tangent dimensions",
  "Tests use at most 3 variables of 2 types with two dimensions; index arithmetic errors show only for particular type interleavings and dimensions.",
  [core + "_storage_layout.py"], [("bucket by type, running offset", core + "_storage_layout.py:StorageLayout.make")], ["StorageLayout.make", "get_variables", "get_variable_types"])
p("C02", "Variable assignments behave as a faithful variable-to-value map",
  "Building assignments from a full dictionary, a partial dictionary (missing entries get the variable's default value) or defaults, and then reading any variable one by one, as a dictionary, or stacked by type, returns exactly the value associated with that variable. Replacing one variable's value returns a new object in which that variable reads back the new value and every other variable is unchanged, and leaves the original object unchanged.",
  ["inputs", "histories", "configurations"], "all variable sets (several types, structured values), all values, all read/replace sequences",
  "No test reads back values after replacement or partial construction; tests use one or two variables of one type.",
  [core + "_variable_assignments.py", core + "_variables.py"], [("flatten/unflatten + layout indices", core + "_variable_assignments.py")], ["make_from_dict", "make_from_partial_dict", "make_from_defaults", "get_value", "get_stacked_value", "as_dict", "set_value"],
  [("storage", "flattened values", core + "_variable_assignments.py")])
p("C03", "Changing the storage layout never changes what any variable maps to",
  "Converting assignments (global or local) to any other layout over the same variables yields assignments in which every variable still maps to the same numbers; converting back restores the original storage. Converting to a layout over different variables, or between local and global layouts, is refused rather than silently producing values.",
  ["inputs", "configurations"], "all pairs of layouts over the same variables, all stored values",
  "One test permutes two scalar variables of the same type; unequal block sizes and type reordering are never exercised.",
  [core + "_variable_assignments.py"], [("index shuffle", core + "_variable_assignments.py:update_storage_layout")], ["update_storage_layout"])
p("C04", "Retraction moves each variable by its own delta only",
  "Applying a set of local deltas to assignments updates every variable to that variable's type-specific retraction of its own current value by its own delta, for every variable, whatever the storage orders of the two objects are. The result keeps the layout of the assignments being updated.",
  ["inputs", "configurations"], "all variable sets, type mixes, dimensions, orders of both layouts, all values, deltas and retraction functions",
  "Tests only retract two SE(2) variables stored in the same order.",
  [core + "_variable_assignments.py", core + "_variables.py"], [("per-type batched retraction", core + "_variable_assignments.py:manifold_retract")], ["VariableAssignments.manifold_retract"])
p("C05", "Stacking is transparent: graph residuals and cost equal the per-factor ones",
  "For every collection of factors, the graph's whitened residual vector is a concatenation of each factor's own whitened residual, evaluated with that factor's own parameters and noise model on the values of its own variables in the declared order, each factor appearing exactly once; the cost is the sum of the squares of that vector. This holds however factors are ordered, however variables are ordered in the assignments, and whether or not factors can be batched together (different types, array shapes, static fields, noise models, repeated or shared variables).",
  ["inputs", "configurations"], "all graphs within the bound, all residual and whitening functions, all parameters and values, all assignment layouts",
  "Tests compare only solved optima of a handful of graphs; mixing up parameters or variables of factors within or across groups needs asymmetric graphs.",
  [core + "_factor_stack.py", core + "_stacked_factor_graph.py", core + "_factor_base.py"],
  [("group key, stacking, index gather, vmap", core + "_stacked_factor_graph.py:make; " + core + "_factor_stack.py")], ["compute_whitened_residual_vector", "compute_cost"])
p("C06", "The sparse Jacobian is the derivative of the residual, in the right place",
  "For every graph, the matrix returned by linearization has one row per entry of the graph's residual vector and one column per local parameter, and its entries are the derivatives of each whitened residual entry with respect to each variable's local delta at zero (zero where the factor does not touch the variable, summed where it touches it twice). User-supplied Jacobians are placed in exactly the same rows and columns, and rows line up with the residual vector.",
  ["inputs", "configurations"], "all graphs within the bound, all residual functions and derivatives, retractions, noise scalings and values",
  "Tests only observe the Jacobian through convergence of easy problems, where a misplaced or mis-scaled block often still converges.",
  [core + "_factor_base.py", core + "_factor_stack.py", core + "_stacked_factor_graph.py"],
  [("coordinate computation", core + "_factor_stack.py:compute_jacobian_coords"), ("chain rule", core + "_factor_base.py:compute_residual_jacobians")], ["compute_whitened_residual_jacobian"])
p("C07", "Gaussian whitening realises the Mahalanobis distance",
  "For a Gaussian noise model built from any symmetric positive definite covariance (or a diagonal one from any positive variances), the squared norm of the whitened residual equals r' * inverse(covariance) * r for every residual r. Whitening is linear in the residual and a Jacobian is whitened by the same linear map; the model's residual dimension is that of the covariance.",
  ["inputs"], "all SPD covariances, residuals and Jacobians within the dimension bound",
  "Tests use identity covariances nearly everywhere, for which transposes, inverses and square roots cannot be told apart.",
  ["jaxfg/noises/_gaussians.py"], [("inverse Cholesky factor", "jaxfg/noises/_gaussians.py")], ["make_from_covariance", "whiten_residual_vector", "whiten_jacobian", "get_residual_dim"])
p("C08", "Huber wrapping reweights residual and Jacobian consistently",
  "With threshold delta and wrapped-whitened residual w, the Huber-whitened residual equals w when |w| < delta and otherwise has the direction of w and squared norm delta*|w|. In a linearized graph the Jacobian rows of a Huber factor are the wrapped model's rows scaled by the same weight as that factor's residual, so that Jacobian-transpose times residual is the gradient direction delta*w/|w| of the Huber loss.",
  ["inputs"], "all residuals, thresholds delta > 0, wrapped Gaussian models and factor Jacobians within the bound, including residuals at and across the threshold",
  "The only test checks that an extreme outlier is attenuated by a factor of 100.",
  ["jaxfg/noises/_huber.py", core + "_stacked_factor_graph.py"], [("norm-dependent scale", "jaxfg/noises/_huber.py")], ["HuberWrapper", "compute_whitened_residual_jacobian"])
p("C09", "Joint NLL is Mahalanobis terms plus log-determinants of all factors",
  "For graphs with Gaussian noise, the reported joint negative log-likelihood equals the sum over factors of squared whitened residual plus log determinant of that factor's covariance (twice the NLL up to constants), for full and diagonal noise models alike and independent of grouping. It is refused for noise models that are not Gaussian.",
  ["inputs", "configurations"], "all square-root precisions (any sign of determinant), residual functions, groupings",
  "Tests only compare values before and after optimization, where determinants cancel.",
  [core + "_stacked_factor_graph.py"], [("log-det accumulation", core + "_stacked_factor_graph.py:compute_joint_nll")], ["compute_joint_nll"])
p("C10", "All views of a sparse matrix denote the same linear map",
  "For every sparse matrix (any shape, coordinates in any order, with repeated coordinates meaning summed entries), multiplication by a vector, multiplication by the transpose, densification, and conversion to and from SciPy agree with one another, and transposing twice is the identity.",
  ["inputs"], "all coordinate lists and values within the bound (including repeated coordinates and empty rows/columns), all vectors",
  "Densification is marked untested in the source; tests use matrices without repeated coordinates only.",
  ["jaxfg/sparse/_sparse_matrix.py"], [("scatter/gather", "jaxfg/sparse/_sparse_matrix.py")], ["@", ".T", "as_dense", "as_scipy_coo_matrix", "from_scipy_coo_matrix"])
p("C11", "Linear subproblem solvers solve the damped normal equations they are given",
  "Given A, ATb and damping L, the CHOLMOD solver returns the solution of (A'A + (L + 1e-5) I) x = ATb for the matrix it is currently given, also when it has solved another system of the same shape before. The conjugate gradient solvers stop with |ATb - (A'A + L diag(A'A)) x| <= tolerance * |ATb| or after as many iterations as unknowns (at which point exact arithmetic CG has the exact solution), where tolerance is the configured one, respectively eta / (iteration + 1) for the inexact-step variant.",
  ["inputs", "histories"], "all matrices (sparsity patterns without repeated coordinates, nonzero columns), right-hand sides, dampings, iteration numbers, solve histories of one solver object",
  "Tests solve one random undamped 20x5 system; damping, tolerances, iteration dependence and reuse are never exercised.",
  ["jaxfg/sparse/_linear_solve.py"], [("CHOLMOD factorization with beta", "jaxfg/sparse/_linear_solve.py:CholmodSolver"), ("CG operator, preconditioner, tolerance", "jaxfg/sparse/_linear_solve.py:_ConjugateGradientSolver")], ["solve_subproblem"])
p("C12", "Gauss-Newton takes exactly the steps its definition prescribes",
  "Each Gauss-Newton iteration linearizes the graph at the current estimate, asks the configured linear solver for the undamped step of that linearization (with right-hand side minus Jacobian-transpose times the residual at the current estimate, and the current iteration number), and retracts the estimate by it. The standard solver returns the estimate reached when a termination criterion fires; the fixed-iteration solver performs exactly the configured number of such steps, unrolled or not.",
  ["inputs", "histories"], "all residual functions, Jacobians, linear solver responses, initial values, tolerances, iteration limits within the unrolling bound",
  "Tests check only that the cost decreased on easy problems where many wrong iterations also decrease it.",
  [sol + "_gauss_newton_solver.py", sol + "_fixed_iteration_gauss_newton_solver.py", sol + "_nonlinear_solver_base.py"], [("step + while loop", sol)], ["StackedFactorGraph.solve"],
  [("solver state", "iterations, assignments, cost, residual vector, done", sol + "_nonlinear_solver_base.py")])
p("C13", "Levenberg-Marquardt accepts, rejects and damps as defined, with a coherent state",
  "Each Levenberg-Marquardt iteration solves the linearization at the current estimate with the current damping, accepts the proposal exactly when actual over predicted cost change reaches the step-quality threshold, then divides the damping by its factor, and otherwise keeps the estimate, its cost and its linearization point unchanged and multiplies the damping by its factor within the configured minimum and maximum. The next iteration always uses residuals and Jacobian of the estimate it starts from, whether the previous step was accepted or rejected.",
  ["inputs", "histories"], "all residual functions, Jacobians, linear solver responses, damping settings, accept/reject histories within the unrolling bound",
  "Tests never reach a rejected step; whatever is kept after a rejection is unobserved.",
  [sol + "_levenberg_marquardt_solver.py", sol + "_mixins.py", sol + "_nonlinear_solver_base.py"], [("accept flag, state selection, damping update", sol + "_levenberg_marquardt_solver.py:_step")], ["StackedFactorGraph.solve"],
  [("solver state", "estimate, cost, residual, damping", sol + "_levenberg_marquardt_solver.py")])
p("C14", "Dogleg steps stay in the trust region and follow the dogleg path",
  "Every dogleg step is the Gauss-Newton step if that lies within the trust radius, else the Cauchy step scaled to the radius if the Cauchy point lies outside it, else the point of the segment from the Cauchy point to the Gauss-Newton point whose norm is the radius; so no step is longer than the radius. The radius is halved when step quality is below 1/4, becomes at least three times the step length when above 3/4, and is otherwise unchanged; a proposal is accepted exactly when step quality reaches the threshold, and a rejected proposal leaves estimate, cost and linearization point unchanged.",
  ["inputs", "histories"], "all Jacobians, residuals, radii, Gauss-Newton steps, accept/reject histories within the bound",
  "The dogleg test uses a problem whose Gauss-Newton step is inside the initial radius or nearly so; blending and rejection are unobserved.",
  [sol + "_dogleg_solver.py", sol + "_mixins.py"], [("blend, radius update, accept flag", sol + "_dogleg_solver.py:_step")], ["StackedFactorGraph.solve"],
  [("solver state", "estimate, cost, residual, radius", sol + "_dogleg_solver.py")])
p("C15", "Solvers stop exactly on their documented termination criteria",
  "A solve always ends after at most the configured maximum number of iterations (at least one), and before that exactly when, on an accepted step, the relative cost change is below the cost tolerance, or the infinity norm of the estimate minus the estimate retracted by the negative gradient is below the gradient tolerance (checked from the configured start step on), or the step norm is below (norm of the estimate + tolerance) * parameter tolerance. In particular no criterion fires merely because a quantity is negative or not a number.",
  ["inputs", "histories"], "all costs, gradients, steps, tolerances, start steps and iteration limits within the unrolling bound, including non-finite intermediate values",
  "Tests never look at why or when a solve stopped; the gradient criterion only matters after ten iterations.",
  [sol + "_mixins.py", sol + "_nonlinear_solver_base.py"], [("termination criteria", sol + "_mixins.py:check_convergence, check_exceeded_max_iterations"), ("while loop", sol + "_nonlinear_solver_base.py:solve")], ["StackedFactorGraph.solve"])
p("C16", "Solving does not depend on how the caller stored the variables",
  "For every nonlinear solver, solving the same graph from assignments that map the same variables to the same values but store them in a different order gives the same solution value for every variable. The solution is returned in the caller's storage order, over the caller's variables, and the graph, factors and initial assignments are left unchanged.",
  ["inputs", "configurations"], "all solvers, all layouts of the initial assignments, all residual functions and values within the bound",
  "The ordering test covers one solver and one swap of two scalar variables.",
  [sol + "_nonlinear_solver_base.py", sol + "_fixed_iteration_gauss_newton_solver.py", core + "_variable_assignments.py"], [("layout conversion before and after the loop", sol + "_nonlinear_solver_base.py:solve")], ["StackedFactorGraph.solve"])
p("C17", "Marginal covariances are blocks of the inverse information matrix",
  "For every graph whose information matrix A'A (A the whitened Jacobian at the given assignments) is invertible, the marginal covariance returned for any sequence of variables is the corresponding block of the inverse of A'A, rows and columns in the order the variables were passed, independent of earlier queries and of the fill-reducing ordering chosen by the factorization. The dense covariance, computed either way, is that inverse in storage order.",
  ["inputs", "configurations", "histories"], "all Jacobians, factorization orderings, query sequences and variable orders within the bound",
  "Tests use one or two pose variables for which the factorization happens to keep the natural order.",
  ["jaxfg/experimental/_sparse_covariance.py"], [("covariance recovery recursion with cache", "jaxfg/experimental/_sparse_covariance.py")], ["SparseCovariance.make", "compute_marginal", "as_dense"],
  [("value cache", "memoised covariance entries", "jaxfg/experimental/_sparse_covariance.py")])
p("C18", "Variable types form consistent manifolds",
  "For SO(2), SE(2), SO(3), SE(3), real-vector and default (structured) variables: flattening and unflattening are mutually inverse, retracting by zero leaves the value unchanged, retracting by a delta is group multiplication by its exponential (addition for vectors) and stays on the manifold, and the retraction Jacobian is the derivative of the retraction at zero. Dimensions, defaults and tangent dimensions are those of the group.",
  ["inputs"], "all group elements and deltas (outside the small-angle series region except at zero)",
  "Tests exercise SE(2) only, through convergence.",
  ["jaxfg/geometry/_lie_variables.py", core + "_variables.py"], [("Lie group wrappers", "jaxfg/geometry/_lie_variables.py"), ("ravel/unravel, autodiff retraction Jacobian", core + "_variables.py")], ["manifold_retract", "manifold_retract_jacobian", "flatten", "unflatten", "get_default_value"])
p("C19", "Prior and between factors measure the documented relative transform",
  "For all four Lie groups the prior residual is log(T^-1 * mu) and the between residual is log((Ta^-1 * Tb)^-1 * Tab), in that order and sign, so both vanish when the variables agree with the measurement. The analytical Jacobians these factors supply equal the derivative of the residual with respect to right-multiplied local deltas wherever the residual is zero (and everywhere for SO(2)); the between constructor rejects variables and measurements of mismatched groups.",
  ["inputs"], "all group elements (on-manifold) and measurements",
  "Tests use SE(2) with translations only, so rotations, adjoints and signs cancel.",
  ["jaxfg/geometry/_factors.py"], [("residual and analytical Jacobians", "jaxfg/geometry/_factors.py")], ["PriorFactor", "BetweenFactor"])
p("C20", "Trust-region solvers never adopt a worse or non-finite estimate",
  "With a linear solver whose finite steps decrease the linearized cost, Levenberg-Marquardt and dogleg never return an estimate whose cost exceeds the cost of the initial estimate, and the cost never increases from one iteration to the next. A proposal whose cost or step is NaN or infinite is never adopted: the estimate stays at the last finite one.",
  ["inputs", "histories", "fault_sequences"], "all residual functions including ones returning NaN or infinity at proposals, all linear solver responses including NaN, all step-quality thresholds > 0 within the unrolling bound",
  "Tests never produce a bad proposal, so the rejection path and non-finite handling are unobserved.",
  [sol + "_mixins.py", sol + "_levenberg_marquardt_solver.py", sol + "_dogleg_solver.py"], [("step quality test", sol + "_mixins.py:compute_step_quality")], ["StackedFactorGraph.solve"])
p("C21", "Batched (vmap) evaluation equals element-by-element evaluation",
  "Evaluating residuals, costs, Jacobians, retractions, re-layouts, value access and whole solves (with linear solvers that support vmap) under vmap over a batch of assignments gives, for each batch element, the result of evaluating that element alone; the same holds for batches of graphs whose factor parameters differ.",
  ["inputs", "configurations"], "all batches within the bound, all residual functions and values, lanes that terminate at different iterations",
  "No test uses vmap at all.",
  [core + "_stacked_factor_graph.py", core + "_variable_assignments.py", sol + "_nonlinear_solver_base.py"], [("shape-polymorphic pytrees", core)], ["jax.vmap over public API"])
p("C22", "g2o files are read into the graph they describe",
  "For every well-formed g2o pose graph (vertices numbered from zero in file order), parsing yields one variable per vertex in file order with the stated initial pose, and for each edge one between factor from the first to the second listed vertex whose measurement is the stated relative pose and whose noise model's precision (square-root precision transposed times itself) is the symmetric matrix whose upper triangle the file lists; plus one prior that anchors the first pose at its initial value.",
  ["inputs"], "all numeric field values of 2D and 3D vertex and edge lines",
  "The parser has no tests; only its syntax is checked.",
  ["scripts/_g2o_utils.py"], [("line parser", "scripts/_g2o_utils.py:parse_g2o")], ["parse_g2o"])
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
