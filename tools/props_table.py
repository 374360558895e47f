IN, HI, CO = "inputs", "histories", "configurations"

prop("C01", "run equals init_state plus repeated update, with the documented stop",
  "For every iterative solver, run returns exactly the parameters and state that init_state followed by repeated update calls produce: with maxiter=0 the initial ones, otherwise the first update always happens and iteration ends at the first update whose error is not above tol (or whose documented criterion is met), when maxiter updates were made, or, where the option is set, when the line search failed. The reported iteration number is the number of updates made and never exceeds maxiter.",
  [HI, CO, IN], "every error history, every maxiter and tol, every solver and jit/unroll setting",
  "Tests run each solver to convergence on one problem with one maxiter; they never place the tolerance on, above or below intermediate errors, feed nan errors, or compare run with hand-made update chains.",
  ["base.py", "loop.py", "lbfgs.py", "lbfgsb.py", "broyden.py", "levenberg_marquardt.py", "bisection.py", "osqp.py"],
  [("IterativeSolver._run, _cond_fun, _body_fun, _make_zero_step", "base.py"), ("while_loop", "loop.py"), ("overridden _cond_fun", "lbfgs.py"), ("overridden _cond_fun", "levenberg_marquardt.py")],
  [("state.iter_num", "updates made so far", "base.py"), ("state.error", "quantity compared with tol", "base.py"), ("state.failed_linesearch", "last line search failed", "lbfgs.py")],
  ["OptStep returned by run", "OptStep returned by update"])

prop("C02", "Execution options never change a solver's results",
  "For fixed inputs, a solver returns the same parameters and state (up to rounding) whether it runs compiled or not, with its loop unrolled or not, with implicit differentiation on or off, inside an outer jit, or with verbose output. Running a batch of problems through vmap gives for every element what running that element alone gives, even when elements need different numbers of iterations.",
  [CO, IN], "every combination of jit, unroll, implicit_diff, verbose, outer jit and vmap, for every solver and input",
  "Tests fix one or two option combinations per solver; the combinations multiply and the branches (scan, while, python loop, batched predicates) are separate code.",
  ["base.py", "loop.py", "cond.py", "backtracking_linesearch.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "lbfgs.py", "osqp.py"],
  [("while_loop variants", "loop.py"), ("_get_unroll_option", "base.py"), ("cond", "cond.py"), ("line search jit/unroll propagation", "linesearch_util.py")],
  [("solver.jit, solver.unroll", "execution options", "base.py")], ["OptStep returned by run"])

prop("C03", "Reported error, value, gradient and residual describe the solution",
  "After any number of updates of a deterministic solver, the value, gradient, residual, root value and auxiliary output reported in the state are those of the objective at the returned parameters (where the solver reports them at the current iterate), and the reported error is the documented optimality measure: the gradient norm, the projected-gradient or fixed-point residual, the root residual, or the KKT residual. Hence a run that stops because error <= tol returns parameters that really satisfy the optimality condition to that tolerance.",
  [IN, HI, CO], "every objective, start point, number of updates and solver configuration",
  "Tests check final accuracy with loose tolerances on converged runs, where stale values, gradients or errors of the previous iterate are indistinguishable from current ones.",
  ["lbfgs.py", "bfgs.py", "lbfgsb.py", "nonlinear_cg.py", "broyden.py", "gauss_newton.py", "levenberg_marquardt.py", "proximal_gradient.py", "fixed_point_iteration.py", "bisection.py", "iterative_refinement.py", "cd_qp.py"],
  [("state construction in update", "lbfgs.py"), ("state construction in update", "levenberg_marquardt.py"), ("_error", "proximal_gradient.py")],
  [("state.value/grad/aux/residual/error", "reported quantities", "lbfgs.py")], ["state fields after each update"])

prop("C04", "Reported evaluation counts equal the evaluations actually made",
  "For every solver and line search of the library (the SciPy wrappers pass on SciPy's own numbers) that reports numbers of function and gradient evaluations, the reported numbers equal the number of times the user's function and gradient were actually needed along the execution, accumulated over init_state, all updates and all inner line-search iterations, and likewise for reported line-search iterations.",
  [HI, IN, CO], "every objective (including ones on which line searches backtrack, expand or fail), every configuration and number of updates",
  "The tests that look at the counters check a few values on one objective; the paths where a line search fails, expands or re-evaluates are not counted.",
  ["backtracking_linesearch.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "broyden.py", "anderson.py", "fixed_point_iteration.py", "bisection.py"],
  [("num_fun_eval/num_grad_eval accumulation", "lbfgs.py"), ("per line-search accounting", "hager_zhang_linesearch.py")],
  [("state.num_fun_eval, num_grad_eval, num_linesearch_iter", "counters", "lbfgs.py")], ["state counters; calls of a user-supplied value_and_grad"])

prop("C05", "A line search that reports success satisfies its conditions",
  "Whenever a line search along a descent direction ends without reporting failure, the returned step satisfies the conditions it was configured for: sufficient decrease, and with it the Goldstein, Wolfe, strong Wolfe or (Hager-Zhang) approximate Wolfe condition as selected; zoom may return the maximum step size with sufficient decrease only. When the conditions hold at the returned step the search is not reported as failed, and when it fails it says so.",
  [IN, CO, HI], "every function (smooth or not, with nan or infinite values), descent direction, constants, initial step and iteration bound",
  "Tests use a handful of smooth functions and default constants; bracketing, cubic interpolation, expansion, interval collapse and non-finite values need adversarial value/slope sequences.",
  ["backtracking_linesearch.py", "zoom_linesearch.py", "hager_zhang_linesearch.py"],
  [("update", "backtracking_linesearch.py"), ("_search_interval, _zoom_into_interval", "zoom_linesearch.py"), ("_update, _secant2, _bracket", "hager_zhang_linesearch.py")],
  [("state.done, state.failed, state.error", "verdict of the search", "zoom_linesearch.py")], ["LineSearchStep returned by run"])

prop("C06", "Line-search results describe the returned step",
  "At the end of a line search (successful or not) the reported parameters are start + stepsize * direction, and the reported value, gradient and auxiliary output are those of the objective at these parameters. The step size is finite and positive (zero only when a search fails without any usable step) and, for backtracking and zoom, never above the maximum step size, and the search ends within its bound of iterations.",
  [IN, CO, HI], "every function, direction, initial step, bound on steps and iterations, value_and_grad/has_aux form",
  "Tests look at the step size of successful searches; nothing checks the tuple (step, params, value, grad, aux) after failure, saturation or immediate success.",
  ["backtracking_linesearch.py", "zoom_linesearch.py", "hager_zhang_linesearch.py"],
  [("final state construction", "zoom_linesearch.py"), ("update", "hager_zhang_linesearch.py"), ("update", "backtracking_linesearch.py")],
  [("state.params, value, grad, aux", "point the search ended at", "zoom_linesearch.py")], ["LineSearchStep returned by run and update"])

prop("C07", "L-BFGS and L-BFGS-B directions use exactly the most recent pairs",
  "The L-BFGS search direction after k updates equals the BFGS inverse-Hessian recursion applied, in order of age, to exactly the min(k, history_size) most recent parameter/gradient difference pairs, starting from the documented scaled identity (s'y/y'y of the newest pair, or 1); a pair with zero curvature leaves the recursion alone. L-BFGS-B builds its quadratic model in the same way from the most recent pairs of positive curvature, in order of age however often the history has wrapped around, skipping all other pairs, and moves towards the minimiser of that model over the box: the generalised Cauchy point improved on its free variables and cut at the bounds.",
  [HI, IN, CO], "every sequence of iterates and gradients, history size and number of wrap-arounds",
  "Tests stop before or soon after the history wraps and only look at final accuracy, which a wrong order or a stale pair still reaches.",
  ["lbfgs.py", "lbfgsb.py"],
  [("inv_hessian_product, update_history, compute_gamma", "lbfgs.py"), ("compact representation and history shift", "lbfgsb.py")],
  [("s_history, y_history, rho_history, gamma", "ring buffers", "lbfgs.py"), ("s_history, y_history, theta", "ring buffers", "lbfgsb.py")], ["state histories and consecutive iterates of update"])

prop("C08", "BFGS and Broyden updates satisfy their secant equations",
  "Every BFGS update replaces the inverse-Hessian approximation by the BFGS formula for the last step and gradient difference: it stays symmetric, maps the gradient difference to the step, is positive definite whenever it was and the curvature is positive, and is left unchanged when the curvature is zero. The step is taken along minus this matrix times the gradient. Broyden steps along minus gamma I + sum c d' applied to the residual, where each rank-one term makes the approximation map the residual difference to the step (the secant equation) and exactly the history_size most recent terms are kept, for parameters of any tree structure.",
  [HI, IN, CO], "every sequence of iterates, gradients and step sizes, and every parameter structure",
  "Tests check convergence to the optimum, which quasi-Newton methods reach with wrong updates.",
  ["bfgs.py", "broyden.py"],
  [("update of H", "bfgs.py"), ("inv_jacobian_product, update_history", "broyden.py")],
  [("state.H", "inverse Hessian approximation", "bfgs.py"), ("state.d_history, c_history", "low-rank memory", "broyden.py")], ["states of consecutive updates"])

prop("C09", "Anderson acceleration mixes exactly the recorded history",
  "Before history_size updates have been made, and at every update whose number is not a multiple of the mixing frequency, Anderson acceleration performs the plain fixed-point (or inner solver) step; at the others it restarts from the combination sum(alpha_i (x_i + beta r_i)) of the last history_size iterates and residuals, where alpha sums to one and minimises the ridge-regularised residual norm. The history holds exactly the last history_size points the map was applied to with their residuals, and the reported error is the last residual norm (for the wrapper, the inner solver's error).",
  [HI, IN, CO], "every map, history size, mixing frequency, beta, ridge and number of iterations",
  "Tests compare final fixed points, which plain iteration reaches as well.",
  ["anderson.py", "anderson_wrapper.py"],
  [("update, anderson_step, update_history", "anderson.py"), ("update", "anderson_wrapper.py")],
  [("params_history, residuals_history, residual_gram", "ring buffers", "anderson.py")], ["states of consecutive updates"])

prop("C10", "Restarting from a returned OptStep continues the same execution",
  "Splitting an execution is invisible: calling update on a saved (params, state) pair continues exactly as if never interrupted, for every solver, and for the solvers that document warm restarts (L-BFGS, L-BFGS-B, Broyden) running from a returned OptStep yields the same later iterates as one uninterrupted run. A call never changes its inputs or hidden solver state: the same solver object used again, or on other data in between, gives the same results as a fresh one.",
  [HI, CO], "every split point, solver, configuration, and interleaving of calls on the same solver object",
  "Tests warm-start once at one split point; state kept on the solver object or lost from the restart state shows only for particular splits and interleavings.",
  ["base.py", "lbfgs.py", "lbfgsb.py", "broyden.py", "osqp.py", "scipy_wrappers.py"],
  [("init_state on OptStep", "lbfgs.py"), ("init_state on OptStep", "lbfgsb.py"), ("init_state on OptStep", "broyden.py")],
  [("histories, gamma/theta, iter_num, stepsize", "carried over", "lbfgs.py")], ["iterates of split and unsplit executions"])

prop("C11", "has_aux and value_and_grad forms are equivalent",
  "Giving the objective as a plain function, as a function returning (value, aux), as a function returning the value and gradient, or as a function together with a separate value-and-gradient callable, in any combination the solver accepts, leads to the same iterates and reported quantities. A callable supplied together with its gradient is not differentiated while iterating. With has_aux the auxiliary output reported in the state has the structure the function returns and is its output at the returned parameters for BFGS, L-BFGS, L-BFGS-B, nonlinear CG, Broyden, bisection and Levenberg-Marquardt and for successful line searches, and at the point where the last update evaluated the function otherwise.",
  [CO, IN], "every solver, every combination of has_aux and value_and_grad, every pytree of auxiliary data",
  "Tests cover a few combinations, mostly comparing final parameters; aux values along the run and in failure paths are unchecked.",
  ["base.py", "lbfgs.py", "bfgs.py", "lbfgsb.py", "nonlinear_cg.py", "proximal_gradient.py", "armijo_sgd.py", "polyak_sgd.py", "optax_wrapper.py", "scipy_wrappers.py", "levenberg_marquardt.py", "gauss_newton.py", "broyden.py", "anderson.py"],
  [("_make_funs_with_aux, _make_funs_without_aux", "base.py")], [("state.aux", "auxiliary output", "lbfgs.py")], ["OptStep returned by run/update"])

prop("C12", "Projections return the nearest point of their set",
  "For every input and every admissible set parameter, each projection returns a point of the set (non-negative orthant, box, hypercube, simplex, sparse simplex, l1/l2/linf balls and spheres, hyperplane, half-space, affine set, polyhedron, box section, transportation and Birkhoff polytopes) and no point of the set is closer to the input. For the Kullback-Leibler variants the same holds with the KL divergence; parameters may be scalars or arrays and inputs trees where documented. Their derivatives are those of the projection map wherever it is differentiable.",
  [IN, CO], "every input vector/tree (inside, outside, on the boundary, with ties) and every set parameter",
  "Tests sample random inputs for some sets and compare with reference solvers at loose tolerances; ties, boundary points, scaled sets, degenerate sections and interior points are not covered.",
  ["projection.py", "isotonic.py", "osqp.py", "eq_qp.py", "bisection.py"],
  [("projection_*", "projection.py")], [], ["return values of jaxopt.projection functions"])

prop("C13", "Proximal operators solve their defining problem",
  "Each proximal operator returns the minimiser over y of 0.5 ||x - y||^2 + scaling * penalty(y) for its documented penalty (none, lasso, non-negative lasso, elastic net, group lasso, ridge, non-negative ridge), for every input tree, penalty parameter (scalar or matching tree) and scaling. A proximal operator made from a projection is that projection for every scaling.",
  [IN, CO], "every input tree, penalty parameters and scaling",
  "Tests use scaling 1 or one scaling on random vectors; zero blocks, thresholds, zero or large penalties, tree-valued parameters and scaling together with each parameter are not covered.",
  ["prox.py"], [("prox_*", "prox.py"), ("make_prox_from_projection", "prox.py")], [], ["return values of jaxopt.prox functions"])

prop("C14", "Implicit differentiation of roots and fixed points is exact",
  "A solver decorated with custom_root or custom_fixed_point has exactly the Jacobian given by the implicit function theorem with respect to every differentiable argument, in reverse mode (and jax.jacobian), however the arguments are passed (positionally or by keyword, in any order), with or without auxiliary outputs, for any tree of parameters, while the initial guess gets a zero derivative; a call whose keyword arguments cannot be resolved to positions is refused with TypeError, never differentiated wrongly. root_vjp and root_jvp give the corresponding products and agree with each other (they are adjoint).",
  [IN, CO], "every optimality function, every split of arguments into positional and keyword, aux or not, every cotangent/tangent and linear solver",
  "Tests differentiate a ridge problem with a few call forms; the argument-binding code has many more.",
  ["implicit_diff.py", "linear_solve.py"],
  [("root_vjp, root_jvp, _extract_kwargs, _signature_bind, _custom_root, custom_fixed_point", "implicit_diff.py")], [], ["jax.jvp / jax.vjp / jax.jacobian of decorated functions"])

prop("C15", "Differentiating through any solver gives the derivative of its solution",
  "For every solver that supports implicit differentiation, the derivative of the converged solution with respect to each of its differentiable hyper-parameters (objective arguments, proximal or projection parameters, quadratic-programme data, bounds) equals the analytic derivative of the solution map (reverse mode), and agrees with differentiating the unrolled iterations where these converge.",
  [IN, CO], "every solver, every hyper-parameter, every call form and (user-supplied) linear solver",
  "Tests differentiate some solvers with respect to one parameter at one point with loose tolerance; which arguments reach which optimality function and solver option is checked in few combinations.",
  ["base.py", "implicit_diff.py", "proximal_gradient.py", "projected_gradient.py", "mirror_descent.py", "block_cd.py", "osqp.py", "eq_qp.py", "cd_qp.py", "bisection.py", "lbfgsb.py", "scipy_wrappers.py", "anderson_wrapper.py"],
  [("optimality_fun of every solver", "proximal_gradient.py"), ("reference_signature", "base.py")], [], ["jax.jacobian of run(...).params"])

prop("C16", "Results do not depend on how parameters are structured as a tree",
  "Splitting the parameter vector into any nested tree of arrays (and the data and bounds accordingly) changes neither the iterates nor the reported errors, step sizes and iteration counts of a solver that supports trees (Levenberg-Marquardt documents that it takes arrays only), and the returned parameters have the structure, shapes and dtypes of the initial ones.",
  [IN, CO], "every tree structure, leaf shapes and dtype for every tree-supporting solver",
  "Tests run a few solvers on one tree and check convergence only, which leaf-wise instead of global inner products still reach.",
  ["tree_util.py", "lbfgs.py", "lbfgsb.py", "bfgs.py", "broyden.py", "anderson.py", "nonlinear_cg.py", "proximal_gradient.py", "scipy_wrappers.py"],
  [("tree_vdot, tree_l2_norm, tree_map based updates", "tree_util.py"), ("ravel_pytree use", "bfgs.py")], [], ["OptStep of structured and flat runs"])

prop("C17", "Constrained solvers never leave their feasible set",
  "Every iterate produced by projected gradient, mirror descent, box coordinate descent, L-BFGS-B (from a start inside its box) and the bounded SciPy wrappers satisfies the constraints, at every iteration, for every step size and whatever the objective does. At termination with error <= tol the point is stationary for the constrained problem.",
  [IN, HI, CO], "every objective, start point, bounds (equal, infinite, tight), step size and iteration count",
  "Tests look at final points; an iterate that leaves the set and comes back, or leaves it only through a line search step, is not seen.",
  ["projected_gradient.py", "mirror_descent.py", "cd_qp.py", "lbfgsb.py", "scipy_wrappers.py", "proximal_gradient.py"],
  [("prox from projection", "projected_gradient.py"), ("cauchy point, subspace minimisation, line search with max_stepsize", "lbfgsb.py")],
  [], ["params of every update; points at which the user function is evaluated"])

prop("C18", "Bisection keeps a shrinking bracket around a root",
  "Started on a bracket whose end points have opposite signs, for increasing and decreasing functions alike, every bisection update returns the midpoint of the current bracket, keeps the half whose end points have opposite signs, and halves its width, so that the returned point is within (upper - lower) / 2^iterations of a root; the error is the absolute value of the function there. With bracket checking enabled, a bracket whose end values have the same strict sign or are NaN is rejected with ValueError, and one with opposite signs, or with a nonzero value at the lower end and a root at the upper end, is accepted (a root exactly at the lower end may be treated either way).",
  [IN, HI, CO], "every continuous function sign pattern, bracket and iteration count, batched brackets included",
  "Tests use two functions and look at the final root; sign patterns including zeros at end points and midpoints are not enumerated.",
  ["bisection.py"], [("init_state, update", "bisection.py")], [("state.low, state.high, state.sign", "bracket", "bisection.py")], ["params and state of every update"])

prop("C19", "Quadratic-programme solvers certify what they report",
  "A quadratic-programme solver that reports success returns primal and dual variables satisfying the KKT conditions of the given problem to its tolerance; primal or dual infeasibility is reported only with a genuine certificate, and never for problems that have a solution. This holds for every way of giving the problem (matrices, operators, functions; with or without equalities and inequalities), and all solvers agree on the solution when it is unique.",
  [IN, CO, HI], "every feasible, infeasible or unbounded convex problem of every supported form",
  "Tests use a few random problems per solver; sign conventions of multipliers, absent constraint blocks, statuses and option combinations are checked on single examples.",
  ["osqp.py", "eq_qp.py", "cd_qp.py", "cvxpy_wrapper.py"],
  [("BoxOSQP termination checks", "osqp.py"), ("OSQP conversion to box form", "osqp.py"), ("KKT system", "eq_qp.py"), ("update", "cd_qp.py")],
  [("state.status, primal_residuals, dual_residuals", "verdict", "osqp.py")], ["(params, state) returned by run"])

prop("C20", "Isotonic regression returns the optimal monotone fit",
  "For every input, isotonic_l2_pav returns a monotone vector (in the requested direction) which is the least-squares projection of the input onto the monotone cone, clipped to the given bounds. The fit is constant on blocks, its derivative averages over the blocks, and it commutes with shifts and positive scaling.",
  [IN], "every input vector (ties, monotone, reversed, constant), direction and bounds",
  "Tests compare on a few random vectors; pooling bugs need particular tie and block patterns.",
  ["isotonic.py"], [("_isotonic_l2_pav, _isotonic_kl_pav, vjp", "isotonic.py")], [], ["return values of jaxopt.isotonic functions"])

prop("C21", "Linear solvers solve the system they are given",
  "Each linear solver (lu, cholesky, inv, qr-free direct, cg, normal cg, gmres, bicgstab, iterative refinement) returns, for every operator it is documented for and right-hand side of any supported shape or tree, a solution of the system to its tolerance, including a ridge term added exactly once and whatever the initial guess. Iterative refinement reports the true residual of the returned solution and converges to the solution of the accurate system even when the inner solves use an inaccurate operator.",
  [IN, CO], "every non-singular operator of the required class, right-hand side shape/tree, ridge and initial guess",
  "Tests use one shape and ridge per solver; batched right-hand sides, trees, ridge and warm starts are mostly not combined.",
  ["linear_solve.py", "iterative_refinement.py", "linear_operator.py"],
  [("solve_*", "linear_solve.py"), ("update", "iterative_refinement.py"), ("materialize / matvec helpers", "linear_operator.py")], [], ["return values of jaxopt.linear_solve functions"])

prop("C22", "Losses and objectives equal their mathematical definitions",
  "Every loss (Huber, logistic, sparsemax, hinge, perceptron, binary and multiclass, Fenchel-Young) and every objective equals its defining formula for all labels and scores, without overflow for large scores; convex losses are non-negative where documented, and their gradients are prediction minus label (Fenchel-Young). Composite objectives evaluated through their linear operator agree with the direct formula, including coordinate-wise Lipschitz constants and incremental products.",
  [IN], "every label and score (including ties, large magnitudes, kink points) and data set",
  "Tests compare on random scores; kinks, extreme scores and the operator helpers are not covered.",
  ["loss.py", "objective.py", "base.py"],
  [("losses", "loss.py"), ("CompositeLinearFunction and LinearOperator", "objective.py")], [], ["return values of jaxopt.loss and jaxopt.objective functions, and their gradients"])

prop("C23", "Perturbed optimisers and their derivatives are the Monte-Carlo formulas",
  "A perturbed argmax, max or function returns exactly the average over the requested number of noise samples of the wrapped function at input + sigma * noise, reproducibly for a given random key, and its derivative is the documented Monte-Carlo estimate using the same samples (with the wrapped function's unperturbed value subtracted for the control variate; the perturbed argmax for the max). This holds for every input shape, noise distribution, sigma and sample count.",
  [IN, CO], "every wrapped function, input shape, noise, sigma, number of samples, key",
  "Tests compare with asymptotic values within large statistical tolerances.",
  ["perturbations.py"], [("forward_pert, pert_jvp, pert_jvp_control_variate", "perturbations.py")], [], ["values and jvps of the returned functions"])

prop("C24", "Stochastic solvers consume batches and step as documented",
  "run_iterator initialises from the first batch and then performs one update per further batch, in order, each batch used once, until maxiter updates were made or the iterator ends. Each update of Polyak SGD, Armijo SGD and the optax wrapper applies its documented step-size rule, momentum and pre_update hook: Polyak's step is the stated ratio under its cap, Armijo's accepted step satisfies the sufficient-decrease condition on that batch (or the search ended), and the optax wrapper applies exactly the given gradient transformation.",
  [HI, IN, CO], "every iterator length, maxiter, objective, batch sequence, variant and reset option",
  "Tests train to a given accuracy; off-by-one batches, caps, variants, resets and momentum are invisible there.",
  ["base.py", "polyak_sgd.py", "armijo_sgd.py", "optax_wrapper.py"],
  [("run_iterator", "base.py"), ("update", "polyak_sgd.py"), ("update, armijo_line_search, reset_stepsize", "armijo_sgd.py"), ("update", "optax_wrapper.py")],
  [("state.stepsize, state.velocity, state.internal_state", "step-size memory", "armijo_sgd.py")], ["params/state of every update; batches drawn"])

prop("C25", "Gauss-Newton and Levenberg-Marquardt steps follow their rules",
  "A Gauss-Newton update solves the linearised least-squares problem at the current point. A Levenberg-Marquardt update tries the damped (optionally geodesically corrected) step, accepts it exactly when the loss decreases with a positive gain ratio (and the acceleration ratio test passes), so the loss never increases, and adapts the damping by the documented factors; a rejected trial changes nothing but the damping, even if the trial point yields nan or infinity. All ways of solving the system agree.",
  [HI, IN, CO], "every residual function (rank deficient, non-finite at trial points), solver, damping, geodesic and Jacobian option",
  "Tests fit a few curves to convergence; rejected steps, non-finite trial points and options in combination are not examined step by step.",
  ["levenberg_marquardt.py", "gauss_newton.py"],
  [("update_state_using_gain_ratio", "levenberg_marquardt.py"), ("_gn_op, update", "gauss_newton.py")],
  [("damping_factor, increase_factor, residual, gradient, value", "LM state", "levenberg_marquardt.py")], ["params/state of every update"])

prop("C26", "First-order methods follow their update rules and descend",
  "Each (proximal, projected) gradient update is prox(x - stepsize * gradient) at the extrapolation point with the documented FISTA sequence when accelerated, and with line search the accepted step size satisfies the quadratic upper-bound condition unless the search was exhausted, so that un-accelerated iterations never increase the objective. Block coordinate descent, box coordinate descent, mirror descent and nonlinear CG updates are their documented formulas, and block coordinate descent's running predictions stay consistent with the parameters.",
  [HI, IN, CO], "every objective, penalty, step-size option (fixed, callable, line search), acceleration and number of updates",
  "Tests check convergence; wrong extrapolation constants, step-size memory or stale predictions still converge.",
  ["proximal_gradient.py", "gradient_descent.py", "projected_gradient.py", "mirror_descent.py", "block_cd.py", "cd_qp.py", "nonlinear_cg.py"],
  [("_iter, _update_accel", "proximal_gradient.py"), ("update", "block_cd.py"), ("update", "nonlinear_cg.py")],
  [("state.velocity, state.t, state.stepsize", "acceleration memory", "proximal_gradient.py")], ["params/state of every update"])

prop("C27", "SciPy wrappers faithfully translate trees, options and results",
  "The SciPy wrappers hand SciPy the user's problem with parameters flattened leaf by leaf and translate everything back: returned parameters have the structure, shapes and dtypes of the initial ones, the reported function value, success, status and counts are SciPy's for these parameters, and bounds, tolerances, iteration limits, callbacks, auxiliary outputs and Jacobians apply to the matching leaves. Calling a wrapper does not alter user-supplied options or other wrapper objects.",
  [IN, CO, HI], "every tree structure, method, option, bound and auxiliary-output setting",
  "Tests run a few methods on one or two trees without auxiliary outputs for root finding and least squares.",
  ["scipy_wrappers.py"],
  [("jnp_to_onp, make_onp_to_jnp, make_jac_jnp_to_onp", "scipy_wrappers.py"), ("ScipyMinimize._run, ScipyRootFinding.run, ScipyLeastSquares._run", "scipy_wrappers.py")], [], ["(params, info) and the calls received by the user function"])

prop("C28", "Tree arithmetic acts like arithmetic on the flattened vector",
  "Every tree operation (sum, difference, product, scaling, inner product, norms, averages, Gram matrix, selection, negation, reciprocal, zeros/ones, real/imaginary/conjugate) gives the result of the same vector operation on the concatenation of all leaves (the mean reduction is the mean over leaves of each leaf's mean), for real and complex trees of any structure, and preserves structure and leaf shapes. Operations documented to broadcast a single array over a tree do so and reject mismatched structures.",
  [IN], "every tree structure, leaf shapes, real/complex dtypes and scalars",
  "Tests check a few trees per operation; several operations (Gram, where, average, complex norms) have little or no coverage.",
  ["tree_util.py"], [("tree_* functions", "tree_util.py")], [], ["return values of jaxopt.tree_util functions"])

prop("C29", "Projections and proximal operators have the derivatives of the maps they compute",
  "Wherever the projection onto a set (or the proximal operator of a penalty) is differentiable, reverse-mode differentiation of the library's operator gives the derivative of that map with respect to the point and to every hyper-parameter (bounds, radii, regularization strengths, constraint data, scaling), including the transportation polytope and the operators defined by inner solvers.",
  [IN], "every point and hyper-parameter of every operator at which the map is differentiable",
  "Tests compare Jacobians of a few operators at one or two points; custom derivative rules, stop_gradient shortcuts and inner implicit differentiation are mostly not differentiated by the tests.",
  ["projection.py", "prox.py", "bisection.py", "implicit_diff.py"],
  [("projection_simplex and its custom_jvp", "projection.py"), ("_max_l2 of the transport semi-dual", "projection.py"), ("prox_elastic_net, prox_group_lasso", "prox.py")], [], ["jax.vjp of the operators"])

MC = "TLA+ model checking (TLC) of the protocol, with conformance of real executions checked by TLC trace validation"
ORA = "TLA+ specification of the operation, model-checked by TLC against brute force; recorded calls of the real code validated against it by TLC (trace validation)"
CLAIM = {
  "C01": (MC + " and replay of TLC behaviours",
          "Exhaustive on the protocol model (maxiter<=4, all error/failure histories); the real code is bound by replaying every generated behaviour in all loop modes and by trace validation of 60+ solver configurations on seeded problems (sampled, float64)."),
  "C12": (ORA, "The oracle (nearest points by KKT enumeration) is model-checked against brute force on grids; real calls (13 sets, sparse simplex, polyhedron, transport; eager, jit, vmap, trees, derivatives) are compared with it on seeded inputs rich in ties, zeros and boundary points."),
  "C13": (ORA, "Closed-form and argmin oracles, themselves model-checked as minimisers on grids; every prox of the module eager, jitted, vmapped, over trees, and differentiated, on seeded inputs rich in kinks, ties and zeros."),
  "C22": (ORA, "Fenchel conjugates, losses and objectives model-checked for their defining inequalities; every loss and objective evaluated and differentiated on seeded inputs including extreme scores."),
  "C28": (ORA, "Tree arithmetic laws model-checked on small trees; every exported tree function compared with the oracle on seeded trees of many shapes and dtypes."),
  "C18": (MC + " and replay of TLC behaviours", "Exhaustive on the bracket machine (every sign history up to depth 6); every generated depth-4 history is replayed in the real code, and real functions (increasing, decreasing, batched, with aux, invalid brackets, derivatives) are trace-validated (sampled)."),
  "C20": (ORA, "The min-max oracle and every execution of the pool-adjacent-violators machine are model-checked on grids (length<=4, thorough 5); the real code is compared on seeded inputs with ties, bounds, both directions, batches and derivatives."),
  "C21": (ORA, "The refinement machine is model-checked on 2x2 systems; solvers, operators and refinement steps of the real code are compared with exact solutions computed in the specification on seeded systems."),
  "C05": (MC + " and replay of TLC behaviours", "Backtracking is model-checked against every outcome history and zoom against every value/slope history on a grid; all backtracking histories up to 3 trials are replayed in the real code, zoom's recorded trial sequences are walked through the specification, and all searches run on seeded consistent, inconsistent and non-finite objectives (sampled, float64)."),
  "C06": (MC, "The returned step of every line search is compared with the objective at start + stepsize * direction on seeded objectives, real and complex, trees, with and without aux, in every form of giving the objective; zoom's result choice is model-checked."),
  "C25": (MC, "The LM accept/reject machine is model-checked against an adversarial environment (trial residuals better, worse, nan, inf); every update of the real LM (all solvers, Jacobian forms, geodesic, aux) and Gauss-Newton on seeded residual functions (curved valleys, rank-deficient, non-finite regions) is validated step by step."),
  "C26": (MC, "Proximal gradient, FISTA, backtracking and coordinate sweeps are model-checked on a grid of composite problems (descent, FISTA rate, step-size floor, feasibility); every update of the real solvers (11 penalties/sets x fixed/callable/line-search x acceleration, mirror descent, box and block coordinate descent, nonlinear CG) on seeded problems must be a step of the specification."),
"C07": (MC, "Quasi.tla: ring buffers refine 'the m most recent pairs in order of age'; recursion, dense updates, Cauchy point and subspace step; every update of recorded L-BFGS and L-BFGS-B executions"),
"C08": (MC, "Quasi.tla: dense BFGS update and Broyden's rank-one memory; every update of recorded executions, several parameter trees"),
"C03": (MC, "Report.tla: what every method's state fields stand for; recorded states of every solver are compared with the objective, gradient and residual evaluated by the specification"),
"C10": (MC, "Resume.tla: all call schedules (init, update, save, back, warm restart, run, run from a state) of length 7 over two problems; replayed into one shared solver object, every result compared with the uninterrupted run"),
"C11": (MC, "Forms.tla: the algebra of callables derived from each of the six forms; every solver, line search and SciPy wrapper is executed in generated forms and compared step by step with the plain form, auxiliary output against the specification"),
"C02": (MC, "Modes.tla: the loop implementations refine one loop over all modes (jit, unroll, implicit_diff, verbose, batching with other problems); real solvers, line searches and loops run in generated modes and under lax.scan, compared with update chains"),
"C09": (MC, "Mix.tla: ring of points, Gram matrix and mixing rule, weights model-checked as minimisers; every update of AndersonAcceleration and AndersonWrapper validated, mixed points recomputed from the recorded points"),
"C16": (MC, "Shapes.tla: packings of parameters into trees; every solver run on generated packings is compared step by step with the plain vector, float32 included"),
"C17": (MC, "Feas.tla: projections, segments, coordinate clips and multiplicative steps stay in their set, model-checked on grids; every iterate of the constrained solvers checked against the set, reported convergence against projected stationarity"),
"C14": (MC + " and replay of TLC behaviours", "Binding.tla: every call form (positional prefix, keyword order, omitted defaults) of seven signatures is model-checked through the differentiation boundary and replayed in the real wrappers; Implicit.tla: implicit-function-theorem products, adjoint and first-order exact on a grid; every derivative of decorated solvers (9 linear solvers, trees, aux, jit, vmap) compared with it"),
"C24": (MC + " and replay of TLC behaviours", "Stoch.tla: iterator protocol, step-size search against every outcome history and Polyak contraction on interpolating problems model-checked; every (length, maxiter) replayed through run_iterator; every update of Polyak, Armijo and optax solvers on seeded batches validated"),
"C19": (MC + " and replay of TLC behaviours", "QP.tla: optimality conditions, certificates and splitting iteration model-checked on a grid of 8100 problems (verdicts exclusive, certificates sound, conditions imply minimality); the classified problems are given to BoxOSQP, OSQP, CvxpyQP, BoxCDQP and EqualityConstrainedQP in all forms and every verdict, multiplier and iteration is checked"),
"C27": (ORA, "Flatten.tla: the bridge between trees and vectors model-checked (round trip, order, Jacobian blocks); every combination of wrapper, method, tree and call form generated by TLC is run and compared with the same SciPy run on the flat problem and with the specification's own values"),
"C15": (ORA, "Sens.tla: derivatives of the solution map from the optimality system, model-checked against differences of directly computed solutions; vector-Jacobian products of every solver, form of call and linear solver are judged by it"),
"C29": (ORA, "Sens.tla as for C15; vector-Jacobian products of every projection and proximal operator, in the point and every parameter, are judged by it"),
"C23": (ORA, "Perturb.tla: score-function estimators model-checked by quadrature (their expectation is the derivative of the smoothed function, with and without control variate); values, jvps, vjps, jit and batches of the real functions recomputed from the samples their noise object handed out"),
"C04": (MC, "Counters.tla: the accounting of a solver with a line search, evaluation by evaluation, model-checked over all outcomes of the searches; executions of the user's function and gradient are counted under jit and compared with every counter of every init, update, search and run"),
}
NOT = {}
