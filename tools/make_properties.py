"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
M='fides/minimize.py'; T='fides/trust_region.py'; S='fides/steps.py'; B='fides/stepback.py'; Q='fides/subproblem.py'; H='fides/hessian_approximation.py'; C='fides/constants.py'; L='fides/logging.py'

prop('C01', 'Objective evaluated and results returned only inside the bounds',
 'For an initial point inside the box (each pair of bounds separated by much more than machine precision), every point handed to the objective, the returned optimum and the reported best point satisfy lb <= x <= ub in every component, up to no tolerance at all. This holds whatever values, gradients and Hessians the objective returns and whatever step is proposed, including under floating-point rounding.',
 ['inputs','histories'], 'all bounds (finite or infinite per component), initial points in the box, objective outputs, proposed steps, floating-point rounding',
 'The tests never look at the evaluated points and use two boxes; an overshoot by one ulp needs particular values (seen once in thousands of random quadratics).',
 [M,S], [('boundary clearance of x0','minimize.py:make_non_degenerate'),('bounds check','minimize.py:check_in_bounds'),('step back','steps.py:Step.step_back')],
 ['argument of the user objective','Optimizer.x / x_min','return value of minimize'])
prop('C02', 'Best evaluated point is reported exactly',
 'After every optimization the reported best value is the smallest finite objective value among all points evaluated in that run, accepted or not, and the reported best x and gradient are those of the evaluation that first attained it. Non-finite values never become the best value and values of earlier runs never leak in.',
 ['histories','inputs'], 'all sequences of objective values (finite, NaN, +-inf), acceptance decisions and step proposals within the step bound',
 'The tests only assert fval >= fval_min and closeness when they are equal; which of several evaluations is reported depends on the whole history.',
 [M], [('minimum tracking','minimize.py:Optimizer.track_minimum')], ['Optimizer.fval_min, x_min, grad_min'])
prop('C03', 'Returned value, point, gradient and Hessian belong together',
 'The returned (and stored) function value and gradient are those the objective returned at the returned point (up to the documented nudge off the bounds of about 1e-14), and that point is the last accepted one; a rejected step changes none of them. The returned Hessian is the one the objective returned at that point, or, with a Hessian approximation, the matrix the approximation scheme currently holds.',
 ['histories','inputs'], 'all objective outputs, all accept/reject sequences within the step bound, every Hessian source',
 'Tests check the final value near a known optimum, not that the four results come from one evaluation after arbitrary accept/reject histories.',
 [M], [('state update on acceptance','minimize.py:Optimizer.update')], ['return value of minimize','Optimizer.x, fval, grad, hess'])
prop('C04', 'Steps are accepted only on predicted and actual descent',
 'A trial step is accepted only if the objective there is finite and strictly smaller than at the current point and the quadratic model predicted a strictly positive decrease, so accepted objective values strictly decrease during a run. In the absence of bound contributions a finite trial is accepted exactly when actual and predicted decrease are both positive, and the recorded ratio is their quotient.',
 ['inputs','histories'], 'all trial values including NaN/inf, gradients, steps and model values; floating-point rounding for the descent part',
 'Tests see only smooth well-behaved trials; acceptance of an uphill or non-finite trial needs particular combinations of sign, bound scaling and special values.',
 [M], [('acceptance decision','minimize.py:Optimizer.update_tr_radius')], ['sequence of accepted points','Optimizer.tr_ratio'])
prop('C05', 'Trust-region radius follows its documented schedule',
 'After a trial step the radius is multiplied by gamma2 when the ratio is at least eta and the scaled step used at least 90% of the radius, reduced to the smaller of gamma1*radius and a quarter of the scaled step norm when the ratio is at most mu or the trial value is not finite, and otherwise left unchanged. The count of iterations since the last radius change restarts exactly when the radius is changed by this rule, and the radius never becomes NaN or negative.',
 ['inputs','configurations'], 'all ratios, step norms, radii and all option values 0<gamma1<1<gamma2, 0<mu<eta',
 'The rule has five regions over six real inputs; tests cover whichever regions Rosenbrock trajectories visit, with default options only.',
 [M], [('radius update','minimize.py:Optimizer.update_tr_radius')], ['Optimizer.delta after each iteration','Optimizer.iterations_since_tr_update'])
prop('C06', 'Convergence flags are truthful and convergence is not missed',
 'A positive exit flag is reported exactly when the run stopped on convergence, and then its criterion holds: FTOL only after a step with ratio above mu whose value change is below fatol + frtol*|previous value|; XTOL only after the first iteration with scaled step norm below xtol; GTOL only if the gradient at the returned point has norm at most gatol or at most grtol*|value|. Whenever one of these holds after an accepted step the run stops at that iteration.',
 ['inputs','configurations','histories'], 'all objective outputs (including rejected and non-finite trials), tolerances and accept/reject histories within the step bound',
 'Tests assert convergence to known optima; a false GTOL needs a rejected trial with a tiny gradient (for example inf value and zero gradient), which no test produces.',
 [M], [('convergence test','minimize.py:Optimizer.check_convergence')], ['Optimizer.exitflag, converged','return value of minimize'])
prop('C07', 'Iteration, time and radius budgets are respected',
 'A run never performs more than maxiter iterations (at most maxiter+1 objective evaluations), starts no iteration when the remaining time is below the average time per iteration so far or the radius is below machine precision, and each such stop reports the matching negative exit flag. It starts a further iteration whenever none of the stopping conditions holds.',
 ['inputs','configurations','schedules'], 'all clock behaviours (any non-decreasing readings), maxiter, maxtime, radii and iteration counts',
 'The clock is an uncontrolled input in tests: they try one maxiter and one maxtime.',
 [M], [('budget checks','minimize.py:Optimizer.check_continue')], ['number of objective calls','Optimizer.exitflag'])
prop('C08', 'Non-finite objective output is never accepted',
 'A trial whose objective value is NaN or infinite is rejected, shrinks the trust region and leaves the current point, value, gradient and Hessian (approximation) unchanged; a finite value with any non-finite gradient or Hessian entry, or any non-finite output at the initial point, raises RuntimeError with exit flag NOT_FINITE. Otherwise a run never raises because of non-finite trial output.',
 ['fault_sequences','inputs'], 'every position of NaN/+inf/-inf in value, gradient and Hessian (or residual-derived) output, at any evaluation within the step bound',
 'The random-failure test only expects some RuntimeError; it does not separate which entry failed or what state survives.',
 [M], [('finite checks','minimize.py:Optimizer.check_finite'),('reject non-finite','minimize.py:update_tr_radius')], ['exceptions','Optimizer state after the trial'])
prop('C09', 'A reused optimizer behaves like a fresh one',
 'Calling minimize again on the same optimizer (with the same Hessian scheme object) evaluates the same points and gives the same results, best point, counters and exit flag as a freshly created optimizer given the same inputs, whatever happened in the earlier run, including one that ended in an exception.',
 ['histories'], 'all first runs within the step bound (any objective outputs, accept/reject decisions, scheme switches, exceptions) followed by any second run',
 'Multistart tests check only plausibility of the result, not equality with a fresh optimizer after arbitrary earlier histories.',
 [M,H], [('per-run reset','minimize.py:Optimizer._reset'),('approximation reset','hessian_approximation.py:_init_mat')], ['second-run results vs fresh results'])
prop('C10', 'Quasi-Newton updates satisfy the secant equation',
 'After an update that is not skipped, the approximation B+ of every classical scheme (Broyden class for any phi, BFGS, DFP, SR1, good and bad Broyden) maps the last step s to the gradient change y (B+ s = y), the Broyden class is the phi-combination of BFGS and DFP, and the reported difference equals the change of the matrix. Finite inputs with a nonzero step never turn the matrix non-finite.',
 ['inputs','histories'], 'all symmetric matrices (arbitrary for Broyden), steps and gradient changes of the bounded dimension; any phi',
 'Tests check that optimization of Rosenbrock converges; wrong updates still converge, and bad Broyden is exempt from that test.',
 [H], [('Broyden class','hessian_approximation.py:broyden_class_update'),('SR1/BG/BB','hessian_approximation.py:SR1, BG, BB')], ['get_mat(), get_diff() after update'])
prop('C11', 'Curvature safeguards keep approximations symmetric and positive',
 'Broyden-class updates with curvature enforcement keep a symmetric positive definite matrix symmetric positive definite for phi in [0,1], and leave it exactly unchanged when y.s <= 0; SR1 stays symmetric and leaves the matrix unchanged when |(y-Bs).s| is below 1e-8-relative or zero. Bad Broyden leaves the matrix unchanged when y.s <= 0.',
 ['inputs','histories'], 'all positive definite matrices, steps, gradient changes of the bounded dimension, phi in [0,1] (one inductive update covers histories of any length)',
 'Definiteness is a property of every history of updates; tests never inspect the matrices.',
 [H], [('curvature condition','hessian_approximation.py:broyden_class_update'),('SR1 rejection','hessian_approximation.py:SR1')], ['get_mat() after update'])
prop('C12', 'Hybrid schemes use and switch between their sources as documented',
 'The fixed and fraction hybrids return the objective Hessian until their switch condition (iterations since radius update >= limit; fraction of intermediate iterations > threshold after more than 25 iterations) has been met at an earlier update, then forever the iterative approximation, which has been updated on every step from the start. The Fletcher-Xu hybrid returns the Gauss-Newton Hessian when the relative decrease of the squared residual is at least its tolerance and otherwise the iterative update of the last returned matrix; the reported difference is always new minus old matrix.',
 ['histories','inputs','configurations'], 'all counter values and thresholds, steps, gradients, Hessians over the bounded number of updates',
 'Switching depends on counter histories (more than 25 iterations) that tests do not reach deliberately.',
 [H,M], [('switch','hessian_approximation.py:HybridFixed, HybridFraction, FX'),('arguments','minimize.py:Optimizer.update')], ['get_mat(), get_diff() after each update','Optimizer.hess'])
prop('C13', 'Structured secant schemes combine Gauss-Newton and secant parts',
 'The structured methods return C + A (SSM), C + |r| A (TSSM), and C + A or C + |r| I depending on the curvature ratio (GNSBFGS), where C is the Gauss-Newton matrix at the new point; when the secant part is updated the result satisfies the scheme structured secant equation, otherwise A is unchanged. The secant data passed by the optimizer is (J+ - J)^T r+ (scaled by |r+|/|r| for TSSM and GNSBFGS), the reported differences equal the changes, and a zero residual yields finite matrices.',
 ['inputs','histories'], 'all residuals, Jacobians, steps and secant parts of the bounded dimension',
 'Tests minimise one residual problem with these schemes and only look at the optimum.',
 [H,M], [('SSM/TSSM/GNSBFGS','hessian_approximation.py'),('secant data','minimize.py:Optimizer.update')], ['get_mat(), get_diff(), get_structured_diff()'])
prop('C14', 'One-dimensional subproblem is solved globally',
 'For a symmetric matrix, a nonzero direction s and a start s0 inside the trust region, the returned step length keeps |s0 + t s| within the radius and attains the smallest model value among all step lengths that do; it is finite for finite input. A zero radius or zero direction gives step zero.',
 ['inputs'], 'all matrices, gradients, directions, start points and radii of the bounded dimension, including zero curvature, tangential and degenerate cases',
 'Tests use one 3x3 diagonal matrix with the direction given by the full solution.',
 [Q], [('1-D solver','subproblem.py:solve_1d_trust_region_subproblem'),('boundary solution','subproblem.py:get_1d_trust_region_boundary_solution')], ['return value'])
prop('C15', 'Full trust-region subproblem is solved to optimality',
 'For every symmetric matrix (definite, indefinite, singular, repeated eigenvalues), gradient and radius the returned step has norm at most the radius (up to 1e-7, relative) and, unless all numerical root finders fail, is a global minimiser of the quadratic model over the ball: (B + lam I) s = -g with B + lam I positive semidefinite, lam >= 0, and lam = 0 unless the step lies on the boundary. It is finite for finite input and zero for radius zero; when the root finders fail it stays finite and within the radius.',
 ['inputs'], 'all symmetric matrices, gradients and radii of the bounded dimension, including the hard case and failures of the root finders',
 'Tests use one diagonal 3x3 family with distinct eigenvalues; failure modes (repeated eigenvalues, hard case, root-finder failure) are corner inputs.',
 [Q], [('eigen-decomposition solver','subproblem.py:solve_nd_trust_region_subproblem'),('secular equation','subproblem.py:secular, slam, dslam')], ['return value'])
prop('C16', 'Proposed steps stay in the box and in the trust region',
 'Every proposed step (Newton/2D, full, conjugate gradient, gradient, reflected, truncated, refined) taken from a point strictly inside the box ends inside the box, and its scaled form has norm at most the trust-region radius, in exact arithmetic. The step is cut back only as far as needed: when the uncut step stays clear of the bounds it is taken in full, otherwise the fraction theta of the distance to the first bound is taken. A reflected step continues from where the earlier step met its bound with the movement of the variables that met it reversed; a truncated step keeps those variables fixed.',
 ['inputs'], 'all points, bounds (finite/infinite), Hessians, gradients, radii, theta of the bounded dimension; any subproblem solution; any predecessor step satisfying the same contract (induction over reflections/truncations)',
 'Tests observe only end results; chains of reflections and truncations hitting several bounds are rare inputs.',
 [S,B,T], [('step back','steps.py:Step.step_back'),('reflection','steps.py:TRStepReflected'),('truncation','steps.py:TRStepTruncated'),('CG','steps.py:TRStepSteihaug')], ['fields of the Step returned by trust_region'])
prop('C17', 'Step and model value are consistent',
 'For every proposed step the step in original coordinates is the scaling applied to its scaled form (total and offset), and its stored model value equals the quadratic model 1/2 p^T (D B D + diag(|g| dv)) p + (D g)^T p at the total scaled step p. The chosen step never has a positive model value.',
 ['inputs'], 'all points, scalings, Hessians, gradients, radii of the bounded dimension; every step class and any predecessor step',
 'The stored prediction enters acceptance only through a ratio; a wrong prediction changes trajectories but usually not the optimum that tests check.',
 [S,T], [('model value','steps.py:Step.calculate'),('scaling','steps.py:Step.compute_step')], ['Step.s, ss, s0, ss0, qpval'])
prop('C18', 'The best candidate step is selected',
 'The proposed step has the smallest model value among the trust-region step and, whenever that step had to be cut back at a bound (in two or more dimensions), the gradient step and all candidates of the selected step-back strategy; a candidate with undefined model value is never chosen over one with a defined value. Reflect strategies continue reflecting, up to the number of variables, and truncation continues until a step needs no cutting. The proposed step reports as reflection and truncation count the number of variables it was reflected or truncated at.',
 ['inputs','configurations'], 'all model values (including NaN) and cut fractions of all candidates, all strategies and solvers',
 'Which candidate wins is not observable in the end result that tests check.',
 [T,B,S], [('candidate selection','trust_region.py:trust_region'),('candidate generation','stepback.py'),('counts','steps.py:TRStepReflected, TRStepTruncated, RefinedStep')], ['Step returned by trust_region','reflection_count, truncation_count'])
prop('C19', 'Affine scaling follows the Coleman-Li definition',
 'Per variable the scaling is the signed distance to the bound the negative gradient points to (upper bound if the gradient is negative, lower bound otherwise) with derivative one if that bound is finite, and -1 or +1 with derivative zero if it is infinite. The subproblem is posed with the square root of its absolute value, and theta is max(theta_max, 1 - max|v*g|).',
 ['inputs'], 'all points in the box, gradients (including zero entries), bounds finite or infinite on either side, per variable',
 'Tests use boxes where all bounds are finite or all infinite; mixed and one-sided bounds and zero gradient entries are not covered.',
 [M], [('scaling','minimize.py:Optimizer.get_affine_scaling')], ['arguments of the trust-region step'])
prop('C20', 'Objective output contract is enforced and residuals are converted',
 'An objective must return exactly the number of values its configuration requires, with a scalar value, a gradient vector of the length of x and, if any, a square Hessian of that size; anything else raises ValueError before a step is taken. For residual functions the value is half the squared residual norm, the gradient J^T r and the Hessian J^T J, with or without a Hessian approximation.',
 ['inputs','configurations'], 'all residuals and Jacobians of bounded size, all output shapes/arity within the bound, every Hessian scheme',
 'Tests try six wrong shapes for one configuration and never compare the residual conversion with the formula.',
 [M], [('evaluator','minimize.py:FunEvaluator'),('shape check','minimize.py:Funout.checkdims')], ['exceptions','Optimizer.fval, grad, hess'])
prop('C21', 'Options are validated at construction and honoured',
 'An options dictionary is accepted exactly if every key is a documented option (as enum member or its string value), every numeric option has a real (maxiter: integer-valued) value and every choice option names a documented choice; otherwise construction raises ValueError or TypeError; the truncated-conjugate-gradient solver combined with refinement raises ValueError (the type of the history file name is not checked). An option that is given determines behaviour with its given value and one that is not given behaves as its documented default.',
 ['configurations'], 'all key strings, choice strings and numeric values',
 'Tests try one unknown key, one wrong type and one wrong choice, with enum keys only.',
 [C,M], [('validation','constants.py:validate_options'),('lookup','minimize.py:Optimizer.get_option')], ['exceptions at construction','Optimizer.get_option'])
prop('C22', 'Recorded history mirrors the run',
 'With a history file every run that returns adds exactly one group named by its run id in which every recorded quantity has exactly one entry per iteration, in order: trial value, ratio, the radius used for that iteration, step norm, accept flag, numbers of reflections and truncations. Existing groups are left untouched.',
 ['histories'], 'all runs within the step bound: any accept/reject sequence, trial values, step types, Hessian schemes',
 'The test counts groups only.',
 [M], [('history','minimize.py:Optimizer.track_history')], ['datasets written to the history file'])
prop('C23', 'Inputs are read-only and integer arrays mean the same as floats',
 'Integer-typed initial points, bounds and initial Hessians give exactly the behaviour of the equal floating-point arrays, and the arrays, option dictionary and initial Hessian supplied by the caller are never modified. Later changes by the caller to those arrays do not affect a constructed optimizer or a returned Hessian approximation.',
 ['inputs'], 'all integer-valued arrays of the bounded dimension, including points on a bound and bounds with integer/fractional/infinite mixes',
 'All tests use float arrays in the interior.',
 [M,H], [('array conversion','minimize.py:Optimizer.__init__, minimize'),('initial matrix','hessian_approximation.py:_init_mat')], ['objective calls, results, caller arrays'])
prop('C24', 'Initial Hessian approximation is what the caller asked for',
 'Before the first step the approximation is the identity if no initial Hessian is given, a copy of the given n-by-n matrix, or the objective Hessian at the initial point if the caller asks for it and the objective provides one; a matrix of any other shape raises ValueError. Without an approximation scheme the argument is ignored.',
 ['inputs','configurations'], 'all initial matrices and objective Hessians of bounded size, every scheme',
 'Tests look only at iteration counts after a few fixed initialisations.',
 [M,H], [('initialisation','hessian_approximation.py:_init_mat, minimize.py:minimize')], ['Hessian used for the first step'])
prop('C25', 'Concurrent optimizations never share a logger',
 'Every optimization run logs through its own logger, distinct from those of all other runs in the process and carrying exactly one handler, and sends all of its messages there, no matter how the runs of concurrent threads interleave, how many runs came before, or whether an optimizer is reused.',
 ['schedules'], 'all interleavings of complete runs of two (three) threads at the granularity of shared-variable accesses',
 'Tests never create optimizers concurrently; the interleaving that makes two runs share a logger is a matter of scheduling.',
 [L], [('unique name','logging.py:create_logger')], ['logger name and handlers'])
prop('C26', 'Optimizations in one process do not influence each other',
 'The points evaluated, subproblems posed and results returned by an optimization depend only on its own arguments and objective: they are the same whether it runs alone in a fresh process, after or inside (from an objective call of) another optimization with its own optimizer and approximation object, or concurrently with one in another thread. Likewise the step computed for a trust-region subproblem does not depend on the steps computed before.',
 ['schedules','histories'], 'pairs of runs (each up to the step bound, any values) nested at any objective call or interleaved at the granularity of shared-variable accesses',
 'Tests run one optimization at a time and compare end results with tolerances.',
 [M,H,S], [('optimizer state','minimize.py:Optimizer'),('approximation state','hessian_approximation.py'),('step state','steps.py:Step')], ['objective calls, subproblems and results of both runs'])
prop('C27', 'Invalid start points are refused and iterates stay strictly inside the bounds',
 'A start point that lies outside the bounds by more than the nudge or has a component that is not a number is refused with RuntimeError and exit flag EXCEEDED_BOUNDARY before the objective is called, and one that is a matrix with ValueError; every finite start point inside the bounds, including on them, is accepted. The first point differs from the start point only in components closer to a finite bound than 1e-13, and there by at most 1e-13. From then on every point a trust-region subproblem is posed from, and the final point, lies strictly between the bounds, also after a step that lands exactly on a bound (in floating point for bounds of magnitude up to 50; beyond that the absolute nudge is rounded away).',
 ['inputs','histories'], 'all start points (finite, infinite, not a number), bounds (finite or infinite per component), objective outputs and trial points anywhere in the closed box, within the step bound; positions relative to bounds also over IEEE doubles',
 'Tests start in the interior or far outside of one box and never look at the points subproblems are posed from.',
 [M], [('boundary clearance','minimize.py:make_non_degenerate'),('bounds check','minimize.py:check_in_bounds'),('start and update','minimize.py:minimize, update')], ['exception and exit flag','first point evaluated','arguments of the trust-region step','Optimizer.x'])
prop('C28', 'Reporting does not influence the optimization',
'The points evaluated, the steps, the returned values, the exit flag, the counters and the exception, if any, of a run do not depend on the verbosity, on whether a history file is written, or on the run id passed to minimize; keyword arguments for the objective are passed on unchanged to every call and nothing else is.',
['inputs','histories'], 'all objective outputs (finite or not), trial steps and stopping tolerances within the step bound, in pairs of runs that differ only in what they report',
'Tests run with one verbosity and never compare a run with history against one without.',
[M], [('step log','minimize.py:log_step, log_header'),('history','minimize.py:track_history'),('run id','minimize.py:minimize')], ['sequence of evaluated points','minimize return value','exit flag, counters, exception','arguments of the objective'])
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
