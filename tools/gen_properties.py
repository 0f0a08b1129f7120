"""writes /verif/properties.jsonl"""
import json, os
P = []
S = "src/smolgp/"
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

TESTS = ("The five stable tests compare a handful of fixed kernels, seeds and sizes against dense linear algebra with loose tolerances; ")

p("C01", "Sequential filtering is the exact Bayesian recursion",
  "For any state space kernel, sorted coordinates, data and noise, the filtered and predicted state means and covariances computed at every data point equal the exact Gaussian conditional of the state given the data up to (respectively strictly before) that point, starting from a zero-mean stationary prior. The returned innovations and innovation variances are exactly the data minus the prediction, and the predicted state variance seen through the observation plus the measurement noise of that same point.",
  ["inputs", "programs"], "all stationary kernels (transition and process noise depend on the lag, the observation may depend on the coordinate), all N >= 1, all data points (first, interior, last), all data and noise values",
  TESTS + "a dropped term at one boundary, a wrong index of the noise or a coordinate/lag mix-up cancels for stationary kernels with constant observation or is below tolerance.",
  ["solvers/kalman.py", "solvers/solver.py"], [("Kalman filter scan", "solvers/kalman.py: kalman_filter, KalmanFilter"), ("solver wrapper", "solvers/solver.py: StateSpaceSolver.Kalman")],
  observe_at=["solver Kalman / condition results"])
p("C02", "Sequential smoothing is the exact RTS recursion",
  "For any state space kernel and data, the smoothed state mean and covariance at every data point equal the exact Gaussian conditional of the state given all data: the last one equals the filtered one, and each earlier one follows the backward recursion with the transition between that point and the next.",
  ["inputs", "programs"], "all kernels, all N >= 1, all data points (first, interior, last two, last)",
  TESTS + "the smoother is only observed through predictions at a few seeds.",
  ["solvers/rts.py", "solvers/solver.py"], [("RTS smoother reverse scan", "solvers/rts.py: rts_smoother, RTSSmoother"), ("condition", "solvers/solver.py: StateSpaceSolver.condition")])
p("C03", "The log likelihood is the exact Gaussian evidence",
  "The log probability of data under a model equals the sum over data points of the log density of each innovation under its innovation variance (including the constant term), with the mean function subtracted from the data first. It is the same number whether asked for directly or obtained together with conditioning, and it is minus infinity rather than NaN or an exception whenever the value is not finite.",
  ["inputs", "configurations"], "all data lengths, means, solvers; finite and non-finite values",
  TESTS + "only one scalar observation path is compared and no non-finite case is exercised.",
  ["gp.py"], [("innovation likelihood", "gp.py: GaussianProcess._compute_log_prob, log_probability, condition")])
p("C04", "Prediction at arbitrary coordinates is the exact conditional",
  "For every solver the predicted state mean and covariance at any requested coordinate are the exact Gaussian conditional of the model state at that coordinate given all data: before the first state (from the stationary prior), between two states, exactly at a state, and after the last state. Requested coordinates may come in any order and number, and the result at one of them does not depend on the others.",
  ["inputs", "configurations"], "all test coordinates relative to the states (before, between, on, after), all N, both instantaneous and exposure-integrated models, sequential and parallel solvers",
  TESTS + "predictions are compared on one sorted grid for a few kernels; ties with data and the single-state boundaries are not sampled.",
  ["solvers/solver.py", "solvers/parallel/solver.py", "solvers/integrated/solver.py", "solvers/integrated/parallel/solver.py", "gp.py"],
  [("predict", "solvers/*/solver.py: *.predict (retrodict, interpolate, extrapolate)")])
p("C05", "Parallel solver equals the sequential recursion",
  "For any state space kernel, data, noise and sorted coordinates, the parallel solver's filtered, predicted and smoothed states, innovations and innovation variances equal those of the sequential Kalman filter and RTS smoother at every data point. The operators combined in parallel are associative on the elements they are given, so the result does not depend on how the combination tree is scheduled.",
  ["inputs", "programs", "schedules"], "all N >= 1, all positions, all bracketings of the combination",
  TESTS + "the parallel result depends on associativity for every bracketing; tests run one N and one tree on stationary kernels.",
  ["solvers/parallel/kalman.py", "solvers/parallel/rts.py", "solvers/parallel/solver.py"],
  [("filter element and operator", "solvers/parallel/kalman.py: make_associative_params, _combine_per_pair, _postprocess"), ("smoother element and operator", "solvers/parallel/rts.py")])
p("C06", "Exposures become a correctly ordered and labelled state sequence",
  "For an exposure-integrated model each observation contributes exactly one start and one end state, at its mid-time minus and plus half its exposure time; the states are sorted by time and each keeps the identity of its observation, its instrument and whether it is a start or an end. This holds for overlapping and nested exposures and observations given in any order.",
  ["inputs", "configurations"], "all exposure mid-times, lengths, overlaps, instruments and observation orders",
  TESTS + "one or two fixed overlap patterns are tested.",
  ["solvers/integrated/solver.py", "solvers/integrated/parallel/solver.py"], [("state timeline", "solvers/integrated/solver.py: IntegratedStateSpaceSolver.__init__; solvers/integrated/parallel/solver.py")])
p("C07", "Integrated filter and smoother reset and update correctly",
  "For exposure-integrated models, at an exposure start the integral belonging to that instrument (and no other quantity) is set to zero with zero covariance and no data is used; at an exposure end exactly that observation, with its own noise, its own exposure time and its own instrument, updates the state. The smoothed states are the exact backward recursion through transitions and resets.",
  ["inputs", "histories"], "all interleavings of start and end states, positions, instruments, data and noise values",
  TESTS + "the mixed start/end interleavings are infinitely many; tests use a few patterns.",
  ["solvers/integrated/kalman.py", "solvers/integrated/rts.py", "solvers/integrated/solver.py", "kernels/integrated.py"],
  [("integrated Kalman scan", "solvers/integrated/kalman.py"), ("integrated RTS scan", "solvers/integrated/rts.py"), ("reset matrix", "kernels/integrated.py: IntegratedStateSpaceModel.reset_matrix")])
p("C08", "Parallel integrated solver equals the sequential one",
  "For any exposure-integrated model the parallel solver's filtered, predicted and smoothed states, innovations and innovation variances equal those of the sequential integrated solver at every state, whatever the interleaving of exposure starts and ends. The combined operators are associative on the elements they are given.",
  ["inputs", "histories", "schedules"], "all N, all interleavings of exposure starts and ends, all bracketings",
  TESTS + "the interleavings and trees sampled are few.",
  ["solvers/integrated/parallel/kalman.py", "solvers/integrated/parallel/rts.py", "solvers/integrated/parallel/solver.py"],
  [("integrated parallel filter", "solvers/integrated/parallel/kalman.py"), ("integrated parallel smoother", "solvers/integrated/parallel/rts.py")])
p("C09", "Results reported per data point belong to that data point",
  "Quantities reported for the data (posterior mean and variance per observation, components, innovations used for the likelihood) are in the order in which the observations were given and belong to the observation's own coordinate, exposure and instrument. For instantaneous models conditioning and then predicting at the data coordinates agree, and the mean function is added back exactly once.",
  ["inputs", "histories"], "all observation orders of exposure data, all instruments, instantaneous and integrated models, with and without a mean function, total and per component",
  TESTS + "integrated data in unsorted order with a coordinate-dependent observation and overlapping exposures is not sampled.",
  ["gp.py"], [("projection at data", "gp.py: ConditionedStates.project_at_data, get_component_mean"), ("prediction projection", "gp.py: PredictedStates")])
p("C10", "Model assembly uses the right noise, solver and inputs",
  "A Gaussian process built without an explicit solver uses an exposure-aware solver exactly when any part of its kernel is exposure-integrated and an instantaneous one otherwise; an explicitly given solver class is used as given. Measurement noise given as a scalar, an array or a noise model reaches the filter as the variance of the matching data point, and the mean given as nothing, a constant or a function is subtracted from each datum at its own coordinate.",
  ["configurations", "inputs"], "all kernel compositions, noise forms, mean forms and solver options",
  TESTS + "only plain sums of kernels with array noise and no mean function are built.",
  ["gp.py", "kernels/base.py"], [("solver selection", "gp.py: GaussianProcess.__init__"), ("leaf extraction", "kernels/base.py: extract_leaf_kernels")])
p("C11", "Every kernel's stationary covariance solves its Lyapunov equation",
  "For every state space kernel and every composition of kernels, the stationary state covariance is symmetric and is a fixed point of the kernel's own stochastic differential equation (drift, noise effect and noise density are mutually consistent), for all hyperparameter values in the kernel's domain.",
  ["inputs", "programs"], "all kernels, parameters (including the three damping regimes) and compositions (sums, products, scalings, nested)",
  TESTS + "fixed hyperparameters are sampled and drift, noise density and noise effect are never compared with one another.",
  ["kernels/base.py"], [("kernel definitions", "kernels/base.py: design_matrix, noise, noise_effect_matrix, stationary_covariance of each class")])
p("C12", "Transition matrices form the semigroup generated by the drift",
  "For every kernel and composition the transition matrix between two coordinates is the matrix exponential of the drift times their difference: it is the identity at zero lag, composes over intermediate points, and is accepted for scalar coordinates of any numeric type.",
  ["inputs", "programs"], "all kernels, parameters, lags and compositions, including Python number coordinates",
  TESTS + "transition matrices are exercised at a few lags and hyperparameters and never on their own.",
  ["kernels/base.py"], [("transition matrices", "kernels/base.py: transition_matrix of each class")])
p("C13", "Process noise accounts for exactly the variance lost to transition",
  "For every kernel and composition the process noise between two coordinates equals the stationary covariance minus the covariance propagated by the transition matrix (equivalently the integral of the propagated noise density): it is symmetric, vanishes at zero lag, and scales with the amplitude and units of the model.",
  ["inputs", "programs"], "all kernels, parameters and units, lags and compositions",
  TESTS + "a closed form that is wrong in one entry for one damping regime or a threshold in absolute units shows up only for particular parameter values.",
  ["kernels/base.py"], [("process noise", "kernels/base.py: process_noise of each class")])
p("C14", "Kernels evaluate to their documented covariance function",
  "Every kernel evaluated at two points equals its documented covariance function of the lag, is symmetric in its two arguments, has the variance at zero lag on its diagonal, and the covariance matrices built from it agree entry by entry; for an arbitrary model with a coordinate-dependent observation, each point is seen through its own observation vector.",
  ["inputs", "programs"], "all kernels, parameters, pairs of coordinates in either order, and arbitrary user-defined models",
  TESTS + "only a few kernels and lags are sampled, always with constant observation vectors.",
  ["kernels/base.py", "kernels/dense.py"], [("evaluation", "kernels/base.py: StateSpaceModel.evaluate, evaluate_diag")])
p("C15", "Kernel algebra acts as covariance algebra",
  "Sums, products and scalings of kernels, in any nesting and operand order (including scalars on either side), have as covariance function the sum, product or multiple of the operands' covariance functions, and their state space matrices describe that same process. Adding or multiplying by something that is neither a state space kernel nor a scalar is rejected rather than silently computing something else.",
  ["programs", "inputs"], "all expressions over kernels with + and *, any depth",
  TESTS + "the space of expressions is unbounded; tests build three.",
  ["kernels/base.py", "kernels/integrated.py"], [("composition", "kernels/base.py: Sum, Product, Scale, Wrapper, __add__, __mul__")])
p("C16", "Exposure-integrated kernels describe the integral of the base process",
  "For every exposure-integrated kernel the state consists of the base process plus one running integral per instrument; its transition, process noise, reset and observation matrices are those of that augmented process, so that the observation at an exposure end is the average of the base process over that exposure for that instrument.",
  ["inputs", "programs", "configurations"], "all base kernels, parameters, lags, exposure times, numbers of instruments",
  TESTS + "the closed-form integrated matrices are compared for a few parameter values only, and most entries only indirectly.",
  ["kernels/integrated.py"], [("integrated kernels", "kernels/integrated.py")])
p("C17", "Components partition the model and are individually addressable",
  "For a sum of kernels the per-component means (and per-component state blocks) add up to the total, each component corresponds to exactly one term seen through its own observation, and every component has a distinct name by which it can be retrieved. Assigning names never changes hyperparameters or numerical results, and user-given distinct names are kept.",
  ["programs", "configurations"], "all sums (with repeated kernels, products, scaled and named terms), before and after conditioning and prediction",
  TESTS + "one two-component model is decomposed.",
  ["gp.py", "kernels/base.py"], [("naming", "gp.py: assign_unique_kernel_names"), ("component selection", "gp.py: get_component, get_all_components; kernels/base.py: observation_model(component=...)")])
p("C18", "Unsupported inputs are rejected, supported ones are accepted",
  "Every documented calling convention returns results: numbers, arrays or nothing as noise; (time, exposure, instrument) tuples for exposure models; conditioning with or without test coordinates, with or without innovations; prediction through the process or from a solver's own conditioned result. Documented misuse (a kernel without state space form, an exposure kernel without exposure times, a mean of the wrong shape, a kernel added to or multiplied by something that is neither a state space kernel nor (for products) a number, test coordinates of another structure than the data, data of another length (a single value may broadcast), predictions or components of a process that was never given data) raises an error instead of returning numbers.",
  ["configurations", "inputs"], "all public entry points and argument forms named in the documentation",
  TESTS + "they exercise one calling convention per entry point.",
  ["gp.py", "solvers/solver.py", "solvers/parallel/solver.py"], [("entry points", "gp.py: GaussianProcess.condition / predict; solvers: condition / predict")])
p("C20", "Computations have no side effects",
  "Building a kernel, a process, conditioning and predicting never modify their arguments, the objects they are called on, or module-level, class-level or otherwise shared state, so the same call with the same arguments returns the same result whatever was called before and whoever else uses the same objects.",
  ["histories", "programs"], "all call histories on shared kernels, processes and solver objects",
  TESTS + "each test uses fresh objects, and hidden state only shows on particular histories.",
  ["gp.py", "kernels/base.py", "kernels/integrated.py", "solvers/solver.py", "helpers.py"], [("immutability", "all modules: classes are frozen dataclasses; functions use functional updates")])
p("C21", "The likelihood and predictions stay traceable and differentiable",
  "Kernels, likelihood, conditioning and prediction can be compiled and differentiated with respect to hyperparameters, data and coordinates: no Python-level branch, conversion, index or loop bound ever depends on the value (as opposed to the shape or static configuration) of such an input. (Static by design and not traced: orders such as the order of ExpSineSquared, which must then be passed rather than chosen automatically, and the smoothness nu of Matern; instrument and component names.)",
  ["inputs", "programs"], "all kernels and entry points, all hyperparameters, data, noise and coordinates as traced values",
  TESTS + "only one likelihood of one kernel is compiled.",
  ["gp.py", "kernels/base.py", "kernels/integrated.py", "solvers/kalman.py", "solvers/parallel/kalman.py"], [("trace safety", "all functions reachable from the public entry points")])
p("C22", "Cost is linear in the number of data",
  "Computing the likelihood, conditioning and predicting never forms an array with more than one axis proportional to the number of data or test points (short of a dense noise model the user supplies), never loops over pairs of them, and never unrolls a Python loop over them: memory and work grow linearly (up to a logarithmic factor) with the number of data plus test points.",
  ["inputs", "configurations"], "all numbers of data and test points, all four solvers",
  TESTS + "asymptotic cost is not observable at the sizes the tests use.",
  ["solvers/kalman.py", "solvers/rts.py", "solvers/solver.py", "solvers/parallel/kalman.py", "gp.py"], [("scan based solvers", "solvers/**")])
p("C23", "Spectral densities are the transforms of the covariance functions",
  "For every kernel that provides a power spectral density, it equals the density implied by the kernel's own drift, noise effect, noise density and observation (with one fixed normalisation convention documented by the library), including for sums and scaled kernels, and it is even and non-negative.",
  ["inputs", "programs"], "all kernels providing a density, all parameters and frequencies",
  TESTS + "densities are not tested at all.",
  ["kernels/base.py"], [("psd", "kernels/base.py: psd of each class")])
p("C24", "Numerical results are accurate in floating point",
  "The computed log likelihood, means and variances agree with exact arithmetic to a small relative error, covariances stay positive semidefinite, and the truncated series of approximate kernels meets its stated accuracy, for all well-posed inputs.",
  ["inputs"], "all hyperparameters, coordinate spacings and magnitudes in working precision",
  TESTS + "conditioning varies over the whole input space.",
  ["kernels/base.py", "solvers/kalman.py", "solvers/parallel/kalman.py"], [("numerics", "solvers and kernels")])
p("C25", "The parallel solvers run in logarithmic parallel time",
  "On hardware with enough parallel units, filtering and smoothing with the parallel solvers takes time logarithmic in the number of data points.",
  ["configurations"], "all N and accelerators",
  "No test measures parallel depth, and the test machine has no accelerator.",
  ["solvers/parallel/kalman.py", "solvers/parallel/rts.py", "solvers/integrated/parallel/kalman.py"], [("associative scan", "solvers/parallel/*")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
