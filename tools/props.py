"""Source of properties.jsonl and MANIFEST.json (see gen.py)."""

W = "skwdro/wrap_problem.py"
DL = "skwdro/solvers/_dual_interfaces/dual_loss.py"
MI = "skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py"
IS = "skwdro/solvers/_dual_interfaces/_impsamp_interface.py"
OR = "skwdro/solvers/oracle_torch.py"
ED = "skwdro/solvers/entropic_dual_torch.py"
OC = "skwdro/solvers/optim_cond.py"
HY = "skwdro/solvers/hybrid_opt.py"
RS = "skwdro/solvers/result.py"
SP = "skwdro/solvers/specific_solvers.py"
UT = "skwdro/solvers/utils.py"
CD = "skwdro/base/cost_decoder.py"
NC = "skwdro/base/costs_torch/normcost.py"
NL = "skwdro/base/costs_torch/normlabelcost.py"
BL = "skwdro/base/losses_torch/base_loss.py"
WR = "skwdro/base/losses_torch/wrapper.py"
LO = "skwdro/base/losses_torch/logistic.py"
QU = "skwdro/base/losses_torch/quadratic.py"
NVL = "skwdro/base/losses_torch/newsvendor.py"
PFL = "skwdro/base/losses_torch/portfolio.py"
WBL = "skwdro/base/losses_torch/weber.py"
BS = "skwdro/base/samplers/torch/base_samplers.py"
CS = "skwdro/base/samplers/torch/cost_samplers.py"
CL = "skwdro/base/samplers/torch/classif_sampler.py"
NVS = "skwdro/base/samplers/torch/newsvendor_sampler.py"
PFS = "skwdro/base/samplers/torch/portfolio_sampler.py"
DI = "skwdro/distributions/dirac_distribution.py"
PB = "skwdro/base/problems.py"
LR = "skwdro/linear_models/_linear_regression.py"
LG = "skwdro/linear_models/_logistic_regression.py"
NV = "skwdro/operations_research/_newsvendor.py"
PF = "skwdro/operations_research/_portfolio.py"
WB = "skwdro/operations_research/_weber.py"
EST = [LR, LG, NV, PF, WB]


def P(id, title, statement, over, text, why, files, mech, observe,
      state=None):
    a = {"files": files,
         "mechanism": [dict(name=n, where=w) for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = state
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


PROPS = [
    P("C01", "Fitting and using an estimator never changes its hyperparameters",
      "Every hyperparameter given to an estimator's constructor is stored "
      "unchanged under its own name and is what get_params returns. No later "
      "use of the estimator (fit, predict, predict_proba, eval, score) "
      "assigns another value to it.",
      ["configurations", "histories"],
      "every estimator, every hyperparameter value, every solver, any "
      "sequence of fit/predict/score calls",
      "The suite fits a few fixed configurations and only the dedicated "
      "solvers go through scikit-learn's own check.",
      EST, [("constructors copy their arguments", EST[0]),
            ("fit works on local copies", EST[1])],
      ["get_params() before and after fit", "attributes named like "
       "constructor parameters"]),
    P("C02", "A fit depends only on its own data and hyperparameters",
      "The outcome of fitting an estimator does not depend on fits made "
      "before, by the same or by any other estimator of the process. In "
      "particular default arguments, class attributes and user-supplied "
      "stopping rules come out of a fit in the state they had before it.",
      ["histories", "configurations"],
      "any number of previous fits of any estimators sharing defaults or a "
      "stopping rule object",
      "Tests fit each object once and do not compare a fit with the same fit "
      "made later in the process.",
      EST + [ED, OC], [("solver works on its own copy of the stopping rule",
                        ED)],
      ["objects shared between estimator instances", "refitting"]),
    P("C03", "random_state fixes every random draw made during a fit",
      "During fit, every pseudo-random draw (initial parameters included) is "
      "made after the generator it comes from was seeded with the "
      "estimator's random_state. Two fits with equal data, hyperparameters "
      "and random_state therefore consume the same random numbers.",
      ["configurations", "histories"],
      "every estimator and solver, every global generator state before fit",
      "The test harness itself seeds all generators before each test, which "
      "hides unseeded draws.",
      EST + [BS, W], [("seeding in the estimators", LR),
                      ("seeding in the samplers", BS)],
      ["torch, numpy and python generators during fit"]),
    P("C04", "Every hyperparameter reaches its documented role",
      "A fit's outcome depends on each documented hyperparameter in its "
      "documented role: regularisation weights, sampler scale, entropic "
      "regularisation, learning rate, number of samples, number of "
      "iterations, problem constants, cost. No hyperparameter is silently "
      "dropped or replaced by another one.",
      ["configurations"],
      "every estimator, solver and hyperparameter value",
      "Tests run a handful of hyperparameter values and look at accuracy "
      "only.",
      EST + [W], [("arguments handed to the robust loss", LR)],
      ["the robust loss built during fit"]),
    P("C05", "Solver names select the documented algorithm",
      "For every estimator: names ending in _post draw new samples at each "
      "optimisation step, names ending in _pre draw them once, 'dedicated' "
      "runs the convex reformulation, 'entropic' raises DeprecationWarning "
      "and unrecognised names raise NotImplementedError. No name silently "
      "runs another algorithm.",
      ["configurations"],
      "every estimator and every solver name",
      "The tests only check that fits with a few solver names return.",
      EST, [("solver dispatch in fit", f) for f in EST],
      ["fit() with each solver name"]),
    P("C06", "Negative or non-numeric radii are refused",
      "Estimators refuse a negative radius at construction with ValueError "
      "and a non-numeric one at fit with TypeError. A robust loss built with "
      "a negative radius raises ValueError whenever it is evaluated, in both "
      "sampling modes and with or without importance sampling; a NaN radius "
      "gives a NaN loss.",
      ["inputs", "configurations"],
      "every estimator, every sampling mode, every negative, NaN or "
      "non-numeric radius",
      "Tests use one negative value in one mode.",
      EST + [OR, DL], [("radius tests in the constructors", LR),
                       ("radius tests in the forward passes", OR)],
      ["constructors, fit, robust loss evaluation"]),
    P("C07", "With a zero radius the robust loss is the empirical risk",
      "When the radius is zero, the value of the robust loss is the reduction "
      "of the user's per-sample losses (plus the l2 term if any) at the data "
      "points themselves, with no sampling or multiplier contribution. This "
      "holds in both sampling modes, for repeated evaluations, and fits with "
      "radius zero report a zero dual variable.",
      ["inputs", "configurations", "histories"],
      "all data, losses, transforms, reductions, sampling modes, repeated "
      "evaluations",
      "Tests compare a few numbers for one mode.",
      [DL, OR, ED], [("zero radius branches", DL), ("zero radius branches",
                                                   OR)],
      ["robust loss evaluation", "dual_var_ after fit"]),
    P("C08", "The robust loss is the entropic dual formula",
      "For a positive radius, the robust loss of a batch is the average over "
      "data points of lambda*rho^k + eps*log(mean_j exp((L(z_ij) - "
      "lambda*c(x_i, z_ij))/eps)), where the z_ij are the sampled points, c "
      "the ground cost of power k measured from the data points. When "
      "importance sampling moves the z_ij, each exponential carries the ratio "
      "of the reference density to the density the points were drawn from.",
      ["inputs", "configurations"],
      "all data, labels, losses, transforms, radii, multipliers, costs, "
      "sampling modes, sample counts",
      "The formula is never compared with an independent computation; tests "
      "look at shapes and at accuracy after training.",
      [DL, IS, W, BS, OR], [("dual formula", DL), ("importance sampling", IS)],
      ["value returned by the robust loss"]),
    P("C09", "Reductions 'none', 'sum' and 'mean' apply to one same vector",
      "With reduction='none' the robust loss returns one value per data "
      "point; 'sum' and 'mean' return the sum and the average of exactly "
      "these values, and no reduction means 'mean'. Any other reduction name "
      "is refused when the loss is evaluated.",
      ["inputs", "configurations"],
      "all data, sampling modes, radii, labels",
      "Tests only check the output shape of each reduction.",
      [DL, MI, OR], [("batch reduction", MI)],
      ["value and shape returned by the robust loss"]),
    P("C10", "The dual multiplier never becomes negative",
      "The dual multiplier of a robust loss is nonnegative at construction, "
      "after its initial guess and after every step of the optimiser attached "
      "to the loss, whatever the gradients and the optimiser chosen.",
      ["inputs", "histories", "configurations"],
      "every sequence of optimisation steps, every optimiser choice",
      "The sign of the multiplier is never looked at in the tests.",
      [OR, MI, DL], [("projection after each step", OR)],
      ["multiplier after optimiser steps"]),
    P("C11", "Evaluating a robust loss leaves the user's model state intact",
      "Evaluating a robust loss, importance sampling included, leaves the "
      "requires_grad flag of every parameter and the training mode of every "
      "module exactly as the caller had set them. No parameter value or "
      "buffer is changed either.",
      ["inputs", "configurations", "histories"],
      "every pattern of frozen parameters and of module modes",
      "Tests never freeze a parameter nor use evaluation mode.",
      [IS, MI], [("flags saved and restored", IS)],
      ["requires_grad and training flags after an evaluation"]),
    P("C12", "Recentring a sampler changes only its centre",
      "Recentring a sampler on new data makes it draw around the new data "
      "(and new labels when it has labels) with the same family, spread and "
      "seed as before. A robust loss that resamples draws around the batch it "
      "is evaluated on, not around the batch it was built with.",
      ["inputs", "histories", "configurations"],
      "every sampler class, any number of recentrings, batches of any size",
      "Tests recentre a sampler without looking at the distribution.",
      [BS, CS, CL, NVS, PFS, OR], [("reset_mean of each sampler", CS)],
      ["draws and densities after recentring"]),
    P("C13", "Samplers draw reparametrised points around the data",
      "Every sampler draws the asked number of points per data point, "
      "centred on the data with the asked spread, as differentiable "
      "(reparametrised) draws, and returns labels exactly when it is a "
      "labelled sampler. Samplers built from a ground cost use the noise "
      "family matching that cost.",
      ["inputs", "configurations"],
      "every sampler class, every cost, spread and sample count",
      "Tests check shapes only.",
      [BS, CS, CL, NVS, PFS, NC, NL], [("samplers", CL), ("cost samplers",
                                                        NC)],
      ["sample() of each sampler"]),
    P("C14", "Sampler log-densities add their parts and can be recentred",
      "The log-density of a sampler at given points is the sum over "
      "coordinates of its data log-density plus, for labelled samplers, that "
      "of its labels, one value per sampled point. The recentred log-density "
      "is the same density translated to the given centres.",
      ["inputs", "configurations"],
      "every sampler class, all evaluation points and centres",
      "Tests check that the numbers are finite and of the right shape.",
      [BS, CS], [("log_prob and log_prob_recentered", BS)],
      ["log_prob, log_prob_recentered"]),
    P("C15", "Cost codes decode identically everywhere and bad ones are refused",
      "A cost code engine-kind-power-norm[-label weight] gives a ground cost "
      "with exactly these attributes through every decoding entry point, "
      "omitted parts taking their documented defaults. Codes with another "
      "engine, an unknown kind or a wrong number of parts are refused.",
      ["inputs"],
      "all codes",
      "Tests decode a few codes through one entry point.",
      [CD, W], [("decoders", CD)],
      ["cost objects returned by the decoders"]),
    P("C16", "Ground costs compute the documented formula",
      "The unlabelled ground cost is ||x - z||_p^k; the labelled one is "
      "((||x - z||_p + kappa*||y - w||_p)/(1 + kappa))^k, with kappa=0 "
      "ignoring labels and infinite kappa only counting them. The norm runs "
      "over the last axis, which is kept with length one.",
      ["inputs", "configurations"],
      "all points, labels, norms, powers and label weights",
      "Tests compare a few numbers for one norm and power.",
      [NC, NL], [("value of the costs", NC), ("value of the costs", NL)],
      ["value returned by the costs"]),
    P("C17", "Importance sampling is used only when asked and possible",
      "A robust loss moves its samples with importance sampling exactly when "
      "the caller enabled it and the ground cost is the squared Euclidean "
      "one. In all other configurations the loss is evaluated at the plain "
      "draws, with no density ratio.",
      ["configurations"],
      "every cost code, flag and sampling mode",
      "Tests switch the flag without looking at the points used.",
      [W, CD, DL, IS], [("decision on importance sampling", W)],
      ["points at which the user's loss is evaluated"]),
    P("C18", "Importance shifts follow the loss gradient and vanish otherwise",
      "With importance sampling every sample of a data point is moved by the "
      "same vector, half the gradient of that data point's loss divided by "
      "the multiplier, its length before division capped; labels move along "
      "their own gradient divided by the label weight. When any shift is not "
      "finite, no sample is moved.",
      ["inputs", "configurations"],
      "all data, losses, multipliers, including zero multipliers and null "
      "gradients",
      "Tests never look at the displacement.",
      [IS, NC, NL, UT], [("displacement", IS), ("maximiser of the series "
                                               "expansion", NC)],
      ["points at which the user's loss is evaluated"]),
    P("C19", "User epsilon and sigma win; defaults scale with the radius",
      "The entropic regularisation and the sampler spread given by the user "
      "are used as they are. When omitted they follow the documented "
      "defaults: spread half the radius (or 0.5 at radius zero), and "
      "regularisation 0.01*0.5^k*radius^(k-1), never below 1e-7, for a cost "
      "of power k.",
      ["inputs", "configurations"],
      "all radii, costs and user values, including zero",
      "Tests rely on the defaults without checking them.",
      [W], [("expert hyperparameters", W)],
      ["epsilon of the robust loss, spread of its sampler"]),
    P("C20", "Early stopping obeys monitor, metric, mode and tolerances",
      "The stopping rule answers yes exactly when the iteration budget is "
      "reached or the monitored quantities (model parameters, multiplier, "
      "both, or either) have moved or have gradients below their tolerance, "
      "in absolute value or relatively to the first recorded value. A "
      "nonpositive tolerance never triggers, unknown names are refused, and "
      "the first calls only record.",
      ["histories", "configurations", "inputs"],
      "every monitor, metric, mode, tolerances, sequence of iterates",
      "Tests run all option combinations but only look at the type of the "
      "answer.",
      [OC, UT], [("stopping rule", OC)],
      ["answers of the stopping rule"]),
    P("C21", "Each optimisation step uses fresh gradients of the loss it records",
      "In the library's training loops every step is preceded by clearing "
      "the gradients, evaluating the current loss on the data and "
      "differentiating it, in this order; the value recorded for the step is "
      "a value of that loss. In the robust phase training stops at once when "
      "a recorded value is not a number.",
      ["histories", "configurations"],
      "every sampling mode, number of iterations, optimiser",
      "Tests look at the accuracy reached, which tolerates stale or "
      "accumulated gradients.",
      [ED, OR], [("training loops", ED)],
      ["optimiser steps made during fit"]),
    P("C22", "Fitted attributes are the optimised parameters, field by field",
      "After a fit, the coefficient, intercept, dual variable, robust loss "
      "and related attributes hold the final value of the quantity they are "
      "named after, read from the trained model or from the solution of the "
      "convex program. Solver results give each field under its own name and "
      "unpack in the order coefficient, intercept, dual variable, loss.",
      ["configurations", "inputs"],
      "every estimator, solver and result arity",
      "Tests check the accuracy of one or two attributes.",
      EST + [ED, RS, SP], [("result wrapper", RS), ("attribute assignment",
                                                   LG)],
      ["attributes after fit, solver results"]),
    P("C23", "Predictions are those of the fitted model; probabilities valid",
      "Regression predictions are X @ coef_ + intercept_ (no intercept when "
      "none is fitted). Class probabilities are the logistic (two classes) or "
      "softmax (more classes) transform of the fitted scores, with one column "
      "per class in the order of classes_, nonnegative and summing to one, "
      "and the predicted class is the one of largest probability.",
      ["inputs", "configurations"],
      "all inputs, intercept settings, numbers of classes",
      "Tests check accuracy on separable data.",
      [LR, LG], [("predict, predict_proba", LG)],
      ["predict, predict_proba"]),
    P("C24", "Using an estimator needs a fit and validated input",
      "predict, predict_proba, eval and score raise scikit-learn's "
      "NotFittedError before any fit, and validate their input arrays before "
      "using them; fit validates its data before using them. A fit that "
      "raises leaves is_fitted_ unset on a new estimator.",
      ["histories", "inputs"],
      "every estimator, every method, any input",
      "Tests call these methods on fitted estimators with clean inputs.",
      EST, [("fitted and array checks", f) for f in EST],
      ["methods of unfitted estimators, invalid inputs"]),
    P("C25", "Arrays and tensors of the user are never modified",
      "No public entry point writes into the arrays or tensors handed by the "
      "caller: data and labels given to fit, predict, eval and score, tensors "
      "given to the robust loss, to costs, samplers and convex solvers.",
      ["inputs", "configurations", "histories"],
      "every entry point and configuration",
      "Tests reuse their arrays without comparing them with a copy.",
      EST + [DL, IS, NC, NL, BS, SP, PB], [("out of place operations", DL)],
      ["caller's arrays after each call"]),
    P("C26", "Hybrid optimisers undo their change of variables",
      "Around each base optimiser step, parameters under a multiplicative, "
      "simplex, nonnegativity, maximisation or bounded-gradient rule are "
      "transformed and transformed back: multiplicative parameters stay "
      "positive, simplex ones sum to one, nonnegative ones are projected, "
      "maximised ones ascend. Parameters without a rule get exactly the base "
      "step.",
      ["inputs", "configurations", "histories"],
      "every rule, any mix of groups, both optimisers",
      "Two rules are tested on one group each.",
      [HY], [("pre and post rules", HY)],
      ["parameter values after a step"]),
    P("C27", "The Dirac distribution is a point mass",
      "Its mean and mode are its location, its variance is zero, samples of "
      "any shape repeat the location and stay differentiable with respect to "
      "it, its log-density is zero at the location and minus infinity "
      "elsewhere; its entropy is minus infinity. Batch and event shapes split "
      "as requested and survive expansion.",
      ["inputs", "configurations"],
      "all locations, shapes, numbers of batch dimensions",
      "Tests use one location.",
      [DI], [("Dirac", DI)],
      ["Dirac distribution objects"]),
    P("C28", "score is minus the mean loss of the fitted decision",
      "For the newsvendor, portfolio and Weber estimators, eval returns the "
      "average over the given data of the problem's loss at the fitted "
      "decision, and score returns its opposite, for every solver. Larger "
      "scores therefore always mean smaller losses.",
      ["inputs", "configurations"],
      "all data, all estimators and solvers",
      "score is not compared with an independent computation.",
      [NV, PF, WB, NVL, PFL, WBL], [("eval and score", f) for f in
                                   (NV, PF, WB)],
      ["eval, score"]),
    P("C29", "Dedicated solvers encode the documented convex programs",
      "The convex program solved by each dedicated solver has exactly the "
      "objective and constraints of the documented reformulation (logistic "
      "regression, linear regression, portfolio selection, newsvendor), and "
      "the solver returns the values of the variables playing the documented "
      "roles.",
      ["inputs", "configurations"],
      "all data, radii, constants, with or without intercept",
      "Tests compare accuracy on separable data.",
      [SP], [("convex programs", SP)],
      ["programs handed to the convex solver"]),
    P("C30", "Built-in losses compute their per-sample formulas",
      "Each built-in loss (logistic, quadratic, newsvendor, portfolio, Weber, "
      "soft margin) evaluates its documented formula separately for each "
      "sample, keeping a last axis of length one. Portfolio weights are a "
      "softmax and so always lie in the simplex.",
      ["inputs", "configurations"],
      "all data, parameters, constants",
      "Tests compare shapes or a few values.",
      [LO, QU, NVL, PFL, WBL, NV], [("loss values", LO)],
      ["value of the losses"]),
    P("C31", "Wrapped losses are evaluated sample by sample, l2 added once",
      "A wrapped user loss evaluated on a batch of sampled points gives, for "
      "each point, the user's loss of the transformed point with its own "
      "label, averaged over trailing output dimensions, plus half the l2 "
      "weight times the squared norm of all trainable parameters. Losses "
      "that reduce over the batch are refused.",
      ["inputs", "configurations"],
      "all losses, transforms, batch ranks, label settings, l2 weights",
      "Tests check output shapes.",
      [WR, BL], [("wrapper", WR), ("regularisation", BL)],
      ["value of a wrapped loss"]),
    P("C33", "train() and eval() act on a robust loss as on any torch module",
      "train() puts the robust loss and all its submodules in training mode "
      "and eval() in evaluation mode, train(False) being eval(). Neither "
      "changes which loss (robust or empirical) is computed.",
      ["histories", "configurations"],
      "any sequence of train and eval calls",
      "Tests never call them.",
      [MI, OR], [("module modes", MI)],
      ["training flags, loss value after train()/eval()"]),
    P("C34", "Attached optimisers update every trainable parameter",
      "The optimiser attached to a robust loss steps every trainable "
      "parameter of the user's loss and transform and the dual multiplier, "
      "each exactly once per step, using the learning rate given by the user. "
      "Clearing gradients clears them for all these parameters.",
      ["configurations", "histories"],
      "every sampling mode, optimiser choice, model",
      "Tests look at the accuracy after training, which tolerates a frozen "
      "bias or multiplier.",
      [OR, W], [("optimiser construction", OR)],
      ["parameters updated by one step"]),
    P("C35", "Warm-up steps minimise the empirical risk, later steps the robust one",
      "When a number of warm-up steps is asked, exactly these first steps "
      "minimise the empirical risk and the following ones the robust loss. "
      "The multiplier is initialised between the two phases, and the robust "
      "phase makes at most the asked number of steps.",
      ["histories", "configurations"],
      "every sampling mode and pair of iteration counts",
      "Tests only look at the final accuracy.",
      [ED, UT, DL], [("two phase training", ED)],
      ["loss minimised at each step of a fit"]),
    P("C36", "Fits converge to the optimum of the robust problem",
      "The parameters returned by the entropic solvers approach a minimiser "
      "of the robust objective as iterations and samples grow.",
      ["inputs", "configurations"],
      "all data and losses",
      "Convergence is observed on a few separable data sets.",
      [ED, OR], [("training loops", ED)],
      ["fitted parameters"]),
    P("C37", "The robust value bounds the risk over the Wasserstein ball",
      "The minimum over the multiplier of the robust loss upper bounds the "
      "expected loss under every distribution of the (regularised) "
      "Wasserstein ball of the asked radius.",
      ["inputs"],
      "all data, losses and distributions of the ball",
      "No test builds an adversarial distribution.",
      [DL], [("dual formula", DL)],
      ["robust loss value"]),
]

# id -> (technique, level_note)
TECH = {}
NA = {
    "C36": "Convergence of a stochastic optimiser is a statement about the "
           "numerical values of an unbounded run; no structural clause of the "
           "source is necessary for it beyond those decided under C08, C21, "
           "C34 and C35.",
    "C37": "An inequality between integrals over all distributions of a ball; "
           "the structural part (the formula evaluated) is decided under C08, "
           "the bound itself is a theorem about that formula and sampling "
           "error, not about the source.",
}
