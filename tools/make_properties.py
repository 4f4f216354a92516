"""Writes /verif/properties.jsonl (one property per line). Source of truth for the property texts."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Every tree partitions the covariate space",
  "In every tree that sampling holds or stores - after any sequence of grows and prunes, with either tree sampler, or after initialisation - each row of any finite covariate matrix (training rows, unseen rows, rows exactly on a threshold or far outside the training range) falls into exactly one leaf. "
  "For a training row the leaf recorded as holding it is the leaf its split conditions select when the same row is evaluated out of sample. "
  "A value equal to a threshold goes to the less-than-or-equal side.",
  ["inputs", "histories", "configurations"],
  "All finite covariate matrices, all grow/prune histories, live and stored trees, both tree samplers.",
  "The tests build four or five hand-made trees over at most six rows; none routes unseen rows through a sampled tree.",
  ["bartpy/splitcondition.py", "bartpy/split.py", "bartpy/data.py", "bartpy/tree.py", "bartpy/node.py", "bartpy/samplers/oblivioustrees/proposer.py"],
  [("Combined interval per variable evaluated on new rows", "bartpy/splitcondition.py:CombinedCondition.condition"),
   ("Row mask narrowed by each split", "bartpy/data.py:CovariateMatrix.update_mask")],
  [("row mask", "rows excluded from the node", "bartpy/data.py:Data.mask"), ("combined condition", "interval per variable", "bartpy/splitcondition.py")],
  ["leaf conditions of live trees after every sampler step", "leaf conditions of stored samples"])

p("C02", "Trees stay well formed through any mutation history",
  "After any sequence of grow and prune mutations the tree's node list is exactly the set of nodes reachable from a single root, without duplicates or orphans; every decision node has two children one level deeper that take the two opposite sides of one threshold on one variable; and the leaf, decision, splittable-leaf and prunable views classify those nodes correctly. "
  "The training rows of a decision node are the disjoint union of its children's rows, no child made by sampling is empty, and pruning restores exactly the rows and depth the node had before it was grown. "
  "Pruning a node that does not have two leaf children, or growing a node that is not a leaf, is refused.",
  ["histories", "inputs"],
  "All grow/prune sequences over all finite covariate matrices.",
  "The tests apply one mutation to a hand-made tree, mostly with all nodes sharing the same rows.",
  ["bartpy/tree.py", "bartpy/node.py", "bartpy/mutation.py"],
  [("mutate() swaps nodes and re-links parents", "bartpy/tree.py:mutate"), ("Type checks on mutations", "bartpy/mutation.py"), ("split_node builds children", "bartpy/node.py:split_node")],
  [("node list", "all nodes of the tree", "bartpy/tree.py:Tree.nodes")],
  ["tree after each accepted mutation, in sampling and in directly driven histories"])

p("C03", "Node statistics equal a recomputation from the node's rows",
  "At every point of sampling each node's observation count and target sum equal a fresh recomputation from the node's rows and the current target, and its column facts (which columns have more than one distinct value, which have no duplicates, the column maximum, the frequency of a value) equal a recomputation from the node's covariate rows. "
  "This holds however the node came about - repeated splits, prunes, condition objects used more than once, targets replaced in between.",
  ["inputs", "histories"],
  "All data sets (ties, constants, singletons), all sequences of splits, prunes and target updates.",
  "The caches are tested on one five-row matrix and one split; inheritance of cached facts through chains of splits is never exercised.",
  ["bartpy/data.py", "bartpy/node.py", "bartpy/split.py", "bartpy/splitcondition.py"],
  [("Carried count and sum for the right child", "bartpy/node.py:split_node"), ("Cache inheritance from parent to child", "bartpy/data.py:CovariateMatrix.__init__"), ("Sum cache invalidation", "bartpy/data.py:Target.update_y")],
  [("cached sum", "sum of the target over the node's rows", "bartpy/data.py:Target"), ("column caches", "splittable / unique / max per column", "bartpy/data.py:CovariateMatrix")],
  ["every node of every tree after every sampler step"])

p("C04", "Tree proposals are legal and uniformly drawn",
  "A proposed grow picks a leaf uniformly among the leaves whose rows differ in at least one covariate, a variable uniformly among the covariates that are not constant in that leaf, and a threshold by drawing one of the leaf's observed values of that variable other than its maximum with its frequency, so both children are non-empty; a proposed prune picks uniformly among the decision nodes with two leaf children. "
  "Grow and prune are chosen with the configured probabilities when both are possible and the possible one is chosen when only one is; when neither is, the step is a no-op. "
  "Proposing never changes the tree.",
  ["inputs", "configurations", "histories"],
  "All trees reachable on all data sets, all grow/prune probabilities.",
  "Tests check the types of one proposal on one tree; no test looks at which leaves, variables or values can be drawn or how often.",
  ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/data.py", "bartpy/samplers/scalar.py", "bartpy/tree.py"],
  [("Uniform choice of leaf / prunable node", "bartpy/samplers/unconstrainedtree/proposer.py"), ("random_splittable_value rejects the maximum", "bartpy/data.py:CovariateMatrix.random_splittable_value"), ("is_not_constant decides splittability", "bartpy/data.py:is_not_constant")],
  observe=["proposals returned by the proposer"])

p("C05", "Each tree is fitted to the residual of all the others",
  "Whenever a tree is updated during sampling, the target it is fitted to equals the training target minus the sum of the current predictions of all the other trees, for any number of trees and after any number of sweeps. "
  "This stays true after any history, including sweeps interrupted part-way by an error and then resumed on the same model, and extra prediction or sigma steps placed between the standard steps.",
  ["histories", "fault_sequences", "configurations"],
  "All sweep histories, all interruption points, all orders of the sampling steps.",
  "No test runs a single sweep.",
  ["bartpy/model.py", "bartpy/tree.py", "bartpy/node.py", "bartpy/samplers/schedule.py"],
  [("Incremental running prediction", "bartpy/model.py:Model.refreshed_trees"), ("Target pushed through the nodes", "bartpy/node.py:TreeNode.update_y")],
  [("running prediction", "sum of the trees' predictions", "bartpy/model.py:Model.refreshed_trees")],
  ["every tree handed out by a sweep"])

p("C06", "In-sample predictions always reflect the current leaf values",
  "At every moment, also in the middle of a sweep and right after leaf values or structure changed, a tree's in-sample prediction assigns each training row the current value of the leaf holding it, and the model's is the sum over its trees. "
  "It equals evaluating the same trees out of sample on the training covariates, and the model's residuals are the training target minus it.",
  ["histories", "inputs"],
  "All interleavings of predictions, leaf updates, structural mutations and target updates.",
  "No test calls the in-sample prediction at all.",
  ["bartpy/tree.py", "bartpy/model.py", "bartpy/node.py"],
  [("Prediction cache and its invalidation", "bartpy/tree.py:Tree.predict"), ("Sum over trees", "bartpy/model.py:Model.predict")],
  [("prediction cache", "last in-sample prediction", "bartpy/tree.py")],
  ["Tree.predict / Model.predict / Model.residuals between any two operations"])

p("C07", "The acceptance ratio is the Metropolis-Hastings ratio",
  "For the default tree sampler, the log ratio computed for a proposed grow or prune is the Metropolis-Hastings ratio: the Gaussian likelihood ratio with leaf values integrated out, times the tree prior ratio with split probability alpha*(1+depth)^-beta, times the probability of proposing the reverse move over that of proposing the move. "
  "Hence growing a leaf and pruning it back have exactly opposite log ratios. "
  "Both hold for every tree, data set, residual, sigma, number of trees, alpha, beta, k and grow/prune probability.",
  ["inputs", "configurations", "histories"],
  "All trees and moves on all data sets with all hyperparameters.",
  "No test evaluates a ratio.",
  ["bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/samplers/treemutation.py", "bartpy/model.py"],
  [("Likelihood, tree-prior and transition terms", "bartpy/samplers/unconstrainedtree/likihoodratio.py"), ("Leaf prior scale", "bartpy/model.py:Model.sigma_m")],
  observe=["log_probability_ratio of proposals on sampled trees"])

p("C08", "Moves are accepted with the stated probability and applied exactly",
  "A proposed tree move is accepted with probability min(1, ratio), where ratio is the likelihood ratio of the move, independently of earlier decisions. "
  "An accepted move changes the tree in exactly the proposed way - the one node is split or merged as proposed and every other node keeps its rows and value - and a rejected move leaves the tree and its leaf values untouched. "
  "The outcome reported for the step says whether the tree changed.",
  ["inputs", "histories"],
  "All ratios from strongly negative to strongly positive, both tree samplers, all trees.",
  "No test runs a sampler step.",
  ["bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/oblivioustrees/treemutation.py", "bartpy/tree.py", "bartpy/samplers/scalar.py"],
  [("Comparison of a uniform draw with the ratio", "bartpy/samplers/unconstrainedtree/treemutation.py:sample"), ("mutate()", "bartpy/tree.py:mutate")],
  observe=["result of sampler.step and the tree before/after"])

p("C09", "Leaf values are drawn from their conjugate normal conditional",
  "A sampled leaf value is a draw from the normal posterior of the leaf mean given the leaf's current residuals, the current sigma and the leaf prior N(0, (0.5/(k*sqrt(number of trees)))^2): precision-weighted mean and the matching posterior variance. "
  "Successive draws are independent of each other, however many are taken, and the drawn value becomes the leaf's value.",
  ["inputs", "configurations", "histories"],
  "All leaf sizes, residuals, sigmas, k, numbers of trees; runs longer than any internal batch of random numbers.",
  "No test draws a leaf value.",
  ["bartpy/samplers/leafnode.py", "bartpy/samplers/scalar.py", "bartpy/model.py"],
  [("Closed-form posterior", "bartpy/samplers/leafnode.py:LeafNodeSampler.sample"), ("Batched standard normals", "bartpy/samplers/scalar.py:NormalScalarSampler")],
  observe=["values returned by the leaf sampler and stored in leaves"])

p("C10", "Sigma is drawn from its conjugate conditional",
  "A sampled sigma is a draw whose inverse square is Gamma distributed with shape sigma_a + n/2 and rate sigma_b + SSR/2, where SSR is the sum of squared differences between the training target and the sum of all trees' current predictions, on the normalised scale. "
  "It is always positive and finite, becomes the model's sigma, and its original-scale value is it times the range of the training target.",
  ["inputs", "configurations", "histories"],
  "All residual vectors, n, prior parameters; sigma drawn at any point of a run.",
  "No test draws sigma.",
  ["bartpy/samplers/sigma.py", "bartpy/sigma.py", "bartpy/model.py"],
  [("Gamma draw of the precision", "bartpy/samplers/sigma.py:SigmaSampler.sample"), ("Rescaling", "bartpy/sigma.py:Sigma.current_unnormalized_value")],
  observe=["values returned by the sigma sampler"])

p("C11", "A full Gibbs sweep leaves the BART posterior invariant",
  "If tree structures, leaf values, sigma and data are jointly drawn from the BART model (tree prior, leaf prior, sigma prior, Gaussian noise), then after any number of sweeps of the sampler on that data, trees, leaf values and sigma still have their prior distribution; equivalently each sweep targets the exact BART posterior. "
  "In particular, with one tree and fixed sigma the long-run frequency of every tree equals its exactly enumerated posterior probability.",
  ["inputs", "configurations", "histories"],
  "Priors, covariate matrices with ties and constants, one or several trees.",
  "Correctness of a sampler is a property of distributions; no test samples at all.",
  ["bartpy/samplers/modelsampler.py", "bartpy/samplers/schedule.py", "bartpy/samplers/unconstrainedtree", "bartpy/samplers/leafnode.py", "bartpy/samplers/sigma.py", "bartpy/model.py"],
  [("Gibbs sweep", "bartpy/samplers/schedule.py:SampleSchedule.steps"), ("Metropolis-Hastings tree step", "bartpy/samplers/unconstrainedtree/treemutation.py")],
  observe=["model state before and after sweeps started from exact prior/posterior draws"])

p("C12", "A sweep updates every tree, every leaf and sigma exactly once, in order",
  "One sampling step visits every tree of the model exactly once; for each tree it first samples a structural mutation and then draws a new value for each leaf the tree has after that mutation, exactly once each, before the next tree is touched; after all trees it draws sigma exactly once. This holds in every sweep, however long a tree has been accepted or refused before. "
  "The acceptance rate reported for the step is the fraction of the trees whose mutation was accepted.",
  ["histories", "configurations"],
  "All numbers of trees and all accept/reject patterns.",
  "No test runs the schedule.",
  ["bartpy/samplers/schedule.py", "bartpy/samplers/modelsampler.py", "bartpy/model.py", "bartpy/trace.py"],
  [("Generator of steps", "bartpy/samplers/schedule.py:SampleSchedule.steps"), ("Step loop", "bartpy/samplers/modelsampler.py:ModelSampler.step")],
  observe=["tree/leaf/sigma sampler calls recorded in order"])

p("C13", "A chain records exactly the requested draws",
  "A chain runs n_burn sweeps that are not recorded and then n_samples sweeps, of which it records the fraction thin, evenly spread and starting with the first (ceil(n_samples*thin) draws). "
  "Each recorded model, in-sample prediction and acceptance entry belongs to the same sweep, describes the state right after that sweep, and appears in sweep order; what is not asked to be stored is not stored. "
  "The fitted estimator exposes the draws of all chains, each exactly once.",
  ["configurations", "histories"],
  "All n_burn, n_samples, thin in (0,1], storage flags, numbers of chains.",
  "No test runs a chain; thinning at values other than reciprocals is never tried.",
  ["bartpy/samplers/modelsampler.py", "bartpy/sklearnmodel.py", "bartpy/trace.py"],
  [("Thinning rule and traces", "bartpy/samplers/modelsampler.py:ModelSampler.samples"), ("Chain concatenation", "bartpy/sklearnmodel.py:SklearnModel._combine_chains")],
  observe=["chain dictionary and the estimator's samples against a log of sweeps"])

p("C14", "Stored samples are frozen, complete and self-contained",
  "A stored model sample keeps forever the predictions, structure, node links, split conditions, leaf values, sigma and prior settings the model had when it was stored, whatever sampling, mutation or refitting happens afterwards, and altering a stored sample does not affect the live model. "
  "A stored sample can be walked from root to leaves through its own nodes and does not hold on to the training data.",
  ["histories"],
  "All continuations of sampling after the sample was stored.",
  "No test copies a tree or model.",
  ["bartpy/model.py", "bartpy/tree.py", "bartpy/node.py", "bartpy/trace.py"],
  [("Copying of nodes and trees", "bartpy/node.py:deep_copy_node, bartpy/tree.py:deep_copy_tree, bartpy/model.py:deep_copy_model")],
  observe=["digest of each stored sample at storage time and at the end"])

p("C15", "Predictions are the posterior mean, row by row, in the target's units",
  "The estimator's prediction for a row is the mean over all stored draws of the sum of that draw's tree values for the row, mapped back to the original target scale; it depends only on that row, so row order, batch size and ndarray versus DataFrame input do not matter, and it equals the in-sample prediction for the training rows when those are stored. "
  "Residuals are target minus prediction, squared errors their squares, the root error the square root of the summed squared errors, and the score R^2. "
  "Asking for in-sample predictions that were not stored is refused.",
  ["inputs", "configurations"],
  "All fitted models, all prediction matrices, both storage settings, any number of chains.",
  "No test fits a model.",
  ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/tree.py", "bartpy/data.py"],
  [("Mean of samples and unnormalisation", "bartpy/sklearnmodel.py:SklearnModel.predict"), ("Tree evaluation", "bartpy/tree.py:Tree._out_of_sample_predict")],
  observe=["public predict / residuals / l2_error / rmse / score / prediction_samples"])

p("C16", "Fitting is equivariant to shifting and scaling the target",
  "The target is mapped onto [-0.5, 0.5] for sampling and the inverse map recovers it, so with the same random seed fitting a*y+b (a>0) instead of y gives the same trees and predictions a*prediction+b, and original-scale sigmas scaled by a. "
  "Whether prediction is in-sample, out-of-sample or a residual, results are reported in the units of the target passed to fit.",
  ["inputs"],
  "All targets, shifts and positive scales (checked where floating point makes the relation exact).",
  "Normalisation is tested on one five-element target; nothing checks that a fit uses it consistently.",
  ["bartpy/data.py", "bartpy/sklearnmodel.py", "bartpy/sigma.py", "bartpy/model.py"],
  [("normalize_y / unnormalize_y", "bartpy/data.py:Target"), ("Scaling factor handed to sigma", "bartpy/sklearnmodel.py:SklearnModel._construct_model")],
  observe=["paired fits with the same seed"])

p("C17", "Only the ordering of covariate values matters",
  "With the same random seed, replacing any covariate column by a strictly increasing transform of itself leaves the in-sample predictions, sigmas and leaf memberships of a fit unchanged, and predictions for rows made of observed values are unchanged when they are transformed the same way. "
  "Adding columns that are constant changes nothing either.",
  ["inputs"],
  "All covariate matrices and strictly increasing transforms; any number and position of constant columns.",
  "No test fits a model.",
  ["bartpy/data.py", "bartpy/splitcondition.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/unconstrainedtree/likihoodratio.py"],
  [("Thresholds are observed values compared with <= and >", "bartpy/data.py"), ("Only splittable variables are candidates", "bartpy/data.py:CovariateMatrix.splittable_variables")],
  observe=["paired fits with the same seed"])

p("C18", "Fits do not leak into the caller's data, other models or later fits",
  "Fitting and predicting never modify the caller's covariates or target, and changing those arrays afterwards does not change a fitted model. "
  "Seeding numpy's global generator before a sequential fit reproduces the run exactly, whatever other models were built, fitted or sampled before it in the process; refitting an estimator on new data gives what a fresh estimator would give; fitting one estimator never changes another's results, and models built from one data object are independent of each other and of it.",
  ["histories", "inputs"],
  "All sequences of construct/fit/predict/mutate operations on several estimators in one process.",
  "No test fits two models.",
  ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/data.py", "bartpy/samplers/leafnode.py", "bartpy/samplers/scalar.py", "bartpy/samplers/unconstrainedtree/treemutation.py"],
  [("Copy of inputs", "bartpy/sklearnmodel.py:SklearnModel._convert_covariates_to_data"), ("Default sampler objects with cached draws", "bartpy/samplers/scalar.py")],
  observe=["inputs before/after; outputs of interleaved histories against isolated runs"])

p("C19", "Chains are isolated and independent under every schedule",
  "Each of the n_chains chains samples its own model from its own random draws: no two chains share model state or repeat each other's draws, whether they run sequentially, in worker processes or in threads, and however the threads interleave. "
  "The number, length and content of the chains do not depend on n_jobs, and the estimator ends up describing the data it was fitted on.",
  ["schedules", "configurations", "histories"],
  "Sequential, process and thread execution; all thread interleavings; estimators used before or not.",
  "No test runs more than zero chains.",
  ["bartpy/sklearnmodel.py", "bartpy/samplers/scalar.py", "bartpy/samplers/modelsampler.py"],
  [("run_chain builds and samples a model", "bartpy/sklearnmodel.py:run_chain"), ("Batched random draws", "bartpy/samplers/scalar.py")],
  [("estimator attributes written by chains", "data, sigma, model", "bartpy/sklearnmodel.py:SklearnModel._construct_model")],
  ["models sampled by each chain (identity, thread, draws) with injected delays"])

p("C20", "Batch runs pair every data set with its own fitted model",
  "Running one model specification over a list of data sets returns one fitted model per data set, in order, each holding exactly the draws of the chains run on that data set and predicting in that data set's units, as if it had been fitted alone (a model that adds trees to a base model with a base model of its own data set), and carrying the extract of its own chains. "
  "Neither the template model nor the other results are changed by building one of them.",
  ["inputs", "configurations", "histories"],
  "All lists of data sets (different sizes and scales), numbers of chains, fitted or unfitted templates.",
  "No test runs a batch.",
  ["bartpy/runner.py", "bartpy/sklearnmodel.py"],
  [("Grouping of chains per data set", "bartpy/runner.py:convert_chains_models"), ("from_extract", "bartpy/sklearnmodel.py:SklearnModel.from_extract")],
  observe=["models returned by run_models / from_extract"])

p("C21", "The estimator obeys the scikit-learn contract",
  "The estimator is recognised as a regressor, get_params/set_params/clone round-trip every constructor parameter, and a parameter set through set_params is the one the next fit uses - including the tree sampler and the initializer. "
  "Cross validation, grid search and pickling work: fit returns the estimator, scoring is R^2 of its predictions, and a pickled and restored fitted model predicts exactly the same.",
  ["configurations", "histories"],
  "All parameter assignments and orders of clone, set_params, fit, pickle.",
  "No test touches the sklearn API.",
  ["bartpy/sklearnmodel.py", "bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py"],
  [("Constructor stores parameters", "bartpy/sklearnmodel.py:SklearnModel.__init__"), ("Sampler built from parameters", "bartpy/sklearnmodel.py")],
  observe=["get_params, clone, set_params + fit, cross_validate, GridSearchCV, pickle"])

p("C22", "Any finite numeric data set can be fitted and gives finite predictions",
  "Fitting terminates without error and predictions, residuals and sigmas are finite for every non-empty finite numeric data set: constant or duplicated columns, all rows identical, binary or integer or boolean covariates, mixed-type DataFrames, one or two rows, constant targets, extreme scales and offsets, integer targets, pandas targets. "
  "Empty covariate matrices are rejected with a ValueError.",
  ["inputs", "configurations"],
  "All finite data sets of any shape with at least one row and column, both tree samplers, with or without initializer.",
  "No test fits a model; degenerate data sets are only used to build nodes.",
  ["bartpy/sklearnmodel.py", "bartpy/data.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py", "bartpy/samplers/unconstrainedtree/likihoodratio.py"],
  [("Proposal fallback", "bartpy/samplers/unconstrainedtree/proposer.py:UniformMutationProposer.propose"), ("Input conversion", "bartpy/sklearnmodel.py:SklearnModel._convert_covariates_to_data"), ("Normalisation", "bartpy/data.py:Target.normalize_y")],
  observe=["fit/predict on hostile data sets"])

p("C23", "The sklearn-tree initializer reproduces the fitted tree exactly",
  "Initialising a tree from a fitted sklearn regression tree yields a tree with the same split variables, thresholds and leaf values, so that it predicts the same value for every row, in and out of sample. "
  "Initialising a model does this for each of its trees in turn on the residual left by the others, and sampling then proceeds from a well-formed state.",
  ["inputs", "configurations"],
  "All data sets and tree depths.",
  "The one test for this fits a removed loss name and fails in this environment; it would cover one covariate and depth two.",
  ["bartpy/initializers/sklearntreeinitializer.py", "bartpy/initializers/initializer.py", "bartpy/model.py"],
  [("Recursive mapping", "bartpy/initializers/sklearntreeinitializer.py:map_sklearn_tree_into_bartpy"), ("Initialisation over refreshed trees", "bartpy/model.py:Model.__init__")],
  observe=["initialised trees against sklearn's tree_"])

p("C24", "Residual extensions add the base model and BART exactly",
  "The extensions that put BART on top of a base model fit the base model on the data, fit BART on the base model's residuals, and predict the sum of both for any covariates; prediction without covariates is the prediction for the training covariates. "
  "Residuals, errors and scores are those of the combined prediction against the original target. The base model inside belongs to the extension: fitting another extension, or the base model object that was passed in, changes nothing.",
  ["inputs", "configurations"],
  "All base estimators and data sets, ndarray and DataFrame, in and out of sample.",
  "No test imports the extensions; one of them cannot even be imported with a current scikit-learn.",
  ["bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py", "bartpy/sklearnmodel.py"],
  [("fit/predict overrides", "bartpy/extensions/baseestimator.py, bartpy/extensions/ols.py")],
  observe=["public predictions and residuals of the extensions"])

p("C25", "Split proportions and thresholds drive feature selection consistently",
  "The reported split proportion of a feature is the share of all splits in all stored samples that use it, so the proportions lie in [0,1] and sum to one when there is any split. "
  "The null distribution holds one proportion per feature and permuted fit, every fit on a fresh random permutation of the target; local thresholds are per-feature quantiles and the global threshold the quantile of the per-fit maximum, at the requested level in [0,1]. "
  "A feature is kept exactly when its proportion exceeds its threshold, and the selection mask has one entry per covariate column, in column order, whichever features were used.",
  ["inputs", "configurations"],
  "All stored samples, null distributions, levels and sets of used features.",
  "No test covers the diagnostics or feature packages.",
  ["bartpy/diagnostics/features.py", "bartpy/features/featureselection.py", "bartpy/runner.py"],
  [("Counting of split variables", "bartpy/diagnostics/features.py:feature_split_proportions"), ("Thresholds", "bartpy/diagnostics/features.py:local_thresholds, global_thresholds"), ("Support masks", "bartpy/features/featureselection.py")],
  observe=["returned proportions, distributions, thresholds, masks"])

p("C26", "Permutation importance permutes one column and scores on held-out rows",
  "The null RMSE distribution for a variable contains one error per fold and permutation; each comes from a model fitted on the fold's training rows with only that variable freshly permuted at random and scored on the fold's held-out rows of the same permuted matrix with the matching targets. "
  "The baseline errors come from models fitted on each fold's untouched training rows and scored on its held-out rows, every row being held out exactly once; the caller's model and data are not modified.",
  ["inputs", "configurations"],
  "All data sets, variables, fold and permutation counts, ndarray and DataFrame.",
  "No test covers the features package.",
  ["bartpy/features/featureimportance.py", "bartpy/runner.py", "bartpy/sklearnmodel.py"],
  [("Construction of permuted folds", "bartpy/features/featureimportance.py:null_rmse_distribution"), ("Baseline", "bartpy/features/featureimportance.py:original_model_rmse")],
  observe=["data sets and targets the recorded model is fitted and scored on"])

p("C27", "Diagnostics plot the fitted model's own numbers",
  "Each diagnostic plot can be drawn for any fitted model and shows exactly that model's data: sigma of every stored sample, tree acceptance rate of every stored sample, minimum, mean and maximum node depth per sample, the quantiles of the residuals, residuals against predictions, actual against modelled values, and split proportions per feature.",
  ["inputs", "configurations"],
  "All fitted models (any storage setting that provides the data).",
  "No test draws a plot.",
  ["bartpy/diagnostics/diagnostics.py", "bartpy/diagnostics/residuals.py", "bartpy/diagnostics/sampling.py", "bartpy/diagnostics/sigma.py", "bartpy/diagnostics/trees.py", "bartpy/diagnostics/features.py", "bartpy/plotting.py"],
  [("Plot functions", "bartpy/diagnostics/*.py, bartpy/plotting.py")],
  observe=["artists on the returned axes"])

p("C28", "Reading a fitted model never changes it",
  "Predicting (for new covariates, the training covariates or in sample), residuals, error measures, scores, parameter access, copying, pickling, extracting, counting splits and plotting only read a fitted model. "
  "In any sequence, repeated, in any order and from several threads, each such query returns what it would return on the freshly fitted model; nothing the model stores and no array the caller passes in changes, and queries other than fits draw no random numbers. "
  "The same holds for reading a feature selection: thresholds, kept features, partitions and plots leave proportions and null distributions as they are. Computed predictions and residuals belong to the caller: overwriting them changes nothing. Every prediction is that of the rows given now, also when the caller reuses a buffer with other contents.",
  ["inputs", "schedules", "histories"],
  "All fitted models, sequences and interleavings of queries, reused and overwritten arrays.",
  "Tests query a model once or twice in a fixed order; caching, lazily updated state and aliasing show only in sequences.",
  ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/tree.py", "bartpy/sigma.py", "bartpy/data.py", "bartpy/diagnostics/*.py", "bartpy/extensions/*.py"],
  [("Prediction and error queries", "bartpy/sklearnmodel.py:SklearnModel.predict, residuals, l2_error, rmse"), ("Tree evaluation", "bartpy/tree.py:Tree.predict, _out_of_sample_predict"), ("Target access", "bartpy/data.py:Target.unnormalize_y")],
  observe=["answers to random sequences of public queries, before/after fingerprints of the stored model"])

p("C29", "Components plugged in through the low-level API are honoured exactly",
  "User-supplied components decide exactly what they are meant to decide. A mutation proposer given a table of moves uses those moves with those probabilities on the tree at hand, falling back only as documented when a move is impossible; "
  "a tree sampler asks the proposer and the ratio it was given once per step and obeys them; a sampling schedule's steps are run in the order given, each once per sweep, and the chain records for each step what the trace logger it was given returns, and the acceptance of its accepted steps; "
  "a supplied leaf, sigma or tree sampler's draws are the ones installed in the model; a supplied initializer is given each new tree of each chain once, in order, on what the trees before it leave over, and sampling starts from the trees as it leaves them. An error a component raises reaches the caller as it is, ends the run and leaves the tree as it was.",
  ["configurations", "histories"],
  "All combinations of user-supplied components, models and data.",
  "Tests only use the stock components; the extension points named in the documentation are not exercised.",
  ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/schedule.py", "bartpy/samplers/modelsampler.py", "bartpy/trace.py", "bartpy/samplers/leafnode.py", "bartpy/samplers/sigma.py", "bartpy/model.py", "bartpy/sklearnmodel.py"],
  [("Table of moves", "bartpy/samplers/unconstrainedtree/proposer.py:UniformMutationProposer.propose"), ("Schedule", "bartpy/samplers/schedule.py:SampleSchedule.steps"), ("Trace entries", "bartpy/samplers/modelsampler.py:ModelSampler.samples"), ("Initialisation", "bartpy/model.py:Model.__init__")],
  observe=["call logs of recording components, recorded traces, trees"])

p("C30", "Cached samplers yield independent draws of the stated distribution",
  "The normal, uniform and discrete samplers return, for any cache size and any interleaving of samplers, independent draws of the stated distribution: no draw is handed out twice, draws are independent within a cache, across caches and of the draws of other samplers, and copies and pickles never repeat the original's draws. "
  "A discrete sampler returns the very values it was given, of any type, in the stated proportions, and leaves its arguments alone. With a seed set before construction the sequence of draws is reproducible.",
  ["inputs", "histories", "schedules"],
  "All cache sizes, value lists, probabilities, draw sequences, copies and seeds.",
  "Tests replace the samplers by mocks or draw a handful of values; dependence across caches needs long recorded sequences.",
  ["bartpy/samplers/scalar.py", "bartpy/samplers/leafnode.py", "bartpy/samplers/unconstrainedtree/proposer.py"],
  [("Caches", "bartpy/samplers/scalar.py:NormalScalarSampler, UniformScalarSampler, DiscreteSampler")],
  observe=["recorded draws"])

p("C31", "The level-wise sampler grows or prunes whole levels with the stated odds",
  "A proposal of the oblivious (level-wise) tree sampler either grows every leaf that can be split - each with a variable drawn uniformly from the ones that vary in that leaf and a threshold from its observed values below the maximum, independently of the other leaves - or prunes every decision node with two leaf children; grow and prune are chosen with the configured probabilities, the possible one when only one is, and nothing is proposed when neither is. "
  "With equal grow and prune probabilities the log ratio of the proposal is the sum over its nodes of the Gaussian marginal-likelihood ratio and the ratio of the depth prior, so a level and its reverse have opposite log ratios. "
  "The proposal is accepted or refused as a whole: after a step either every proposed node has been replaced as proposed and nothing else changed, or the tree is untouched.",
  ["inputs", "histories", "configurations"],
  "All trees, data sets, histories and move probabilities.",
  "No test touches the level-wise sampler.",
  ["bartpy/samplers/oblivioustrees/proposer.py", "bartpy/samplers/oblivioustrees/likihoodratio.py", "bartpy/samplers/oblivioustrees/treemutation.py"],
  [("Level proposals", "bartpy/samplers/oblivioustrees/proposer.py:grow_mutations, prune_mutations, UniformMutationProposer.propose"), ("Ratio of a level", "bartpy/samplers/oblivioustrees/likihoodratio.py:UniformTreeMutationLikihoodRatio"), ("Acceptance", "bartpy/samplers/oblivioustrees/treemutation.py:UnconstrainedTreeMutationSampler.sample, step")],
  observe=["proposals, ratios and trees around each step"])

p("C32", "A fit that fails or is interrupted leaves the estimator as it was",
  "When a fit does not finish - a tree step, an initializer or the base model raises, an argument is rejected, the user interrupts it, a chain's worker process dies - the error reaches the caller and the estimator is left as it was before: "
  "a fitted one keeps its draws, data, base model, settings and every prediction, residual and diagnostic, an unfitted one stays unfitted, and the template of a failed batch run is unchanged. The next fit is the one a fresh estimator would have made.",
  ["crash_points", "fault_sequences", "histories", "schedules"],
  "All moments of failure, kinds of error, estimators (plain, residual extension, OLS), data sets and parallel backends.",
  "No test lets a fit fail; the moments at which it can are far more than a test can list.",
  ["bartpy/sklearnmodel.py", "bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py", "bartpy/runner.py"],
  [("Installing the result of a fit", "bartpy/sklearnmodel.py:SklearnModel.fit, _construct_model"), ("Base models", "bartpy/extensions/baseestimator.py:ResidualBART.fit"), ("Batch", "bartpy/runner.py:run_models")],
  observe=["stored draws, data, predictions and fitted state before and after"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
