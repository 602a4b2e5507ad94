#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it to regenerate both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, C, S = "inputs", "histories", "configurations", "schedules"

# (id, title, statement, over, quantifier text, why tests can't, files, mechanism [(name, where)], observe_at, level_note)
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or []))

NONE = "No existing test looks at this; the shipped integration tests only print losses on three fixed toy files."

prop("P01", "CSV and dataframe loading is faithful",
 "Reading a CSV file (with or without a header row, any column chosen as target) or a dataframe yields exactly the numbers of the source: one row per line in order, the target column removed from the features and returned as labels, the other columns in order under their header names (or `Feat. [k]`, numbered from 1, without header), reachable by position, by name and by row. Renaming columns returns the old names and moves lookups to the new ones, and choosing another target moves that column. Non-numeric cells, surplus or missing cells (in files and in dataframes), unknown target columns and missing files are refused instead of being read as something else.",
 [I], "every rectangular numeric table, header choice, target column, number formatting and padding", "The quantifier ranges over all files; "+NONE,
 ["src/sample/sample_struct.rs","src/sample/sample_reader.rs","src/sample/feature_struct.rs"],
 [("from_csv/from_dataframe/set_target/replace_names","src/sample/sample_struct.rs")],
 "Random tables against the table itself; exact comparison. Assumes distinct comma-free column names.")
prop("P02", "SVMLight loading is faithful and agrees with the dense form",
 "Reading an SVMLight file yields the labels in order and, for every index that occurs (the entries of a row may come in any order), a sparse column named after index+1 whose value at each row is the listed value or 0 when absent; columns that never occur are dropped and the remaining ones keep their order, names and lookups. Stored-entry and zero counts of a sparse column match the file, and the same matrix written as CSV gives identical rows. Iterating over a column lists its non-zero values by row, and renaming the columns or choosing a column as the target works as on dense samples.",
 [I], "every sparse matrix, index base, gap pattern, empty row and number format", "The quantifier ranges over all files; no existing test reads an SVMLight file.",
 ["src/sample/sample_struct.rs","src/sample/feature_struct.rs"],
 [("from_svmlight/remove_allzero_features","src/sample/sample_struct.rs"),("SparseFeature Index","src/sample/feature_struct.rs")],
 "Random sparse matrices against the matrix itself; exact comparison.")
prop("P03", "Weighted feature statistics equal their definitions, dense and sparse",
 "For every probability vector over the rows, the weighted mean and variance reported for each feature, and the same restricted to one label (normalised by that label's weight; any non-negative weights), equal the defining sums. Dense and sparse representations of the same column give the same answer.",
 [I], "all tables (zeros included), labels and probability vectors", "Only dense toy data pass through these sums in tests and nothing compares the sparse path.",
 ["src/sample/sample_struct.rs","src/sample/feature_struct.rs","src/common/utils.rs"],
 [("weighted_mean*/weighted_variance*","src/sample/feature_struct.rs")],
 "Differential against the textbook sums at relative tolerance 1e-9.")
prop("P04", "Cross-validation folds partition the sample without altering rows",
 "Every fold's training and test parts together contain each row of the sample exactly once, with unchanged values, label, feature order, names (which columns may share), lookups and representation (dense or sparse); test parts of different folds are disjoint, have about (1-ratio)*n rows, and there are as many folds as requested unless the rows run out. Without shuffling rows keep their order, and with shuffling the folds depend only on the sample and the last seed given, before or after the shuffle was requested.",
 [I, C], "all samples (dense and sparse), ratios, fold counts and seeds", NONE,
 ["src/research/cross_validation.rs","src/sample/sample_struct.rs"],
 [("fold_at/next","src/research/cross_validation.rs"),("split/append","src/sample/sample_struct.rs")],
 "Row identity is carried by an id column; every row of every fold is compared exactly.")
prop("P05", "Binary-label validation accepts exactly two-valued integer labels",
 "The binary-instance check accepts a sample if and only if a target is set for every row, all target values are finite integers, and they take exactly two distinct values. The dummy sample has the requested number of rows, half of them positive (rounded down) followed by negatives.",
 [I], "all label vectors", NONE, ["src/sample/sample_struct.rs"],
 [("is_valid_binary_instance/dummy","src/sample/sample_struct.rs")],
 "Exact decision compared with the definition; labels below 2^31.")
prop("P06", "Decision trees: bounded depth, weighted-majority leaves, valid routing",
 "A decision tree trained on any sample and distribution has depth at most the requested maximum and routes every row, of the training sample or of any other sample with columns of the same names (in whatever order and representation), to one leaf by comparing the named feature's value with a threshold (smaller goes left). Each leaf predicts the label of larger total weight among the positively weighted training rows that reach it, with absolute confidence equal to that label's share minus the other label's share of the leaf weight. Its weighted training error is never above that of the better constant prediction. Labels of rows of zero weight do not influence it, a training set whose positively weighted rows all carry one label yields that constant prediction, and dense and sparse representations of the same data give the same predictions.",
 [I, C], "all samples (dense, sparse), distributions, depths, criteria and bin counts", "The tree test does not compile at this commit, and toy runs only print losses.",
 ["src/weak_learner/decision_tree/decision_tree_algorithm.rs","src/weak_learner/decision_tree/node.rs","src/weak_learner/decision_tree/train_node.rs"],
 [("full_tree/confidence_and_loss","src/weak_learner/decision_tree/decision_tree_algorithm.rs")],
 "The tree is read through its serialised form and re-routed by an independent evaluator.")
prop("P07", "Decision-tree splits optimise the chosen criterion over equal-width bins",
 "At every internal node the chosen feature and threshold attain the best value of the selected criterion (entropy, edge, Gini or twoing) among all thresholds of the equal-width bins over the positively weighted rows at that node, for every feature; a depth-limited node that is impure is split whenever a useful split exists. With the default or a sufficient number of bins per feature, training succeeds for any finite feature values.",
 [I, C], "all samples, distributions, criteria and bin counts", NONE,
 ["src/weak_learner/decision_tree/criterion.rs","src/weak_learner/decision_tree/bin.rs"],
 [("best_split","src/weak_learner/decision_tree/criterion.rs"),("Bins::cut/pack","src/weak_learner/decision_tree/bin.rs")],
 "Criteria recomputed from definitions over a superset-free set of candidate thresholds; tolerance 1e-9.")
prop("P08", "Regression trees: leaf values, depth and split gain follow the loss",
 "A regression tree trained on targets and current predictions has depth at most the requested maximum. Every leaf predicts the regularised Newton step of the loss at the current predictions (minus the gradient sum over the hessian sum plus lambda) of the rows that reach it, and each split attains the best regularised gain over the equal-width bins of all features; a node is split when a useful split exists. Rows of other samples are routed by the named columns' values. Dense and sparse representations give the same tree.",
 [I, C], "all samples (dense, sparse), losses, lambdas, depths and bin counts", NONE,
 ["src/weak_learner/regression_tree/regression_tree_algorithm.rs","src/weak_learner/regression_tree/bin.rs","src/weak_learner/regression_tree/train_node.rs"],
 [("full_tree/prediction_and_loss","src/weak_learner/regression_tree/regression_tree_algorithm.rs")],
 "The tree is read through its serialised form and re-routed by an independent evaluator.")
prop("P09", "Gaussian naive Bayes predicts the class of largest posterior",
 "For every training sample and distribution under which each class of positive weight has positive variance in every feature, the Gaussian naive Bayes classifier predicts the label that maximises the weighted class prior times the product over features of normal densities with that class's weighted mean and variance, for query rows arbitrarily far from the training rows (as long as squared distances are finite); classes of zero weight are never predicted. The class probabilities it lists are in the proportions of the posteriors. Its prediction does not depend on the representation (dense or sparse) of the features.",
 [I], "all samples, distributions and query rows", "The only test checks that one toy fit reaches some loss; no comparison with the model's definition.",
 ["src/weak_learner/naive_bayes/nbayes.rs","src/weak_learner/naive_bayes/nbayes_classifier.rs","src/weak_learner/naive_bayes/probability.rs"],
 [("log_probability","src/weak_learner/naive_bayes/probability.rs"),("predict","src/weak_learner/naive_bayes/nbayes_classifier.rs")],
 "Differential against an independent implementation; near ties (1e-6) are not judged.")
prop("P10", "Neural networks learn separable data and output consistent confidences",
 "A trained network classifier (softmax over two outputs or one sigmoid output, any hidden layers) gives every row a finite confidence in [-1, 1] whose sign is its prediction, the same in batch and row by row. Trained long enough on linearly separable data, a network without hidden layers reaches zero weighted training error, and so does one with hidden layers in most attempts, whatever the activation functions: the gradient steps reach the weights of every layer. This also holds when the minibatches are smaller than the sample (every row is learnt over the epochs); rows are drawn into minibatches in proportion to their weight, so that of rows with equal features and conflicting labels the network follows the heavy one.",
 [I, C], "separable samples, distributions, architectures, activations", "The network test does not compile at this commit.",
 ["src/weak_learner/neural_network/nn_weak_learner.rs","src/weak_learner/neural_network/nn_hypothesis.rs","src/weak_learner/neural_network/layer.rs","src/weak_learner/neural_network/activation.rs","src/common/task.rs"],
 [("backward/forward","src/weak_learner/neural_network/nn_hypothesis.rs"),("binarize","src/common/task.rs")],
 "Initial weights come from the thread RNG, so only statements true for every initialisation are judged.")
prop("P11", "The bad base learner returns the documented worst-case hypotheses",
 "The adversarial base learner answers every distribution with a hypothesis of its documented family (the hypotheses of the lower-bound construction and the final one), with the documented prediction value on every row of the dummy sample, and the answer has the largest edge in the family under the current distribution.",
 [I, H], "all sample sizes, capping and gap parameters and sequences of distributions", NONE,
 ["src/weak_learner/bad_learner/worstcase_lpboost.rs","src/weak_learner/bad_learner/worstcase_classifier.rs","src/weak_learner/bad_learner/builder.rs"],
 [("produce","src/weak_learner/bad_learner/worstcase_lpboost.rs")],
 "Compared with an independent statement of the construction.")
prop("P12", "Weighted majority is the normalised weighted vote of its members",
 "A combined hypothesis built from weights and members keeps exactly the members of positive weight in order with weights scaled to sum to one, and its confidence (or regression value) on every row is the weighted sum of the members' outputs, its prediction the sign of that confidence with zero counted positive. Batch predictions list the row-wise ones in order, and pushing, normalising and decomposing keep members and weights aligned.",
 [I, H], "all weights (zero, negative, tiny, huge), members and rows", "Tests only see the losses of trained ensembles.",
 ["src/hypothesis/weighted_majority.rs","src/hypothesis/hypothesis_traits.rs","src/common/utils.rs"],
 [("from_slices/confidence","src/hypothesis/weighted_majority.rs"),("normalize","src/common/utils.rs")],
 "Differential against the definition.")
prop("P13", "Naive aggregation predicts positive exactly on vote patterns of positives",
 "The naive aggregation of a set of hypotheses predicts +1 on a row if and only if some positive training row receives exactly the same votes from all hypotheses, and -1 otherwise.",
 [I], "all hypothesis sets, labels and rows", NONE, ["src/hypothesis/naive_aggregation.rs"],
 [("new/confidence","src/hypothesis/naive_aggregation.rs")], "Differential against the definition.")
prop("P14", "Serialised models predict identically after a round trip",
 "Writing a trained model (decision tree, regression tree, naive Bayes, or a weighted combination of them) to JSON and reading it back gives a model with the same predictions and confidences on every row, and a second serialisation is identical to the first. The Graphviz export of a tree draws exactly its nodes, split tests (whatever characters the column names have), leaf values and yes/no edges.",
 [I], "all trained models and rows", NONE,
 ["src/weak_learner/decision_tree/node.rs","src/weak_learner/common/split_rule.rs","src/hypothesis/weighted_majority.rs","src/weak_learner/regression_tree/node.rs","src/weak_learner/naive_bayes/nbayes_classifier.rs","src/weak_learner/neural_network/nn_hypothesis.rs"],
 [("serde derives and hand-written implementations","src/weak_learner/common")],
 "Round trip; exact equality of confidences.")
prop("P15", "Objective functions report the margin optimisation values they name",
 "The soft-margin objective of a combined hypothesis equals the minimum of its expected margin over all distributions whose entries are at most 1/nu, the hard-margin objective equals its smallest margin, and the exponential loss of a hypothesis with values -1 and +1 equals the average of exp(-label*prediction). Values of nu outside [1, n] are refused.",
 [I, C], "all hypotheses, samples and nu", NONE, ["src/research/objective_functions.rs"],
 [("eval","src/research/objective_functions.rs")],
 "Differential against a sorting oracle; exponential loss judged on +-1-valued hypotheses.")
prop("P16", "Logging a run does not change it and records its true values",
 "Running a booster through the logger returns the same combined hypothesis as running it directly, and the CSV it writes consists of the header ObjectiveValue,TrainLoss,TestLoss,Time and then one line per boosting round with the objective value on the training sample, the training loss and the test loss of the combined hypothesis after that round and the accumulated time spent in boosting rounds (whole milliseconds of the total, non-decreasing). The run ends after the first round whose accumulated time exceeds the time limit, and then the result is the one of that many rounds. The print interval has no influence.",
 [I, H, C], "all boosters, samples, objectives, losses, print intervals and time limits", NONE,
 ["src/research/logger.rs","src/research/logger_builder.rs"],
 [("Logger::run","src/research/logger.rs"),("current_hypothesis of each booster","src/booster")],
 "A second instance of the booster is driven round by round and its values compared with the log.")
prop("P17", "AdaBoost reweights, weighs and stops as specified",
 "In every run AdaBoost presents to the base learner, at each round, the distribution proportional to exp(-label * sum of weighted hypotheses so far), starting uniform; each hypothesis of edge e gets weight ln((1+e)/(1-e))/2, and the result is their normalised vote. It stops at the first hypothesis of edge at least one (returning it alone) or after floor(ln(n)/tolerance^2) rounds (or the forced number), and for non-negative edges its training error never exceeds the product of sqrt(1-e^2). A hypothesis worse than guessing gets a negative weight by the same formula, is reweighted by it, and has no part in the vote; whatever the base learner returns, every distribution presented is a probability vector.",
 [I, H, C], "all samples, hypothesis sequences (also worse than guessing), tolerances and forced iteration counts", "The quantifier ranges over all hypothesis sequences; tests run three toy files with decision stumps and print losses.",
 ["src/booster/adaboost/adaboost_algorithm.rs"], [("update_params/preprocess/boost/postprocess","src/booster/adaboost/adaboost_algorithm.rs")],
 "Model-based: an independent AdaBoost replays the history seen by a recording base learner.")
prop("P18", "AdaBoostV reweights as specified and nearly maximises the hard margin",
 "AdaBoostV presents the distribution proportional to exp(-label * sum of weighted hypotheses so far), starting uniform, where a hypothesis of edge e gets weight ln((1+e)/(1-e))/2 - ln((1+r)/(1-r))/2 with r the smallest edge seen so far minus the tolerance. It stops at a hypothesis of edge at least one (returning it alone), or after ceil(2 ln(n)/tolerance^2) rounds, or the forced number, and returns the normalised vote (hypotheses of negative weight have no part in it). After a completed run with non-negative edges, the combined hypothesis has minimum margin at least the smallest edge the base learner achieved minus the tolerance.",
 [I, H, C], "all samples, hypothesis sequences and tolerances", "The AdaBoostV test does not compile at this commit.",
 ["src/booster/adaboostv/adaboostv_algorithm.rs"], [("update_params","src/booster/adaboostv/adaboostv_algorithm.rs")],
 "Model-based replay plus the margin guarantee checked on full runs.")
prop("P19", "MadaBoost keeps its weights bounded and follows its update rule",
 "MadaBoost presents, at every round, the distribution proportional to min(1, exp(-label * weighted vote so far)), starting uniform, gives a hypothesis of edge e the weight -ln(beta) with beta = sqrt(q/(1-q)), q = sqrt((1-e)/4), and stops after ceil((n-1)/tolerance^2) rounds, or the forced number, or at a hypothesis of edge at least one (which it returns alone). The result is the normalised weighted vote of all hypotheses received.",
 [I, H, C], "all samples, hypothesis sequences and tolerances", "Existing test only prints losses on toy data.",
 ["src/booster/madaboost/madaboost_algorithm.rs"], [("update_params","src/booster/madaboost/madaboost_algorithm.rs")],
 "Model-based: an independent MadaBoost replays the recorded history.")
prop("P20", "SmoothBoost yields smooth distributions and the promised margin",
 "SmoothBoost presents at every round the distribution proportional to the weights w(N) of the rows, where N is the sum over the hypotheses so far of (label*prediction - theta), theta = gamma/(2+gamma), and w(N) = 1 for N <= 0 and (1-gamma)^(N/2) above; no entry ever exceeds 1/(kappa*n). It stops once the average weight is below kappa or after ceil(2/(kappa*gamma^2*sqrt(1-gamma))) rounds, and the result gives all received hypotheses equal weight. When every hypothesis has edge at least 2*gamma, the fraction of rows with margin at most theta is below kappa.",
 [I, H, C], "all samples, hypothesis sequences and parameters kappa, theta, gamma", "The SmoothBoost test does not compile at this commit.",
 ["src/booster/smoothboost/smoothboost_algorithm.rs"], [("boost/preprocess/postprocess","src/booster/smoothboost/smoothboost_algorithm.rs")],
 "Model-based replay plus the margin guarantee.")
prop("P21", "Graph separation boosting fits every positive/negative pair",
 "Graph separation boosting presents to the base learner, at each round, the distribution proportional to the number of still unseparated positive/negative pairs each row belongs to, and a pair stays unseparated only while every hypothesis so far gives both rows the same prediction. It stops when no pair is left or a hypothesis separates nothing. The result is the naive aggregation of the hypotheses; when no pair is left it classifies every training row correctly.",
 [I, H], "all samples and hypothesis sequences", "One toy run printing losses.",
 ["src/booster/graph_separation_boosting/graph_separation_algorithm.rs","src/hypothesis/naive_aggregation.rs"],
 [("boost","src/booster/graph_separation_boosting/graph_separation_algorithm.rs")],
 "Model-based replay.")
_soft = "all samples, hypothesis pools, capping parameters and tolerances"
prop("P22", "LPBoost reaches the soft-margin optimum within its tolerance",
 "LPBoost presents probability distributions with entries at most 1/nu, starting uniform, each later one minimising the largest edge of the hypotheses received so far. It stops in the first round after which the minimal largest edge is at least the smallest edge received minus the tolerance, and not before, and returns a convex combination of received hypotheses whose soft margin (at nu) is within the tolerance of the best edge its base learner still offered; with a base learner that returns best hypotheses from a pool this is within the tolerance of the optimal soft margin of the pool.",
 [I, H, C], _soft, "The optimum quantifies over all distributions and combinations; the tests print losses on toy data.",
 ["src/booster/lpboost/lpboost_algorithm.rs","src/booster/lpboost/lp_model.rs"], [("boost/update_distribution_mut","src/booster/lpboost")],
 "Certified LP reference (primal and dual points evaluated exactly); solver slack 1e-4 added to the tolerance.")
prop("P23", "ERLPBoost reaches the soft-margin optimum within its tolerance",
 "ERLPBoost presents probability distributions with entries at most 1/nu, starting uniform, each later one minimising (up to solver precision) the largest edge of the hypotheses received so far plus the relative entropy to uniform divided by eta = max(1/2, ln(n/nu)/t) (t half the tolerance). It stops once the smallest such value offered by the base learner is within t of that minimum and not before, always within max(4/t, 8 ln(n/nu)/t^2) rounds, and returns a convex combination of received hypotheses whose soft margin (at nu) is at least the smallest edge received minus the tolerance, and within the tolerance of the optimal soft margin attainable from its base learner's pool when that always offers its best hypothesis.",
 [I, H, C], _soft, "The optimum quantifies over all distributions and combinations; the tests print losses on toy data.",
 ["src/booster/erlpboost/erlpboost_algorithm.rs","src/booster/erlpboost/qp_model.rs"], [("boost/update_distribution_mut","src/booster/erlpboost")],
 "Certified LP reference; solver slack 1e-4 added to the tolerance.")
prop("P24", "SoftBoost reaches the soft-margin optimum within its tolerance",
 "SoftBoost presents probability distributions with entries at most 1/nu, starting uniform; on each later one every hypothesis received so far has an edge of at most the smallest edge received minus the tolerance, and (up to solver precision) it is the closest to uniform of that kind. It stops when no such distribution exists and not before, always within max(1, 2 ln(n/nu)/tolerance^2) rounds (which max_loop() reports, rounded up), and returns a convex combination of received hypotheses whose soft margin (at nu) is at least the smallest edge received minus the tolerance, and within the tolerance of the optimal soft margin attainable from its base learner's pool when that always offers its best hypothesis.",
 [I, H, C], _soft, "The optimum quantifies over all distributions and combinations; the tests print losses on toy data.",
 ["src/booster/softboost/softboost_algorithm.rs","src/booster/softboost/qp_model.rs"], [("boost/update_distribution_mut","src/booster/softboost")],
 "Certified LP reference; solver slack added to the tolerance.")
prop("P25", "TotalBoost reaches the hard-margin optimum within its tolerance",
 "TotalBoost presents probability distributions, starting uniform; on each later one every hypothesis received so far has an edge of at most the smallest edge received minus the tolerance, and (up to solver precision) it is the closest to uniform of that kind. It stops when no such distribution exists and not before, always within 2 ln(n)/tolerance^2 rounds, and returns a convex combination of received hypotheses whose smallest margin is at least the smallest edge received minus the tolerance, and within the tolerance of the optimal margin attainable from its base learner's pool when that always offers its best hypothesis.",
 [I, H, C], "all samples, hypothesis pools and tolerances", NONE,
 ["src/booster/totalboost/totalboost_algorithm.rs","src/booster/softboost/softboost_algorithm.rs"], [("delegation to SoftBoost with nu=1","src/booster/totalboost/totalboost_algorithm.rs")],
 "Certified LP reference; solver slack added to the tolerance.")
prop("P26", "CERLPBoost reaches the soft-margin optimum within its tolerance",
 "CERLPBoost, with every Frank-Wolfe step rule it offers, presents at each round the 1/nu-capped distribution that minimises the expected margin of the current combination plus the relative entropy to uniform divided by eta. The first combination is the first hypothesis; after that the classic rule moves by 2/(round+1) and the short-step rule by its closed form towards the new hypothesis, the line search reaches the best smoothed margin on the segment, and all rules but the classic one never decrease the smoothed margin. It stops within max(4/t, 8 ln(n/nu)/t^2) rounds (t half the tolerance; max_loop() reports this bound, rounded up), and returns a convex combination of received hypotheses whose soft margin (at nu) is at least the smallest edge received minus the tolerance, and within the tolerance of the optimal soft margin attainable from its base learner's pool when that always offers its best hypothesis.",
 [I, H, C], _soft+" and step rules", "The CERLPBoost test does not compile at this commit.",
 ["src/booster/cerlpboost/cerlpboost_algorithm.rs","src/common/frank_wolfe.rs"], [("next_iterate","src/common/frank_wolfe.rs")],
 "Certified LP reference.")
prop("P27", "MLPBoost reaches the soft-margin optimum within its tolerance",
 "MLPBoost, with every Frank-Wolfe step rule it offers, presents at each round the 1/nu-capped distribution that minimises the expected margin of the current combination plus the relative entropy to uniform divided by eta. After every round the smoothed margin of its combination is at least that of the Frank-Wolfe step alone (classic 2/(round+1), short-step by its closed form, line search over the whole segment), and all rules but the classic one never decrease it. It stops within max(4/t, 8 ln(n/nu)/t^2) rounds (t half the tolerance; max_loop() reports this bound, rounded up), and returns a convex combination of received hypotheses whose soft margin (at nu) is at least the smallest edge received minus the tolerance, and within the tolerance of the optimal soft margin attainable from its base learner's pool when that always offers its best hypothesis.",
 [I, H, C], _soft+" and step rules", "The optimum quantifies over all distributions and combinations; the tests print losses on toy data.",
 ["src/booster/mlpboost/mlpboost_algorithm.rs","src/booster/mlpboost/lp_model.rs","src/booster/mlpboost/perturbed_lp_model.rs","src/common/frank_wolfe.rs"], [("boost/secondary update","src/booster/mlpboost")],
 "Certified LP reference.")
prop("P28", "Gradient boosting does not increase training loss and returns its own model",
 "Gradient boosting hands the base learner, at every round, the predictions of its current additive model, starting at zero; adds the received regressor with the coefficient that its loss chooses for the current residuals, and never increases the training loss. It stops after 100 rounds or at a zero coefficient, and the returned regressor is exactly the additive model it built, with every member and its coefficient.",
 [I, H, C], "all samples, regressors and losses", "One toy run that prints the loss.",
 ["src/booster/gradient_boost/gbm.rs","src/common/loss_functions.rs"], [("boost/postprocess","src/booster/gradient_boost/gbm.rs")],
 "Model-based replay of the recorded history.")
prop("P29", "Loss functions: values, gradients and best coefficients are consistent",
 "For every prediction and target vector the L1 and L2 losses equal the mean absolute and squared errors, their gradients point in the direction of increasing loss, their hessians are the derivatives of the gradients, and the best coefficient minimises the loss of a scaled prediction.",
 [I], "all prediction and target vectors", NONE, ["src/common/loss_functions.rs"], [("GBMLoss","src/common/loss_functions.rs")],
 "Differential and metamorphic (finite differences, grid search).")
prop("P30", "Boosters are deterministic and can be run again from scratch",
 "Two booster instances with the same configuration, sample and base-learner answers go through identical distributions and return identical results, and up to rounding this does not depend on the number of worker threads; running the same instance again, after a completed, a differently answered or an abandoned run, starts afresh and gives the same result as a fresh instance.",
 [I, H, C, S], "all boosters, samples, configurations, thread-pool sizes and repetitions", NONE,
 ["src/booster"], [("preprocess resets the state","src/booster")],
 "Metamorphic: equality of recorded histories.")

prop("P31", "Invalid samples and parameters are refused before training",
 "Every binary-classification booster refuses (panics) to start on a sample whose labels are not exactly two distinct integers, without ever asking its base learner, and starts on every sample with labels +1 and -1. LPBoost, ERLPBoost, CERLPBoost, SoftBoost and MLPBoost refuse a capping parameter nu outside [1, n] (NaN included) and accept every one inside; SmoothBoost refuses kappa outside (0, 1) and gamma outside [0, 0.5); cross validation refuses training ratios outside (0, 1); tree builders refuse depth 0 and bin counts for columns that do not exist. Values inside the documented ranges are accepted.",
 [I, C], "all samples, boosters and parameter values", NONE,
 ["src/common/checker.rs","src/sample/sample_struct.rs","src/booster","src/research/cross_validation.rs","src/weak_learner/decision_tree/builder.rs","src/weak_learner/regression_tree/builder.rs"],
 [("check_nu/is_valid_binary_instance","src/common/checker.rs"),("preprocess of each booster","src/booster")],
 "Exact decision compared with the documented ranges, including their ends and NaN.")
prop("P32", "Boosting the library's own base learners works end to end",
 "Every booster, combined with decision trees (any criterion, depth and bin counts) or Gaussian naive Bayes on dense and sparse samples with two labels, runs without panicking, hands its base learner probability vectors (no negative entry, sum one, entries at most 1/nu where capped), and returns a combination of hypotheses the base learner gave, with positive normalised weights, whose confidence on every row (of the training sample or of another sample with the same columns in any order) is the weighted vote of the members. The boosters' guarantees hold for these base learners too: AdaBoost's training error is at most the product of sqrt(1-e^2) over the edges e, AdaBoostV's and TotalBoost's smallest margin and the soft-margin boosters' soft margin are at least the smallest edge received minus the tolerance, and graph separation predicts positive exactly the vote patterns of positive rows.",
 [I, H, C], "all samples, boosters, base learners and parameters", "The tests run a few fixed pairs on one toy file and print losses.",
 ["src/booster","src/weak_learner","src/hypothesis"],
 [("preprocess/boost/postprocess","src/booster"),("produce","src/weak_learner")],
 "A spy between booster and base learner records the history; guarantees are recomputed from it.")

prop("P33", "The configuration decides the run, in whatever order it is given, and is reported truthfully",
 "A booster or base learner configured through its setters behaves by the last value given for each parameter: the order of the calls and values overwritten later change neither the run (distributions presented, hypothesis returned) nor what it reports about itself. The reports are true: after preprocessing, info() lists the number of rows and columns of the sample, the tolerance, the capping parameter and its share of the sample in percent, the step rule, the forced number of rounds, and a maximum number of iterations that equals max_loop() where there is one and is never exceeded; terminated() is the number of rounds of the finished run. Tree learners report and print their depth, criterion, regularisation and columns, networks their batch size, iterations, epochs and layers.",
 [I, H, C], "all samples, parameter values and orders of setter calls", "The tests configure each booster once, in one order, and never read a report.",
 ["src/booster","src/weak_learner","src/common/frank_wolfe.rs"],
 [("setters, info, max_loop, terminated","src/booster"),("builders and info","src/weak_learner")],
 "Metamorphic: two equally configured instances, set up by different call sequences, are run side by side; reports are compared with the configuration and the recorded history.")

prop("P34", "Parameters that are not set have their defaults",
 "A booster or tool whose parameters are left out runs and reports exactly as one given the defaults: capping parameter nu = 1 (hard margin); the short-step rule for CERLPBoost and MLPBoost; tolerance 1/(n+1) for AdaBoost and MadaBoost, 1/n for AdaBoostV, SoftBoost and TotalBoost, 0.01 for ERLPBoost, CERLPBoost and MLPBoost; kappa = 1/2 for SmoothBoost; depth 2 and entropy for decision trees; depth 2 and lambda 0.01 for regression trees; ratio 0.8, 5 folds, seed 1234 and no shuffling for cross-validation; no header for the sample reader. A network's default minibatch is not larger than the sample.",
 [I, C], "all samples and subsets of parameters given", "The tests set most parameters and never compare with the defaults.",
 ["src/booster","src/weak_learner","src/research/cross_validation.rs","src/sample/sample_reader.rs"],
 [("init/new of every booster and builder","src/booster, src/weak_learner")],
 "Metamorphic: an instance with parameters left out and one with the defaults given are run side by side and compared exactly.")

def emit(claimed, na):
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            **({"observe_at": p["observe"]} if p["observe"] else {})},
            }, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if p["id"] in claimed:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough",
                "technique": "property-based testing (proptest, seeded, shrinking) against an executable oracle",
                "level": "exploration",
                "level_note": p["note"],
            })
    man = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
           "notes": "No hooks: every check uses the public API of the crate. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")

CLAIMED = [p["id"] for p in P]
NA = {p["id"]: "check under construction" for p in P if p["id"] not in CLAIMED}
if __name__ == "__main__":
    emit(CLAIMED, NA)
