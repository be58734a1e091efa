#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                  files=["featselect/" + f if not "/" in f and f != "main.go" else f for f in files],
                  mech=mech, technique=technique, note=note, state=state or [], observe=observe or []))

prop("C01", "Linear fits are least-squares optimal",
 "For every design matrix (tall, wide, rank deficient, scaled) and target, Fit returns finite coefficients whose residual sum of squares no other coefficient vector can beat, and the one of minimum norm when several are equally good; singular directions below the documented 1e-6 cut are treated as zero. Predict, PredictOne and Rss agree with the plain definition sum_i (y_i - sum_j x_ij b_j)^2. Design matrices extracted for a model hold exactly the selected columns in order.",
 "inputs", "all full-rank and rank-deficient real matrices away from the 1e-6 singular-value cut, all targets, all models",
 "Fixed 3-100 row examples with full rank; wide, deficient, scaled and duplicated designs are never fitted.",
 ["fit.go", "util.go"], [("SVD solve", "featselect/fit.go Fit"), ("column extraction", "featselect/util.go GetDesignMatrix")],
 "property-based testing against an independent Jacobi SVD least-squares model (rapid)",
 "Differential and first-order optimality check over generated data; tolerances 1e-7 relative.")
prop("C02", "Information criteria follow their formulas",
 "Aic, Aicc and Bic equal n log(RSS) + 2k, its small-sample correction (2k^2+2k)/(n-k-1) (denominator 1 when k >= n-1), and n log(RSS) + k log n, for every number of features k, data points n and RSS. The criteria reported along a stored path are those of the path's own models, evaluated on the path's own dataset with the path's coefficients.",
 "inputs", "all k >= 0, n >= 1, RSS > 0; all stored paths",
 "Tests use a few fixed k, n and RSS values; the singular end k >= n-1 and paths with several models are sampled once or never.",
 ["criteria.go", "lassoPlot.go"], [("criteria", "featselect/criteria.go Aic, Aicc, Bic"), ("path criteria", "featselect/lassoPlot.go GetCriteria")],
 "property-based testing against the closed formulas (rapid)", "Differential check of formulas over generated arguments and paths.")
prop("C03", "Branch bounds enclose every model of the branch",
 "For any dataset, any model and any branching level, the AIC and AICc lower bounds never exceed, and the upper bounds never fall below, the criterion (with RSS floored at 1e-12) of any non-empty model that shares the decided features. A branch consisting of one model has bounds equal to its criterion value when it has fewer features than data points. The bounds of each half of a branch lie within the bounds of the branch.",
 "inputs", "all datasets with up to 7 features (up to 12 in fewer cases; any number of rows), all models, all levels; every model of the branch is enumerated",
 "One fixed dataset and level is tested; an inadmissible bound silently discards the optimum only for particular data.",
 ["criteria.go", "optimize.go"], [("bounds", "featselect/criteria.go bounds"), ("Gcs/Lcs", "featselect/optimize.go Gcs, Lcs")],
 "property-based testing: enumeration of each branch against an independent fit (rapid)",
 "Every model of each generated branch is fitted independently; slack 1e-8 relative.")
prop("C04", "Branch and bound finds the optimal model",
 "SelectModel terminates and its best entry is a model whose AICc (RSS floored at 1e-12) equals the minimum over all models with at least one feature and fewer features than data points, for every dataset with three or more features, every root model (including none), every list capacity and every goroutine schedule. With a cutoff c >= 0 the best entry is within c of that minimum. The best score returned does not depend on the schedule.",
 "inputs configurations schedules", "datasets with 3-15 features and 2-60 rows, any root model, cutoff >= 0, capacity >= 1, unlimited queue, varied processor counts and yields",
 "Four fixed datasets with the default root are tested under whatever schedule the runner produces.",
 ["optimize.go", "criteria.go", "highscore.go", "node.go"],
 [("pruning", "featselect/optimize.go CreateChild, CleanQueue"), ("search loop", "featselect/optimize.go SelectModel")],
 "property-based testing against exhaustive enumeration with perturbed schedules (rapid)",
 "Complete enumeration of all models per case; schedules are sampled through GOMAXPROCS and yields, not enumerated.",
 state=[dict(name="queue", meaning="nodes whose branch is still to be explored", where="featselect/optimize.go SelectModel")],
 observe=["Highscore.BestScore", "first entry of Highscore.Items"])
prop("C05", "Branch and bound reports only truthful results",
 "Every model SelectModel puts in the highscore list has at least one and fewer features than data points, appears once, carries its own AICc (negated, RSS floored at 1e-12) and its own least-squares coefficients, and the list is sorted best first within its capacity - also when the queue limit is hit. When the search returns, the progress object reports the list's best score and the number of scored models (at least the number listed, exactly that number when the list never filled up, never more than 2^p - 1), and it never reports more than 2^p pruned models. The caller's data and parameters are left unchanged, and can be changed afterwards without affecting the list.",
 "inputs configurations schedules", "datasets with 3-14 features, any root model, list capacity and queue limit >= 1",
 "Tests look only at the best entry of a few fixed datasets and never at coefficients, progress or small queues.",
 ["optimize.go", "highscore.go", "searchProgress.go"],
 [("scoring", "featselect/optimize.go ScoreWorker"), ("queue limit", "featselect/optimize.go RemoveLeastPromising"), ("progress", "featselect/searchProgress.go")],
 "property-based testing: every reported model is recomputed by an independent fit (rapid)",
 "All listed entries are recomputed; schedules sampled.",
 observe=["Highscore.Items", "SearchProgress.Get"])
prop("C06", "Exhaustive search ranks every model",
 "BruteForceSelect lists each of the 2^p - 1 non-empty models exactly once, each with its own negated AICc and least-squares coefficients, in descending order of score, for any dataset (the score of a model that fits exactly is rounding noise and only has to be in order). For noisy datasets with more rows than features its best score equals that of branch and bound.",
 "inputs", "datasets with 1-14 features, of any shape",
 "Tests compare only the best entry on fixed data.",
 ["optimize.go", "highscore.go", "node.go"], [("enumeration", "featselect/optimize.go BruteForceSelect"), ("children", "featselect/node.go GetChildNode")],
 "property-based testing against independent enumeration (rapid)", "Complete per case.")
prop("C07", "The highscore list keeps the best entries in order",
 "After any sequence of insertions the list holds exactly the best max(MaxItems-1, 1) nodes inserted, by score, in descending order and with equal scores in order of insertion (a node that ties with the last entry of a full list is not taken). BestScore, Scores and Len describe that list (0 for an empty one), Equal is true exactly for lists with the same capacity and equal nodes in the same order, and JSON encoding followed by decoding - into a fresh, zero or already filled list - reproduces it.",
 "histories inputs", "all sequences of insertions with arbitrary (also equal) scores and all capacities >= 1, interleaved with encoding and decoding",
 "Tests insert a handful of fixed scores; ties, capacity edges and decoding into used lists are not reached.",
 ["highscore.go"], [("insertion", "featselect/highscore.go Insert"), ("JSON", "featselect/highscore.go MarshalJSON, UnmarshalJSON")],
 "stateful model-based testing against a sorted-list model (rapid)", "Reference model compared after every operation.")
prop("C08", "Nodes branch exactly and survive JSON",
 "The two children of a node share its decisions below its level, differ from each other only in the feature at its level, go one level deeper and never alter the parent, so that expanding from any root reaches every model exactly once as a new model. Gcs and Lcs are the largest and smallest model that agree on the decided features. A node encoded to JSON and decoded is equal to the original (feature flags, coefficients, scores, bounds and level), NodesEqual detects any single difference in those beyond 1e-10, EstimateMemory is 1 byte per feature plus 8 per coefficient plus 29, and the sparse form lists the selected features with their coefficients.",
 "inputs histories", "all models, levels, flips, coefficients and finite scores",
 "Tests check two or three fixed models.",
 ["node.go", "optimize.go"], [("children", "featselect/node.go GetChildNode"), ("JSON", "featselect/node.go MarshalJSON, UnmarshalJSON"), ("Gcs/Lcs", "featselect/optimize.go")],
 "property-based testing: tree enumeration, round trips and mutation of equal nodes (rapid)", "Trees up to 2^10 leaves enumerated completely per case.")
prop("C09", "Simulated annealing returns consistent, good models",
 "For any dataset with at least four rows, SelectModelSA terminates and returns a non-empty selection of fewer than rows/2 features (sorted indices) together with that selection's least-squares coefficients. Every entry of its score list is a distinct such selection with its own least-squares coefficients and score equal to minus the cost passed by the caller (RSS floored at 1e-12), and the best item is at least as good as the returned model. On problems with few models and plenty of sweeps it lists the optimum of all admissible models, and with many sweeps the ten best of them.",
 "inputs configurations", "datasets with 4-24 rows and 1-10 features, the three criteria or any other cost, any number of sweeps >= 1, any random stream",
 "One dataset and one cost are run; consistency of the returned coefficients and list is not examined.",
 ["simmulatedAnnealing.go", "saScore.go"], [("annealing", "featselect/simmulatedAnnealing.go SelectModelSA"), ("score list", "featselect/saScore.go")],
 "property-based testing against an independent fit and exhaustive enumeration (rapid)",
 "Random streams are sampled from seeded generators. Optimality is only asserted where the probability of missing it is negligible.")
prop("C10", "The annealing score list keeps the best distinct selections",
 "After any sequence of insertions of items with finite scores, the list holds at most Cap items with distinct selections; while it is not full it holds every distinct selection offered with the score and coefficients of its first insertion. Once full, an item with a new selection enters exactly when it beats the worst item, which it replaces completely (selection, coefficients and score). BestItem and WorstItem always describe an item with the highest and lowest score of the list.",
 "histories", "all insertion sequences, capacities >= 1",
 "Tests insert a few fixed items with default coefficients.",
 ["saScore.go"], [("insert", "featselect/saScore.go Insert"), ("duplicates", "featselect/saScore.go Exists")],
 "stateful model-based testing against a list model (rapid)", "Model compared after every operation.",
 state=[dict(name="BestItem/WorstItem", meaning="extremes of the list", where="featselect/saScore.go SAScore")])
prop("C11", "Normalisation is exact and is undone correctly",
 "NewNormalizedData gives every non-constant column and the target zero mean and unit sample standard deviation, marks a dataset as having a bias exactly when its first column is constant, and panics on any other constant column. Transforming coefficients of the normalised problem back gives, on datasets whose first column is all ones, a model on the original data (bias first, then the selected features) whose predictions equal the de-normalised predictions of the original coefficients, for every coefficient vector and every node of a path. NormalizeArray, NormalizeRows and NormalizeCols likewise give zero mean and unit deviation, and Mean and Std are the sample mean and the n-1 standard deviation.",
 "inputs", "all datasets with at least two rows and columns of any scale (constant first column or not), all coefficient vectors",
 "One small matrix is normalised; back-transformation is only exercised on one path.",
 ["normalized_dataset.go", "lasso_lars.go", "util.go"], [("normalisation", "featselect/normalized_dataset.go NewNormalizedData"), ("back-transform", "featselect/normalized_dataset.go LinearTransformationBias; featselect/lasso_lars.go Path2Unnormalized")],
 "property-based testing: algebraic identities and metamorphic relations (rapid)", "Predictions compared before and after the transformation.")
prop("C12", "The LARS path solves the LASSO exactly",
 "For data in general position LassoLars starts at lambda = max |x_j'y|, its lambdas decrease strictly down to lambMin at the latest, and at every node - and at every lambda between two nodes, by linear interpolation - the coefficients satisfy the optimality (KKT) conditions of min 1/2 |y - Xb|^2 + lambda |b|_1. The path is complete: it has a node wherever a feature enters or leaves above lambMin, and lowering lambMin only extends it. Selections are ascending and without duplicates, and the caller's normalised data is not changed.",
 "inputs", "continuous (general position) data of any shape, lambMin from 1e-10 to the largest lambda",
 "Two fixed datasets are run, compared with stored numbers at a few nodes.",
 ["lasso_lars.go", "lasso_cd.go", "subview.go"], [("path following", "featselect/lasso_lars.go LassoLars, tJoin, tCross"), ("knots", "featselect/lasso_cd.go MorsePenroseCD")],
 "property-based testing against KKT optimality conditions and an independent homotopy solver (rapid)", "KKT residuals are checked at nodes and interpolated points (tolerance 1e-6 per row) and the knots are compared with an independent homotopy solver; near ties and near-collinear active sets are outside the domain.")
prop("C13", "Coordinate descent solves the penalised problem",
 "When it converges, LassoCrdDesc returns coefficients that satisfy the optimality conditions of the lasso min 1/2n |y - Xb|^2 + lambda |b|_1 (plus mu/2 |b|^2 with the elastic-net correction, mu < 0.9) for the chosen covariance estimate, for every lambda > 0, start vector and tolerance; the bias column, if any, keeps a zero coefficient. With the identity covariance the solution is the soft-thresholded correlation. The start vector is not modified and does not change the solution, and it equals the LARS solution at n times lambda.",
 "inputs", "normalised datasets of 6-30 rows and 1-8 features with or without bias column, lambda in (0, 1.2], arbitrary start vectors",
 "Tests use orthogonal or fixed data and one start vector.",
 ["lassoCrdDesc.go", "lassoCorrections.go", "covarianceMatrix.go"], [("sweep", "featselect/lassoCrdDesc.go LassoCrdDesc"), ("re-entry", "featselect/lassoCrdDesc.go UnsatisfiedKKTConditions")],
 "property-based testing against KKT conditions, closed forms and the LARS path (rapid)", "KKT tolerance scales with the requested tolerance; cases that do not converge within the iteration limit are outside the domain.")
prop("C14", "Coordinate-descent paths solve every lambda in order",
 "LassoCrdDescPath returns, for any ascending list of lambdas, one node per lambda in descending order - leaving out the leading nodes without features unless all are empty - each with ascending selections of non-zero coefficients that solve the problem for its own lambda (same as a single solve). The result does not depend on the schedule of the workers.",
 "inputs schedules", "normalised datasets, 1-150 ascending lambdas (equal ones included), lasso and elastic net corrections",
 "One dataset with a fixed list of lambdas is run; the assignment of results to lambdas under concurrency is not examined.",
 ["lassoCrdDesc.go"], [("dispatch", "featselect/lassoCrdDesc.go LassoCrdDescPath"), ("workers", "featselect/lassoCrdDesc.go PerformLassoCrd")],
 "property-based testing against individual solves and KKT conditions (rapid)", "Schedules are sampled.")
prop("C15", "Nested lasso repeats LARS on the surviving features",
 "NestedLasso returns one path per round: the first is the LARS path of the whole dataset, and each further round is the LARS path of the dataset restricted to the features that entered the previous path first (at least the fraction keep of the current number, following the order of entrance), until the number to keep is at most two. All selections refer to columns of the original dataset wherever the target column is, coefficients are in original units with the bias first, and AICc and BIC are those of the normalised models of that round. The caller's dataset is not changed.",
 "inputs", "datasets with 5-120 rows and 2-25 columns (mostly with a bias column first; also fewer rows than columns) in general position, target at any position, keep in (0,1)",
 "One dataset with the target in the last column is run.",
 ["nestedLasso.go", "csvIO.go", "lassoPlot.go"], [("rounds", "featselect/nestedLasso.go NestedLasso"), ("name mapping", "featselect/nestedLasso.go MapSelectionByName")],
 "property-based testing against an independent composition of single runs (rapid)", "The reference re-composes the rounds from separately checked LARS runs.")
prop("C16", "Orthogonal matching pursuit is greedy and orthogonal",
 "Omp selects in each step the column with the largest correlation with the current residual, never the same one twice in its order, and its coefficients are the least-squares fit of the target on exactly the selected columns (zero elsewhere), so that the residual is orthogonal to them. It stops at the first step whose root-mean-square residual is below the tolerance, and otherwise goes on until all columns are used or none of the remaining ones correlates with the residual (a column of zeros correlates with nothing).",
 "inputs", "all datasets (any shape; zero, duplicate and dependent columns included), tolerances >= 0",
 "Fixed examples check the recovered support.",
 ["orthogonalMatchingPursuit.go"], [("greedy step", "featselect/orthogonalMatchingPursuit.go Omp")],
 "property-based testing against a step-by-step reference (rapid)", "Steps with near-tied correlations follow the code's choice and are checked for near-maximality.")
prop("C17", "CSV files are read faithfully",
 "ParseCSV maps every cell of a rectangular CSV file with a header: the target column (negative indices count from the end) becomes Y, the remaining columns become X in order, names are the header, numbers in any standard notation and with surrounding blanks have their exact value, and text that is not a number is 0. Quoted cells, blank lines and CRLF endings do not change the content. ReadCSV of a file gives the same as parsing its content and nil for a file that does not exist.",
 "inputs", "all rectangular CSV texts with at least two columns and one data row, any target column",
 "Tests parse three fixed small texts.",
 ["csvIO.go"], [("parser", "featselect/csvIO.go ParseCSV")],
 "property-based testing: generated tables rendered in many notations, round trip (rapid)", "Domain: rectangular files; malformed CSV panics and is outside.")
prop("C18", "Datasets keep features, names and values together",
 "Saving a dataset as CSV and reading it back gives the same names, target column and values to the printed precision (six decimals), and JSON encoding and decoding gives an equal dataset, wherever the target column is. Feature names, lookup by name, subsets and copies always pair each column of X with its own name, the target with its own, and share no data with the original. IsEqual is true exactly if dimensions, target column, names and values (to 1e-10) agree.",
 "inputs histories", "all datasets with distinct names, any target column, all feature subsets in any order",
 "Tests use one or two datasets with the target last.",
 ["csvIO.go"], [("save", "featselect/csvIO.go SaveHandle"), ("subset", "featselect/csvIO.go GetSubset, GetFeatName, FeatNoByName"), ("JSON", "featselect/csvIO.go MarshalJSON, UnmarshalJSON")],
 "property-based testing: round trips and mutation of equal datasets (rapid)", "Round trips and single-difference mutations.")
prop("C19", "Cohen's kappa is computed and searched correctly",
 "CohenKappa equals (p_observed - p_chance)/(1 - p_chance) of the two feature sets, is symmetric, at most 1, and exactly 1 for equal sets (also both empty or both full). GetCohensKappa averages it over the requested number of random splits in which the two halves are disjoint and together contain all rows. CalculateCohenSequence evaluates every target once, returns the hyperparameters of a target with the highest kappa whatever their sign, and the lasso targets select what the lasso selects on the given rows and report their own hyperparameters.",
 "inputs schedules", "all pairs of feature subsets, all numbers of targets and samples >= 1",
 "Tests use three fixed pairs and mocks with one good target.",
 ["cohens_kappa.go", "util.go", "lassoCrdDesc.go"], [("kappa", "featselect/util.go CohenKappa"), ("splits", "featselect/cohens_kappa.go GetCohensKappa"), ("sequence", "featselect/cohens_kappa.go CalculateCohenSequence")],
 "property-based testing against the definition with recording targets (rapid)", "Recording mock targets observe every call.")
prop("C20", "Covariance estimates and thresholding are exact",
 "CovarianceMatrix and Empirical give the centred and the raw second moment matrix divided by n, Identity the identity. Applying a threshold operator zeroes exactly the entries smaller in magnitude than its threshold, and RandomRowSplit partitions the rows into two matrices of the requested sizes keeping rows intact. L2ConsistentCovTO returns a threshold on its grid exp(-10 + i*step) whose expected deviation between the thresholded covariance of one part and that of the other is as small as that of any other grid point up to the sampling noise of the requested number of random partitions, and SparseThresholded is the empirical covariance with that threshold applied.",
 "inputs", "all data matrices with at least four rows; statistical assertion with margins far above the sampling error",
 "Tests check two fixed matrices and only that some threshold is returned.",
 ["thresholdCov.go", "covarianceMatrix.go"], [("threshold search", "featselect/thresholdCov.go L2ConsistentCovTO"), ("operator", "featselect/thresholdCov.go Apply"), ("split", "featselect/thresholdCov.go RandomRowSplit")],
 "property-based testing against definitions, with a statistical oracle for the threshold (rapid)", "The threshold oracle allows a margin for sampling noise.")
prop("C21", "Polynomial expansion lists every monomial once",
 "IterProduct gives all len(values)^repeat tuples in lexicographic order, each row independent of the others. A lazy power matrix consists of the original columns followed by every product of powers of the given columns with total degree from two up to the maximum, each exactly once, and each extra column equals the product of the powers of the original columns; the materialised matrix agrees column by column.",
 "inputs", "all value lists, repeats, matrices and maximum powers with feasible size",
 "Tests use two columns and small powers.",
 ["lazyPowerMat.go", "util.go"], [("product", "featselect/util.go IterProduct"), ("columns", "featselect/lazyPowerMat.go AddPowerSequence, GetCol")],
 "property-based testing against independent enumeration (rapid)", "Monomials identified by evaluation at generic points.")
prop("C22", "Model averaging uses normalised relative weights",
 "WeightsFromAIC gives non-negative weights proportional to exp(-AIC) that sum to one, are unaffected by adding a constant to all values, do not overflow for any finite values and leave the input unchanged. WeightedAveragedCoeff is the weighted sum of the coefficient vectors, features not selected counting as zero, and FullCoeffVector places every coefficient at its feature.",
 "inputs", "all lists of finite AIC values, all sparse coefficient sets",
 "Tests use one fixed example each.",
 ["util.go"], [("weights", "featselect/util.go WeightsFromAIC"), ("average", "featselect/util.go WeightedAveragedCoeff")],
 "property-based testing against the definitions (rapid)", "Differential check.")
prop("C23", "Feature-set representations convert exactly",
 "A Model of any size behaves as an array of booleans under every sequence of Set, Flip and Get, and ToBools returns it. Conversions between feature lists, boolean models, annealing items, sparse coefficients and full coefficient vectors are mutually inverse, and counting features agrees with all of them.",
 "histories inputs", "all sizes (also multiples of 8) and operation sequences; all selections",
 "Tests set three bits in a small model.",
 ["model.go", "util.go", "saScore.go", "node.go", "orthogonalMatchingPursuit.go", "optimize.go"], [("bit array", "featselect/model.go"), ("conversions", "featselect/util.go Selected2Model; featselect/orthogonalMatchingPursuit.go SelectedFeatures")],
 "stateful model-based testing against a boolean array (rapid)", "Model compared after every operation.")
prop("C24", "Array, view and column-order utilities match definitions",
 "Argsort is a permutation that sorts its argument ascending, Argmin and Argmax give the position of the first smallest and first largest element, and the minimum, maximum, sum, membership, union (first list followed by the new elements), equality and logspace helpers follow their definitions for every input. Column and vector views and slice vectors equal the matrix of the selected columns or entries in the given order, including transposes. RearrangeDense puts the listed columns first in the listed order and the remaining ones after them in their original order.",
 "inputs", "all slices, matrices, index lists and column orders (unused tail marked -1)",
 "Tests use one fixed input each.",
 ["util.go", "subview.go", "sliceVec.go", "orthogonalMatchingPursuit.go"], [("helpers", "featselect/util.go"), ("views", "featselect/subview.go, featselect/sliceVec.go")],
 "property-based testing against definitions (rapid)", "Differential check.")
prop("C25", "Pseudo-inverses and leave-one-out errors are exact",
 "PseudoInverse, PseudoInverseXTX and the knot parameters C and D of the LARS estimator equal the Moore-Penrose results for any matrix, of any shape and rank, with singular values below the tolerance treated as zero. The generalised cross-validation score computed from the leverage matrix of a design and its fitted values equals the root-mean-square of the true leave-one-out prediction errors.",
 "inputs", "matrices of any shape and rank whose singular values are clear of the tolerance; leave-one-out for full-rank designs",
 "Tests use full-rank examples and one fixed GCV case.",
 ["util.go", "lasso_cd.go", "fit.go"], [("pseudo-inverse", "featselect/util.go PseudoInverse, PseudoInverseXTX"), ("C and D", "featselect/lasso_cd.go MorsePenroseCD"), ("GCV", "featselect/fit.go DenumMatrixGcv, Gcv")],
 "property-based testing against an independent SVD and explicit leave-one-out refits (rapid)", "Differential check.")
prop("C26", "Path analysis reports the path's own features",
 "For any stored path, the extracted course of a feature is its coefficient at every node (zero where it is not selected) against log10 lambda, the smallest and largest feature numbers are those selected anywhere, and the most relevant features are those of the leading nodes in order of entrance, stopping at the first node where the requested number is reached. Plots show the whole range of the coefficients of all features and of the lambdas, honour a requested coefficient range, and a path saved as JSON is read back equal. The printed summary lists the requested number of best models by criterion.",
 "inputs", "all paths with positive lambdas and non-empty selections",
 "Tests only check that plots can be made for one path.",
 ["lassoPlot.go", "util.go"], [("extraction", "featselect/lassoPlot.go ExtractPath, PlotPath"), ("relevance", "featselect/lassoPlot.go PickMostRelevantFeatures")],
 "property-based testing against definitions and plot axis ranges (rapid)", "Plots are inspected through their axis ranges and by rendering to a canvas.")
prop("C27", "Search commands report the optimum of the CSV data",
 "For any valid CSV file and target column, 'goselect bnb' writes a JSON highscore list whose first entry is the AICc-optimal model of that file and whose entries carry their own scores and least-squares coefficients, whatever the cutoff of zero and queue limit above the number of models. 'goselect sasearch' writes a JSON score list whose items are distinct selections with their own scores and coefficients. The queue of bnb is cut exactly when it grows beyond the size given.",
 "inputs configurations", "noisy CSV files with 3-10 features and 4-150 rows (also fewer rows than features), any target position (negative too)",
 "No test runs the commands.",
 ["cmd/bnb.go", "cmd/sasearch.go", "cmd/root.go", "main.go"], [("bnb", "cmd/bnb.go findOptimalSolution"), ("sasearch", "cmd/sasearch.go saSearch")],
 "property-based testing of the built program on generated files against enumeration (rapid)", "The built binary runs in a scratch directory.")
prop("C28", "The lasso command writes exact paths and criteria",
 "For any valid CSV file 'goselect lasso' writes a JSON path whose dataset is that of the file, whose nodes are the LARS or coordinate-descent solutions of the normalised data converted to original units (with the bias first where the first feature is constant), and whose AICc and BIC are those of the written coefficients on the written dataset. The lambda range, number, covariance type and target options take effect as documented. The printed table lists the (at most twenty) models of lowest AICc.",
 "inputs configurations", "CSV files with 2-16 features in general position, with and without a constant first one, any target position, both algorithms, every covariance estimate and number of lambdas",
 "No test runs the command.",
 ["cmd/lasso.go", "lasso_lars.go", "lassoCrdDesc.go", "csvIO.go"], [("lasso", "cmd/lasso.go lassoFit")],
 "property-based testing of the built program on generated files against KKT conditions (rapid)", "The built binary runs in a scratch directory.")
prop("C29", "Library calls leave the caller's data unchanged",
 "No fitting, scoring, search, path, averaging, covariance, comparison or encoding function of the library modifies the matrices, slices, datasets, start vectors or parameters passed to it; only the functions documented to work in place (data normalisation, Abs, UnionInt, threshold Apply, path back-transformation) do. Repeating a deterministic call with the same arguments gives the same result, and results of earlier calls do not change when later calls are made.",
 "inputs histories", "all sequences of library calls on shared data",
 "Tests use fresh data for each call and do not look at inputs afterwards.",
 ["fit.go", "optimize.go", "lassoCrdDesc.go", "lasso_lars.go", "util.go", "csvIO.go", "nestedLasso.go"], [("copies", "featselect/lassoCrdDesc.go LassoCrdDesc; featselect/nestedLasso.go NestedLasso; featselect/util.go WeightsFromAIC")],
 "stateful property-based testing: random call sequences over shared data with before/after snapshots (rapid)", "Call sequences over a pool of shared objects.")
prop("C30", "Concurrent use is race-free and leaves nothing behind",
 "While a branch-and-bound search runs, other goroutines may read its progress and its highscore list (length, best score, scores, JSON, comparison with another list) without data races, and every observation is consistent: sorted lists within capacity, best score and number explored never decreasing. Independent searches, paths, kappa sequences, threshold searches and calls of the other functions can run at the same time with the same results as alone. When any of the concurrent functions returns, all goroutines it started end.",
 "schedules histories", "generated problems with concurrent observers and concurrent calls, under the race detector",
 "Tests run single calls, not under the race detector, and never count goroutines.",
 ["optimize.go", "highscore.go", "searchProgress.go", "lassoCrdDesc.go", "cohens_kappa.go", "thresholdCov.go"],
 [("locks", "featselect/highscore.go rwlock; featselect/searchProgress.go rwlock"), ("shutdown", "featselect/optimize.go SelectModel; featselect/lassoCrdDesc.go LassoCrdDescPath")],
 "property-based stress testing under the race detector with monitored histories (rapid)", "Schedules are sampled, not enumerated; goroutine ends are awaited with a generous limit.")
prop("C31", "Auxiliary commands compute what they document",
 "The nested-lasso command writes the nested paths of the given file, the memory command prints the number of nodes that fit in the given memory, the kappa command evaluates every lambda of the requested range, and the plot command writes its four figures for any stored path, using the coefficient range only when one is given. All options on the command line take effect.",
 "inputs configurations", "generated CSV files, paths and options",
 "No test runs the commands.",
 ["cmdDepreciated/goselect-nestedlasso/main.go", "cmdDepreciated/goselect-mem/main.go", "cmdDepreciated/goselect-cohenlasso/main.go", "cmdDepreciated/goselect-plotlasso/main.go"],
 [("commands", "cmdDepreciated/*/main.go")],
 "property-based testing of the built programs on generated files (rapid)", "The built binaries run in a scratch directory.")

prop("C32", "Inconsistent input is rejected, not used",
 "Every library call given input that does not fit together - vectors whose length differs from the matrix or the coefficients, empty or too long models, features or columns out of range, constant feature columns, unknown feature names, a cut-off or wrongly typed JSON document (or one whose values do not fit together), ragged or badly quoted CSV, a target column out of range, a CSV without data rows, a missing file, an annealing search without sweeps or over costs that are not finite, a nested LASSO that would keep all features - panics or returns an error instead of a result, and leaves its arguments and the object it was called on as they were; the same call with consistent input is accepted. A command given an unusable file, target (also one that is not finite) or option (also an unknown algorithm) ends and exits with failure (the lasso command without a file or with an unknown covariance prints a message), and neither creates nor changes its result file or its input; so does a command that can not store its result.",
 "inputs configurations", "all inconsistent inputs of 43 kinds of library calls and 12 kinds of unusable command input",
 "Tests cover a handful of error returns; accepting misfitting lengths silently produces wrong results for some callers only.",
 ["fit.go", "util.go", "csvIO.go", "node.go", "highscore.go", "lassoCrdDesc.go", "lassoPlot.go", "optimize.go", "normalized_dataset.go", "covarianceMatrix.go", "cmd/bnb.go", "cmd/lasso.go", "cmd/sasearch.go", "cmdDepreciated/goselect-nestedlasso/main.go", "cmdDepreciated/goselect-plotlasso/main.go"],
 [("argument checks", "featselect/fit.go Fit, Rss; featselect/util.go; featselect/csvIO.go ParseCSV"), ("decoding", "featselect/highscore.go, node.go, csvIO.go UnmarshalJSON"), ("commands", "cmd/*.go Run")],
 "property-based testing: generated inconsistent calls next to consistent ones, must be rejected without effect (rapid)",
 "Both the consistent and the inconsistent call are made in every case; command runs use a scratch directory.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(V, "harness", i.lower(), "main.go")):
            checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
                evidence_file="evidence/%s.json" % i, technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
        notes="Checks are Go programs in harness/cNN driven by harness/kit (rapid generators, shrinking, worker processes). No hooks in /repo: everything is observed through the exported API and the built programs. Seed from VERIF_SEED, tier from VERIF_TIER."),
        open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
