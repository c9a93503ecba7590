"""writes properties.jsonl (kept as a script only so that the text is easy to edit)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['quantificationlib/' + f for f in files], 'mechanism': [{'name': a, 'where': 'quantificationlib/' + b} for a, b in mech], 'observe_at': list(observe)}})

TESTS = 'The suite fits each method once on one or two synthetic datasets and compares a rounded prevalence; '

p('P01', 'Classify-and-count baselines return the exact observed class proportions',
  'Classify & Count returns, for every class seen in training and in sorted class order, the exact fraction of test examples whose (predicted, or arg-max of the given posteriors) label is that class; Probabilistic Classify & Count returns the exact column mean of the test posteriors. Both results are non-negative, at most one and sum to one, have one entry per training class even when a class is never predicted, and depend on nothing in the training set but its set of classes.',
  ['inputs', 'configurations'], 'every training label vector, every test set size, every posterior matrix on the simplex, every estimator, integer and string labels, any number of classes >= 2',
  TESTS + 'it never samples a class that is never predicted, ties, one-example bags or string labels.',
  ['baselines/cc.py', 'base.py'], [('counting loop and mean over test predictions', 'baselines/cc.py:CC.predict, PCC.predict'), ('labels from posteriors', 'base.py:UsingClassifiers.predict')], ['CC.predict', 'PCC.predict'])
p('P02', 'The adjusted-count methods learn the exact training misclassification rates',
  'After training, the rate matrix of the adjusted count methods (crisp, probabilistic, and the weighted nearest-neighbour one) holds at row i, column j exactly the fraction of training examples of class i predicted as class j (respectively the mean posterior of class j over the training examples of class i). Every row is non-negative and sums to one, and when the training predictions contain several predictions per example all of them are used, each paired with its own example\'s true label.',
  ['inputs', 'configurations'], 'all training label vectors containing each class, all training predictions (given or from the estimator), any number of repetitions per example, all distance settings',
  TESTS + 'it checks no entry of the matrix, no repeated predictions and one labelling.',
  ['baselines/ac.py', 'base.py', 'multiclass/knn.py'], [('confusion matrix normalised by row', 'baselines/ac.py:AC.fit'), ('class-conditional mean posterior', 'baselines/ac.py:PAC.fit'), ('label replication', 'base.py:UsingClassifiers.fit'), ('confusion of the PWK classifier', 'multiclass/knn.py:PWKQuantifier.fit')])
p('P03', 'Adjusted counts invert the learnt misclassification rates and stay valid',
  'For two classes the adjusted count methods return clip((p-fpr)/(tpr-fpr),0,1) for the second class, where p is the unadjusted estimate, falling back to p itself when |tpr-fpr| <= 0.001; for more classes they solve the linear system defined by the transposed rate matrix, set negative entries to zero and renormalise, and when that matrix is singular they minimise the configured distance (HD, L1 or L2) over the simplex, rejecting any other distance with ValueError (the nearest-neighbour variant always minimises L1). The result always has non-negative entries, one per class, summing to one; and whenever the unadjusted estimate is exactly what the rate matrix produces from some prevalence vector, that vector is returned.',
  ['inputs', 'configurations'], 'all row-stochastic rate matrices, all test predictions, every number of classes, all distances, singular and non-singular matrices',
  TESTS + 'singular matrices, tpr close to fpr, clipping and exact recovery are never exercised.',
  ['baselines/ac.py', 'multiclass/knn.py', 'optimization.py'], [('binary correction', 'baselines/ac.py:AC.predict, PAC.predict'), ('matrix inversion and clipping', 'baselines/ac.py:AC.predict, PAC.predict'), ('L1 fallback', 'multiclass/knn.py:PWKQuantifier.predict')])
p('P04', 'EM iterates exactly the prior-correction fixed point and stops as documented',
  'The EM method starts from the training class prevalences and repeatedly replaces its estimate by the average of the test posteriors re-weighted by (current estimate / training prevalence) and re-normalised per example. It performs at least 10 iterations (or the configured maximum if smaller), stops at the first later iteration whose mean absolute change is at most epsilon or at the configured maximum, and every returned vector is a prevalence vector (non-negative, summing to one). The training prevalences are those of the labels passed to training, whatever predictions are given.',
  ['inputs', 'histories', 'configurations'], 'all posterior matrices with positive entries, all training prevalences, all epsilon and iteration limits, every number of iterations',
  TESTS + 'a single converging run cannot separate the stopping rule, the first iterations, or the fixed-point formula for other inputs.',
  ['multiclass/em.py', 'metrics/multiclass.py'], [('E/M loop', 'multiclass/em.py:EM.predict'), ('training prevalences', 'multiclass/em.py:EM.fit')])
p('P05', 'Distribution-matching methods compare correctly built histograms',
  'The histogram-based methods (over posteriors or over features) represent each training class, and the test bag, by the proportion of its examples falling in each bin of each descriptor, using the same bins for training and test; two-class posteriors use a single descriptor; with the cumulative option the bins are replaced by running sums. They then return the minimiser over the simplex of the configured distance (HD, L1, L2 or a user function) between the mixture of class distributions and the test distribution, always a valid prevalence vector.',
  ['inputs', 'configurations'], 'all training sets, test bags, numbers of bins, bin strategies, numbers of descriptors and classes, both distribution functions, all distances',
  TESTS + 'no test inspects a distribution, the cumulative option over several descriptors, or repeated training predictions.',
  ['multiclass/df.py', 'search.py'], [('training distribution', 'multiclass/df.py:DFy.fit, DFX.fit'), ('test distribution and dispatch', 'multiclass/df.py:DFy.predict, DFX.predict')])
p('P06', 'Bin edges are ordered, cover every value and follow the chosen strategy',
  'For every strategy the computed bin edges number one more than the bins, are non-decreasing, and run from minus infinity to plus infinity, so that every value falls in exactly one bin and no example is ever dropped. Equal-width places the inner edges uniformly over the given (or observed) range, equal-count at midpoints between consecutive order statistics at rank round(n*i/bins), and the two normal strategies at the corresponding quantiles of the fitted normal (class-averaged moments, respectively class-balanced pooled moments).',
  ['inputs', 'configurations'], 'all value vectors, labels, numbers of bins, ranges, and the four strategies',
  TESTS + 'bin edges are never checked and no test presents an out-of-range test value.',
  ['multiclass/df.py'], [('edges per strategy', 'multiclass/df.py:compute_bincuts')])
p('P07', 'The simplex solvers minimise the stated distance for the data just given',
  'Given a matrix of class distributions and a test distribution, the L1, Hellinger and L2 solvers return a vector on the probability simplex minimising, respectively, the sum of absolute differences, the Hellinger distance, and the sum of squared differences between the mixture and the test distribution. Re-using a previously built problem for a new test distribution gives the solution for the new distribution and the same class distributions; the inputs are not modified.',
  ['inputs', 'histories'], 'all class-distribution matrices and test distributions of any size, and every sequence of solves that re-uses a problem',
  'No test calls the solvers directly; one objective per dataset is exercised through a quantifier, whose result is only compared after rounding.',
  ['optimization.py'], [('programs handed to the solvers', 'optimization.py:solve_l1, solve_hd, solve_l2, compute_l2_param_train')])
p('P08', 'Energy-distance methods minimise the energy distance to the class mixture',
  'The energy methods (over posteriors, over features, and over average ranks) return a vector on the simplex minimising the energy distance between the test bag and the mixture of training classes: the quadratic whose coefficients are the average pairwise distances within and between classes and the average distances from each class to the test bag, under the configured distance. When training and test examples are ranked, ranks are taken per descriptor over the union of all predictions with ties sharing their average rank.',
  ['inputs', 'configurations'], 'all training sets and test bags, any number of classes, any symmetric distance function',
  TESTS + 'the quadratic programme is never inspected and only one distance per method is used.',
  ['multiclass/energy.py', 'optimization.py'], [('class-to-class and class-to-test averages', 'optimization.py:compute_ed_param_train, compute_ed_param_test'), ('simplex QP', 'optimization.py:solve_ed'), ('ranking', 'multiclass/energy.py:CvMy.predict')])
p('P09', 'One-dimensional search returns the minimising prevalence within tolerance',
  'Golden-section search over an interval returns a two-class prevalence vector whose positive entry lies in that interval and is within the tolerance of the minimiser of any unimodal loss, together with the loss at one of its probe points; the global search does so over [0,1] for any unimodal loss, including minima at or next to the end points, and raises ValueError when the loss is flat over the grid. Mixtures kept from an earlier call and re-used give the same answer as recomputing them, and the loss is always evaluated on the mixture for the prevalence reported.',
  ['inputs', 'histories'], 'all unimodal losses, mixtures, intervals and tolerances, every number of refinement steps, with and without cached mixtures',
  'The tests run the search on a handful of concrete histograms whose minimum is in the interior.',
  ['search.py'], [('golden section', 'search.py:golden_section_search'), ('grid scan', 'search.py:global_search'), ('two-class mixture', 'search.py:mixture_of_pdfs')])
p('P10', 'Quantile and sample-ordinal representations conserve mass',
  'The quantile representation of a sample splits its total (class re-weighted) mass into equal shares taken in ascending order of score, so the average of the quantiles equals the weighted mean of the sample; re-weighting by a candidate prevalence gives the two classes exactly the masses p and 1-p. The sample-ordinal distance equals the area between the cumulative distributions of the re-weighted training sample and the test sample, with tied scores contributing nothing between themselves; the methods built on them use ascending scores with their own labels and return valid prevalence vectors, rejecting more than two classes.',
  ['inputs', 'configurations'], 'all score vectors, label vectors with both classes, candidate prevalences in [0,1], numbers of quantiles and test bags',
  TESTS + 'the representations themselves, and the weights given to each class, are never checked.',
  ['search.py', 'binary/quantiles.py', 'binary/emd.py'], [('quantiles', 'search.py:compute_quantiles'), ('weights and area', 'search.py:compute_sord_weights, sord'), ('sorting and union', 'binary/quantiles.py:QUANTy, binary/emd.py:SORDy')])
p('P11', 'Predictions are taken from the right source and converted faithfully',
  'Every classifier-based method uses exactly the predictions it is given when they are given, and otherwise those of the training estimator on the training data and of the test estimator on the test data, posteriors or labels according to the method; an estimator that is already fitted is never refitted and one that is not is fitted exactly once on the data given, and when neither source exists ValueError is raised. When a label-based method is given posteriors, it uses the class with the highest posterior in sorted class order; when it is given labels it uses those labels.',
  ['inputs', 'histories', 'configurations'], 'all estimators (fitted or not), all given predictions in either form, all label types, for training and for test',
  'The tests always pass posteriors for fresh integer-labelled data, so given-label, already-fitted and missing-source paths do not run.',
  ['base.py'], [('source selection and fitting', 'base.py:UsingClassifiers.fit, predict'), ('posteriors to labels', 'base.py:UsingClassifiers.__probs2crisps')])
p('P12', 'Results depend on the data given, not on object history, and inputs stay intact',
  'Fitting or predicting never modifies the arrays passed in. For every quantifier, a prediction depends only on the last training call and the test data: refitting an object on other data (also with other classes or sizes) leaves no trace of the earlier fit, and predicting other bags in between does not change a later prediction. Two objects never share state.',
  ['histories', 'inputs'], 'every sequence of fit and predict calls on any quantifier, with any datasets in between',
  'Each test fits every object once and predicts once; no test calls fit twice or interleaves predictions.',
  ['base.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/em.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'binary/quantiles.py', 'binary/emd.py', 'ordinal/ac_ordinal.py', 'ordinal/pdf.py', 'optimization.py'], [('cached optimisation problems and mixtures reset on fit', 'multiclass/df.py:DFy.fit and siblings'), ('copies instead of views', 'multiclass/em.py:EM.predict')])
p('P13', 'Bag generators return bags whose declared prevalences are the drawn ones',
  'Every generator returns one column per bag of indexes that are valid training positions, all of the requested bag size, and reports for each bag exactly the class proportions of the examples it drew (so each column is non-negative and sums to one, entries being multiples of 1/bag size). Minimum-prevalence bounds, after rounding to whole examples, are respected by every bag, invalid bounds, parameters or random sources raise ValueError, and the bags are a function of the data and the random state alone.',
  ['inputs', 'configurations', 'histories'], 'all label vectors, bag sizes, numbers of bags, methods, Dirichlet parameters, minimum prevalences and every possible sequence of random draws',
  'The tests draw a few bags from one seed; the guarantee is over every sequence of draws.',
  ['bag_generator.py'], [('uniform and Dirichlet prior shift', 'bag_generator.py:PriorShift_BagGenerator'), ('covariate shift', 'bag_generator.py:CovariateShift_BagGenerator'), ('both', 'bag_generator.py:PriorAndCovariateShift_BagGenerator')])
p('P14', 'Decomposed quantifiers train and combine the right binary sub-problems',
  'The one-vs-rest quantifier trains an independent copy of its base quantifier per class on "this class against all others", feeding it the matching classifier or the matching column of the given predictions, and returns the positive prevalences renormalised to sum to one; the ordinal (Frank and Hall) quantifier does the same for "at most this class against above" and returns the successive differences of the monotone-corrected cumulative estimates. Results have one entry per class, are non-negative and sum to one, the correction leaves ordered estimates unchanged and always yields ordered values, and unsupported base quantifiers or classifiers raise ValueError.',
  ['inputs', 'configurations'], 'all training labels with at least three classes, all base quantifiers, all predictions and all binary estimates the base quantifiers may return',
  TESTS + 'the base quantifiers\' estimates are almost ordered there, so the correction and the clipping do not run.',
  ['decomposition/multiclass.py', 'decomposition/ordinal.py', 'estimators/frank_and_hall.py'], [('one-vs-rest', 'decomposition/multiclass.py:OneVsRestQuantifier'), ('cumulative decomposition', 'decomposition/ordinal.py:FrankAndHallQuantifier'), ('cumulative labels', 'estimators/frank_and_hall.py:FHLabelBinarizer')])
p('P15', 'Ordinal classifiers combine their binary models into valid class probabilities',
  'The Frank-and-Hall classifiers train one binary model per threshold on "at most this class", and combine the models\' outputs by the documented rule of each variant: the plain one by (1-left below)*(left) products, the monotone one by differences of the monotone-corrected cumulative probabilities, the tree one by products along the path to the class leaf. The monotone, tree and directed-acyclic-graph classifiers return for each example non-negative probabilities that sum to one, and every classifier predicts the class of highest combined probability and refuses to predict before being fitted.',
  ['inputs', 'configurations'], 'all numbers of classes, all binary probability outputs, all tree shapes',
  'The tests look at the quantifiers built on top, on well-behaved data where the binary models are already nearly monotone.',
  ['estimators/frank_and_hall.py', 'estimators/ordinal_ddag.py'], [('threshold models', 'estimators/frank_and_hall.py:FrankAndHallClassifier'), ('monotone correction', 'estimators/frank_and_hall.py:FrankAndHallMonotoneClassifier'), ('tree', 'estimators/frank_and_hall.py:FrankAndHallTreeClassifier'), ('graph traversal', 'estimators/ordinal_ddag.py:DDAGClassifier')])
p('P16', 'Cross-validated training predictions are strictly out of fold',
  'For the data it was trained on, the cross-validation estimator gives every example, once per repetition, the prediction of the model whose training folds excluded it, also when the splitter shuffles or repeats; for other data it uses all fold models. Averaged results are the mean posterior, or the majority (respectively highest mean posterior) label; non-averaged results stack the repetitions (or fold models) block by block, in training order, and labels are original class labels.',
  ['inputs', 'histories', 'configurations'], 'all datasets, all splitters (with or without repetition, shuffling and fixed seed), all fold models, averaged or not, hard or soft voting',
  'The existing test checks shapes and agreement on one repeated splitter with a fixed seed.',
  ['estimators/cross_validation.py'], [('fold bookkeeping', 'estimators/cross_validation.py:CV_estimator._predict_proba'), ('averaging and voting', 'estimators/cross_validation.py:CV_estimator.predict, predict_proba')])
p('P17', 'Ensembles train one model per bag and aggregate exactly the selected estimates',
  'The ensemble quantifier trains an independent copy of its base quantifier on each bag, using that bag\'s examples with their labels and predictions, and each member predicts the same test bag with its own classifier; an ensemble of classifiers holds one independently trained classifier per bag and reports its outputs in bag order. The final prevalence is the normalised mean or median of the members (medians not all zero), or the mean of the required fraction of members (at least one) closest to the mean estimate or whose training bag has the distribution closest to the test bag, and is non-negative and sums to one.',
  ['inputs', 'configurations'], 'all bags, base quantifiers, member estimates, selection percentages and combination strategies',
  'The test runs one ensemble per strategy and checks only a rounded output.',
  ['ensembles/eoq.py', 'estimators/ensembles.py'], [('per-bag training', 'ensembles/eoq.py:EoQ.fit'), ('selection and aggregation', 'ensembles/eoq.py:EoQ.predict'), ('classifier per bag', 'estimators/ensembles.py:EnsembleOfClassifiers')])
p('P18', 'Quantification error measures equal their definitions',
  'Each binary and multiclass error measure or score equals its documented formula for every pair of prevalences, including those with zero entries, and the distances also for histograms that do not add up to one; distances are non-negative and zero for equal arguments, symmetric where their definition is (L1, L2, Hellinger, Bray-Curtis, Topsoe, Jensen-Shannon, probabilistic symmetric, mean absolute and squared errors), and normalised scores are one for a perfect estimate. Vectors of different length are rejected, row and column vectors give the same result as flat ones, and the geometric mean is that of the per-class recalls.',
  ['inputs'], 'all pairs of prevalences (vectors of any length) including those with zeros and ones',
  'Tests compare a few hand-picked pairs.',
  ['metrics/binary.py', 'metrics/multiclass.py'], [('formulas', 'metrics/binary.py, metrics/multiclass.py')])
p('P19', 'Ordinal earth mover measures equal the area between cumulative distributions',
  'The ordinal earth mover distance of two prevalence vectors is the sum of the absolute differences of their cumulative sums; it is symmetric, non-negative, zero exactly for equal vectors and at most the number of classes minus one. The pairwise version gives the same number for every pair of rows, and the score is one for a perfect estimate and zero for the worst one.',
  ['inputs'], 'all pairs of prevalence vectors, all sizes, all matrices of prevalence rows',
  'No test calls the pairwise distance or the score.',
  ['metrics/ordinal.py'], [('cumulative differences', 'metrics/ordinal.py')])
p('P20', 'Threshold and variance corrected methods apply their documented statistics',
  'The de-bias method returns clip(q + (mean test posterior - q)/V, 0, 1) for the positive class, q being its training prevalence and V the mean squared deviation of its training posteriors from q divided by q(1-q), and refuses non-binary problems with AttributeError. The threshold method represents each class, and the test bag, by the fraction of its examples whose posterior of each class is at least that class\'s training prevalence, and returns the simplex vector whose mixture of class representations is closest to the test one in the configured distance.',
  ['inputs', 'configurations'], 'all training label vectors and posteriors, all test bags, all distances',
  TESTS + 'neither statistic is examined.',
  ['binary/debias.py', 'multiclass/friedman.py'], [('de-bias', 'binary/debias.py:DeBias'), ('threshold indicators', 'multiclass/friedman.py:FriedmanME')])
p('P21', 'Ordinal matching methods use cumulative, order-aware representations',
  'The ordinal adjusted count returns the simplex vector minimising the L1 distance between cumulative sums (over the class order) of the mixture of misclassification-rate rows and of the observed predicted proportions. The ordinal density method maps each posterior to its score (mean class rank, or position on the decision path), builds per-class and test histograms with a fixed number of equal bins per rank interval from rank 1 to the last rank, and returns the simplex vector minimising the configured distance (HD, L2, or L1 between cumulative histograms), rejecting fewer than three classes and unknown methods.',
  ['inputs', 'configurations'], 'all training sets, posteriors and test bags, three or more classes, both scoring methods, all distances',
  TESTS + 'neither the cumulative matrices nor the histograms are checked.',
  ['ordinal/ac_ordinal.py', 'ordinal/pdf.py', 'ordinal/trees.py'], [('cumulative rates', 'ordinal/ac_ordinal.py:ACOrdinal'), ('score histograms', 'ordinal/pdf.py:PDFOrdinaly')])
p('P22', 'Prevalence-weighted nearest neighbours weigh classes by their rarity',
  'For two or more classes, the weighted nearest-neighbour classifier gives each training example the weight 1 minus the proportion of its class; the predicted label is the class with the largest total weight among the neighbours, and the class probabilities are those totals divided by their sum (hence non-negative and summing to one), in sorted class order.',
  ['inputs'], 'all training sets, label types, neighbourhood sizes and queries',
  TESTS + 'the weights and probabilities are not inspected.',
  ['estimators/weighted_knn.py'], [('weights and weighted vote', 'estimators/weighted_knn.py:PWK')])
p('P23', 'Regression quantifiers train and predict with consistently built histograms',
  'The regression methods build one training row per generated bag: the per-descriptor histograms of that bag\'s examples as proportions of the bag, paired with that bag\'s class prevalences, and represent a test bag in the same way with the same bins. They train one independent regressor per class (a single one, for the positive class, in binary problems) and return the predictions clipped to [0,1] and normalised to sum to one.',
  ['inputs', 'configurations'], 'all training sets, bag generators, bag sizes (different from the training size too), regressors and test bags',
  TESTS + 'bags there have the size of the training set, so proportions of the wrong total go unnoticed.',
  ['multiclass/regression.py'], [('training set of distributions', 'multiclass/regression.py:REG.create_training_set_of_distributions'), ('regressors', 'multiclass/regression.py:REG.fit_regressor, predict_bag'), ('test representation', 'multiclass/regression.py:REGX.predict, REGy.predict')])
p('P24', 'The positive-definiteness test and repair are correct',
  'The positive-definiteness test accepts a symmetric matrix exactly when it has a Cholesky factorisation with positive diagonal, leaving its argument unchanged and returning that factor. The repair returns a symmetric matrix that passes the test, and the quadratic programmes of the L2 and energy methods are given their exact matrix whenever it already passes.',
  ['inputs'], 'all symmetric matrices of any size',
  'No test calls these functions directly.',
  ['optimization.py'], [('factorisation', 'optimization.py:dpofa, is_pd'), ('nearest positive definite', 'optimization.py:nearest_pd')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
