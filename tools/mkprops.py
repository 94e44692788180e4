"""Source of properties.jsonl: python3 tools/mkprops.py"""
import json, os
P=[]
def p(id,title,st,over,text,why,files,state,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=state,meaning="state the property constrains",where=files[0])],mechanism=[dict(name=m.strip(),where=", ".join(files[:4])) for m in mech.split(";")],observe_at=[o.strip() for o in obs.split(";")],hook_needed=None)))
Q="quantificationlib/"
ALL=[Q+"base.py",Q+"baselines/cc.py",Q+"baselines/ac.py",Q+"binary/debias.py",Q+"binary/emd.py",Q+"binary/quantiles.py",Q+"multiclass/em.py",Q+"multiclass/df.py",Q+"multiclass/energy.py",Q+"multiclass/friedman.py",Q+"multiclass/knn.py",Q+"multiclass/regression.py",Q+"ordinal/ac_ordinal.py",Q+"ordinal/pdf.py",Q+"ordinal/trees.py",Q+"decomposition/multiclass.py",Q+"decomposition/ordinal.py",Q+"ensembles/eoq.py"]
p("P01","Every predicted prevalence vector is a probability distribution over the classes",
 "Once a quantifier of any kind (classifier-based, classifier-free, binary, multiclass, ordinal, decomposition wrapper, ensemble, regression-based) has been fitted, predicting any non-empty test bag returns exactly one finite, non-negative value per class seen in training, and the values sum to one (up to solver tolerance, 1e-5). This holds for every supported distance, number of bins, bin strategy, descriptor kind and combination strategy, also for bags of one example, bags with values outside the training range, training sets with a single example in some class, and classifiers that never predict some class. (Exempt: ensembles given bags that lack a class, and search-based binary methods whose loss is the same for every prevalence, which raise ValueError.)",
 ["inputs","configurations","histories"],"all quantifier classes x settings x 2..5 classes x training sets and bags, including degenerate ones, predicted in any order",
 "The tests fit a few quantifiers on one generated data set; validity has to hold for every setting and every degenerate bag, where clipping, renormalising, singular systems and solver fallbacks take over.",
 ALL,"fitted quantifier","predict of each quantifier class; clipping and normalisation at its end; the solvers in optimization.py","return value of predict")
p("P02","Counting quantifiers report exactly the share or mean posterior of each class",
 "The classify-and-count quantifier returns, for each training class in sorted label order, the exact fraction of test examples predicted as that class; probabilities given in place of labels are first turned into the label with the highest probability (the first such class on ties; for a one-column or one-dimensional array of binary probabilities, the second class from 0.5 upwards; a one-dimensional array of floats holds labels when there are more than two classes, or when the labels are floats and every value is one of them). The probabilistic version returns the exact mean of the posteriors of each class.",
 ["inputs"],"all prediction arrays (labels of any sortable type, probability matrices, one-column probabilities) over 2..5 classes, including classes never predicted",
 "Tests only compare two code paths on one data set; a wrong count for ties, unpredicted classes, string labels or non-contiguous labels is invisible there.",
 [Q+"base.py",Q+"baselines/cc.py"],"predictions of the bag, class list","CC.predict, PCC.predict, UsingClassifiers.predict and its crisp conversion","return value of predict")
p("P03","Adjusted counting inverts the training confusion matrix",
 "The adjusted-count quantifiers estimate, from the training predictions, the rate with which each true class is predicted as each class (for the probabilistic version: the mean posterior per true class) and return the prevalences that explain the observed counts under these rates. For two classes this is (observed - false positive rate) / (true positive rate - false positive rate), clipped to [0,1], or the plain observed rate when both rates differ by at most 0.001; for more classes it is the solution of the linear system with negative entries set to zero and renormalised, or, when the system is singular, a distribution that minimises the chosen distance (Hellinger, L2 or L1) between explained and observed counts.",
 ["inputs","configurations"],"all training confusion tables and test counts over 2..4 classes, regular and singular, every distance, crisp and probabilistic",
 "The correction matters in clipped, near-singular and singular cases, which the tests' single data set does not reach, and a transposed matrix or swapped rate is a plausible distribution too.",
 [Q+"baselines/ac.py",Q+"optimization.py"],"confusion matrix estimated at fit","AC.fit/predict, PAC.fit/predict","return value of predict")
p("P04","Estimators are fitted only when needed and given predictions take precedence",
 "Fitting a classifier-based quantifier trains an estimator that is not yet trained exactly once, on the whole training set, never retrains one that is already trained (even when several quantifiers or the training and testing roles share it), and predicting a bag never trains anything. Predictions passed explicitly to fit or predict are used instead of the estimator's, so passing what the estimator would have predicted gives the same prevalences; if neither an estimator nor predictions are available for a needed role, a ValueError is raised.",
 ["histories","configurations"],"all sequences of fit and predict calls with/without predictions, with shared, separate, trained, untrained and absent estimators, for every classifier-based quantifier",
 "The contract is about every interleaving of calls and every sharing pattern; tests use one pattern and do not count trainings.",
 [Q+"base.py",Q+"baselines/cc.py",Q+"baselines/ac.py",Q+"decomposition/multiclass.py",Q+"decomposition/ordinal.py",Q+"ensembles/eoq.py"],"trained/untrained estimators, stored predictions","UsingClassifiers.fit/predict","calls received by the estimators, exceptions, return values")
p("P05","A prediction depends only on the last training set and the bag",
 "The prevalences returned for a bag depend only on the quantifier's settings, the data it was last fitted with and the bag itself: not on which bags were predicted before, on how often, on earlier fits of the same object on other data (also with another number of classes), or on other quantifier objects existing, being fitted or used meanwhile. Cached solver problems and cached mixtures only make later predictions faster (results agree up to solver tolerance). A bag generator given by the user keeps its bags, and an estimator that is already trained keeps its training (that is their purpose).",
 ["histories"],"all interleavings of fit and predict calls over several training sets and bags on one or several objects of every quantifier class",
 "A stale cache shows only in particular orders of calls (refit after predict, second object with default settings), which example-based tests do not enumerate.",
 ALL+[Q+"optimization.py",Q+"search.py",Q+"bag_generator.py"],"cached problem, mixtures, bags, bincuts, distributions","caches reset in fit, default arguments of constructors","return values of predict along a history")
p("P06","Order of examples and names of classes do not matter",
 "Reordering the training examples or the examples of the test bag does not change the predicted prevalences of quantifiers that do not sample bags, and renaming the classes with an order-preserving renaming (other integers, strings) does not change any quantifier's prevalences. For the non-ordinal count, adjusted-count, expectation-maximisation, energy, Friedman and multiclass distribution-matching quantifiers, permuting the class identities permutes the prevalences accordingly (for histograms of posteriors: with three or more classes, or two and fractions in bins of equal width). Where several answers are equally good (flat losses, equidistant neighbours, values on the edge of a bin) any of them may be given.",
 ["inputs"],"all training sets, bags, permutations and renamings, for every quantifier class",
 "Relations between pairs of runs on transformed inputs; tests never run a transformed input.",
 ALL,"label and example order","indexing by class label and by example in fit and predict","return values of predict on related inputs")
p("P07","Histogram quantifiers match binned distributions optimally",
 "Distribution-matching quantifiers describe each training class and the test bag by the fraction of examples falling in each bin (every example in exactly one bin per descriptor, also outside the training range; cumulative fractions for the CDF variant), with cut points of equal width, equal count, or normal quantiles as selected. They return the class distribution whose mixture of per-class descriptions is closest to the bag's description in the chosen distance (Hellinger, taken as one minus the sum of the square roots of the products of corresponding entries; L2; L1; or, for two classes, a user function), so no other distribution is noticeably closer.",
 ["inputs","configurations"],"training sets and bags x PDF/CDF x bins x strategies x distances, on posteriors and on raw features",
 "Any distribution looks plausible; only an independent computation of descriptions and an optimality test over the whole simplex can tell that the minimiser is right.",
 [Q+"multiclass/df.py",Q+"optimization.py",Q+"search.py"],"bin cut points, per-class and test histograms","DFy, HDy, MMy, DFX, HDX, compute_bincuts, solve_*","public fitted attributes bincuts_, train_distrib_, test_distrib_ and the return value of predict")
p("P08","Bags drawn by pure prior shift are quantified exactly",
 "When a test bag consists of the training examples with each class replicated by its own factor (so the within-class distributions are exactly those of training and only the prevalences changed), every correcting quantifier (adjusted count, histogram matching, energy distance, Friedman, SORD, ordinal versions, nearest neighbours) returns exactly the bag's true prevalences (up to solver or search tolerance) whenever the class descriptions it uses are linearly independent. (With the Hellinger distance this is guaranteed for descriptions that are distributions, i.e. fractions in bins, not for cumulative fractions or exceedance rates.)",
 ["inputs","configurations"],"all training sets with identifiable class descriptions, replication factors, settings and quantifiers",
 "This consistency is the reason these methods exist; tests only look at rough errors on one sample, where wrong corrections still look acceptable.",
 ALL,"training description of each class","fit/predict of all correcting quantifiers","return value of predict")
p("P09","EM iterates the prior-correction update to a fixed point",
 "The expectation-maximisation quantifier starts from the training prevalences and repeatedly reweights each test posterior by the ratio of current to training prevalence, renormalises per example and averages, for at least ten iterations and until the mean absolute change is at most epsilon or the maximum number of iterations is reached. It returns the last average, which has never lowered the likelihood of the bag.",
 ["inputs","configurations"],"posteriors, training class frequencies, epsilon and iteration limits, 2..4 classes",
 "The stopping rule and the update are only visible in the exact sequence of iterates for specific limits.",
 [Q+"multiclass/em.py"],"current and previous prevalences","EM.fit/predict","return value of predict")
p("P10","Energy-distance quantifiers minimise the energy distance to the class mixture",
 "The energy-based quantifiers (on posteriors, on features, and on joint ranks) return the class distribution that minimises the energy distance between the test bag and the mixture of the training classes, computed with the mean pairwise distances within and between classes and to the bag under the chosen distance function; no other distribution has a noticeably smaller energy distance.",
 ["inputs","configurations"],"training sets and bags, distance functions, 2..4 classes, unbalanced class sizes",
 "An error in a pairwise-mean term shifts the optimum slightly; only an independent evaluation of the criterion over the simplex shows it.",
 [Q+"multiclass/energy.py",Q+"optimization.py"],"mean pairwise distances","EDy, EDX, CvMy, compute_ed_param_*, solve_ed","return value of predict")
p("P11","The Friedman quantifier matches the rates of exceeding the training prevalence",
 "The Friedman method describes each class and the bag by the fraction of examples whose posterior for each class is at least that class's training prevalence, and returns the class distribution whose mixture is closest to the bag's description in the chosen distance (Hellinger as in the histogram quantifiers, L2 or L1).",
 ["inputs","configurations"],"training sets, bags, distances, posteriors equal to the threshold",
 "Behaviour at the threshold and the orientation of the description are not visible on one sample.",
 [Q+"multiclass/friedman.py"],"training prevalences, exceedance rates","FriedmanME.fit/predict","return value of predict")
p("P12","Binary methods compute their defining estimate",
 "The debiasing method returns the training prevalence plus the difference between mean test posterior and training prevalence divided by the normalised variance of the training posteriors, clipped to [0,1]; the SORD method returns a prevalence minimising the sorted-order earth mover cost between reweighted training scores and test scores; the quantile method returns a prevalence minimising the chosen distance between quantile means of reweighted training scores and those of the bag. All three reject training sets that are not binary.",
 ["inputs","configurations"],"training and test scores with ties, weights, quantile counts, tolerances",
 "Defining formulas and minimisation over [0,1] need an independent evaluation of the criterion for arbitrary score multisets.",
 [Q+"binary/debias.py",Q+"binary/emd.py",Q+"binary/quantiles.py",Q+"search.py"],"training scores and labels","DeBias, SORDy, QUANTy","return value of predict")
p("P13","Generated bags have exactly the composition they report",
 "Every bag generator returns, for each bag, exactly bag-size valid indexes into the given data, and the reported prevalences of that bag are exactly the fractions of its examples belonging to each class (in sorted class order, summing to one). Requested minimum prevalences are respected (up to rounding to whole examples), the number of bags is the requested one, and invalid requests raise ValueError.",
 ["inputs","configurations"],"data sets, class counts, bag sizes, numbers of bags, methods, alphas, minimum prevalences, seeds",
 "The relation has to hold for every seed, rounding case and configuration, not for one printed sample.",
 [Q+"bag_generator.py"],"prevalences_ and indexes_","generate_bags of the three generators","return value of generate_bags")
p("P14","Bag generation is reproducible from its seed and then frozen",
 "Two generators with the same settings and the same integer seed produce identical bags for the same data whatever other random numbers are drawn in the program, different seeds produce different bags, and a generator that has already produced bags returns the same bags on every later request so that several ensembles can share them. Quantifiers created with default settings do not share bags with each other.",
 ["histories","configurations"],"all interleavings of generation requests, global random draws and generators, for every method",
 "Dependence on global random state or on an earlier user of a shared default object is visible only across histories.",
 [Q+"bag_generator.py",Q+"ensembles/eoq.py",Q+"multiclass/regression.py"],"random state, cached bags","generate_bags; default constructor arguments","return values of generate_bags along a history")
p("P15","Cross-validated predictions on the training set are out-of-fold",
 "When the cross-validation estimator predicts the data it was trained with, each example's prediction in each repetition of a partitioning scheme comes from a model whose training folds exclude that example; for any other data all models are used. Averaging or voting over repetitions, or stacking them repetition by repetition in example order, is done as selected, so that the true labels repeated accordingly line up with the stacked predictions in every quantifier.",
 ["inputs","configurations"],"data sets, cross-validation schemes (k-fold, repeated, leave-one-out), averaging and voting modes",
 "Leakage and misalignment produce valid-looking probabilities; detecting them needs models that reveal what they were trained on.",
 [Q+"estimators/cross_validation.py",Q+"base.py"],"fold models, stored training data","CV_estimator.fit/predict/predict_proba","predictions of memorising estimators")
p("P16","Each member of an ensemble is built from its own bag",
 "In an ensemble of classifiers, model i is trained exactly on the examples of bag i and its predictions appear at position i; in an ensemble of quantifiers, quantifier i is fitted on the examples (or the predictions, of model i where there is one per bag) of bag i with their true labels, and applied to the corresponding test predictions. The template estimator and quantifier are not turned into members themselves.",
 ["inputs","configurations","histories"],"bags, numbers of members, classifier-free and classifier-based members, repeated cross-validation predictions, precomputed bags and predictions",
 "With real learners all members look alike; only members that reveal their training data show a mix-up.",
 [Q+"estimators/ensembles.py",Q+"ensembles/eoq.py"],"members and their bags","EnsembleOfClassifiers.fit, EoQ.fit/predict","fitted members and predictions of recording members")
p("P17","Ensemble combination uses the selected members and the selected strategy",
 "The quantifier ensemble combines its members' prevalences by their mean or median, or by the mean over the selected fraction of members that are closest to the average prevalence (in mean absolute error), or whose training bag's distribution is closest to the test bag's distribution under the selected distance, and renormalises; the selection has at least one member, and medians that are all zero are replaced by the mean; the combined mode reports all of these and their average.",
 ["inputs","configurations"],"member outputs, bags, strategies, fractions, distances, PDF/CDF, bins",
 "A wrong selection still yields a plausible average; it needs scripted members with known outputs and bags.",
 [Q+"ensembles/eoq.py"],"bag distributions, member prevalences","EoQ.fit/predict","return value of predict")
p("P18","One-vs-rest quantification normalises the binary estimates of each class",
 "The one-vs-rest wrapper fits one copy of the binary quantifier per class, on labels telling this class from the rest and, if predictions are used, on that class's score column, and returns the estimated positive prevalences divided by their sum (any distribution when all are zero). The wrapped quantifier object itself stays unfitted.",
 ["inputs","configurations"],"base quantifiers, 2..5 classes, labels, estimators or predictions",
 "The mapping class-to-column and the normalisation are indistinguishable from errors in the base quantifier on real data.",
 [Q+"decomposition/multiclass.py"],"per-class quantifiers","OneVsRestQuantifier.fit/predict","return value of predict with scripted base quantifiers")
p("P19","Ordinal decomposition yields the differences of repaired cumulative prevalences",
 "The Frank-and-Hall wrapper fits one binary quantifier per split of the ordered classes (the lower group being positive), makes the estimated cumulative prevalences non-decreasing by averaging their upper and lower monotone envelopes when they are not, and returns their successive differences, the last class taking the remainder.",
 ["inputs","configurations"],"all vectors of cumulative estimates, 2..6 classes, base quantifiers, labels",
 "Non-monotone cumulative estimates are rare in tests; the repair has to be right for every vector.",
 [Q+"decomposition/ordinal.py",Q+"estimators/frank_and_hall.py"],"cumulative prevalences","FrankAndHallQuantifier.fit/predict and its monotone correction","return value of predict with scripted base quantifiers")
p("P20","Ordinal Frank-and-Hall classifiers combine their binary models as documented",
 "With n ordered classes, model k separates the k lowest classes from the others; the plain classifier gives class 1 the first model's lower probability, a middle class the product of being above the previous split and below its own, and the last class the probability of being above the last split. The monotone version first repairs decreasing sequences of lower probabilities by averaging upper and lower envelopes, and then takes differences, so its rows are distributions; labels are those of the highest probability.",
 ["inputs"],"all outputs of the binary models, 2..5 classes",
 "The documented combination differs from wrong ones only for particular model outputs.",
 [Q+"estimators/frank_and_hall.py"],"binary models","FrankAndHallClassifier, FrankAndHallMonotoneClassifier, FHLabelBinarizer","predict/predict_proba with scripted binary estimators")
p("P21","The ordinal quantification tree always splits at the best binary quantifier",
 "The tree classifier scores each binary split by comparing the true prevalence of its lower group with the predicted one, puts the best-scoring split of each class range at its node, and returns for each class the product of the branch probabilities along its path, which is a probability distribution. The tree quantifier returns the average of these distributions over the bag.",
 ["inputs","configurations"],"all binary model outputs, scores with ties, 2..6 classes, performance measures",
 "Which tree is built depends on the order of scores; one data set shows one tree.",
 [Q+"estimators/frank_and_hall.py",Q+"ordinal/trees.py"],"tree of splits","FrankAndHallTreeClassifier, QTree, OrdinalQuantificationTree","predict_proba and the printed tree with scripted binary estimators")
p("P22","The decision DAG distributes probability along all paths",
 "The DAG classifier starts from the pair of extreme classes, and at each node eliminates one of the two extreme classes of the current range using the pairwise model of exactly these two classes; each class receives the total probability of the paths that end in it, hence a distribution. In the winner mode all nodes but the last follow only the more probable branch (lower class on ties), so only the two classes of the last node get probability.",
 ["inputs","configurations"],"all pairwise model outputs, 2..6 classes, both modes",
 "Paths, ties and model indexing multiply with the number of classes; tests use one data set.",
 [Q+"estimators/ordinal_ddag.py"],"pairwise models","DDAGClassifier.predict/predict_proba","predict_proba with scripted pairwise estimators")
p("P23","Ordinal quantifiers match cumulative and score distributions over class order",
 "The ordinal adjusted-count quantifier returns the distribution minimising the L1 distance between cumulative explained and cumulative observed predicted-class frequencies. The ordinal score-histogram quantifier turns each posterior row into its expected class position (or, for winner-node posteriors, the position between the last two classes), histograms it over the class range and returns the mixture closest in Hellinger, L2, L1 or earth mover's distance (it is for three or more classes).",
 ["inputs","configurations"],"training sets, bags, distances, bins, methods, 3..5 classes",
 "Optimality over the simplex and the score mapping need an independent computation.",
 [Q+"ordinal/ac_ordinal.py",Q+"ordinal/pdf.py"],"cumulative confusion matrix, score histograms","ACOrdinal, PDFOrdinaly","return value of predict")
p("P24","Quantification metrics obey their definitions and distance laws",
 "Every metric returns the value of its documented formula on valid prevalence vectors; the distances are zero exactly for identical distributions, symmetric, and the score versions are one exactly for perfect predictions and never above one. Vectors of different length are rejected.",
 ["inputs"],"pairs and batches of prevalence vectors, including zeros and ones",
 "Formulas and laws hold over a continuum of inputs and at its corners.",
 [Q+"metrics/binary.py",Q+"metrics/multiclass.py",Q+"metrics/ordinal.py"],"none","metric functions","return values")
p("P25","The prevalence search and the solvers return a global minimiser",
 "The one-dimensional global search (for losses that are not constant on its grid, which it rejects with ValueError) returns a distribution over the two classes whose loss is not noticeably larger than the loss at any prevalence in [0,1], golden-section search does so for every unimodal loss, and the L1, L2, Hellinger and energy solvers return a distribution no feasible distribution improves noticeably, also when solving again with a cached problem.",
 ["inputs","configurations"],"loss functions with interior, boundary and several minima; random and degenerate matrices; first and repeated solves",
 "Missed minima appear only for particular shapes of the loss function.",
 [Q+"search.py",Q+"optimization.py"],"cached problem and mixtures","global_search, golden_section_search, solve_l1, solve_l2, solve_hd, solve_ed","return values")
p("P26","Regression quantifiers learn from correctly described bags",
 "The regression-based quantifiers train on one row per generated bag: the bag's per-descriptor bin fractions as inputs and its prevalences as targets; a test bag is described the same way, with the same cut points, before the regressors are applied, so a test bag equal to a training bag is described identically. The output is the clipped and normalised vector of one regressor per class (in two-class problems, one regressor for the second class); any distribution when every clipped value is zero.",
 ["inputs","configurations"],"data sets, bag sizes, bins, strategies, regressors, 2..4 classes",
 "A mismatch of scales or rows between training and test descriptions still gives plausible prevalences.",
 [Q+"multiclass/regression.py"],"bag descriptions and targets","REGX, REGy","inputs received by recording regressors, return value of predict")
p("P27","Nearest-neighbour quantification weights neighbours against class frequency",
 "For at least two classes and k up to the number of training examples, the weighted nearest-neighbour classifier gives each of the k nearest training examples a weight of one minus its class's training frequency, predicts the class with the largest total weight and reports the normalised totals as probabilities. The quantifier adjusts the counts of these predictions with the confusion matrix of the training set.",
 ["inputs","configurations"],"training sets, k, test points, 2..4 classes",
 "Weighting matters only in unbalanced neighbourhoods.",
 [Q+"estimators/weighted_knn.py",Q+"multiclass/knn.py"],"weights, confusion matrix","PWK, PWKQuantifier","return values of predict and predict_proba")
p("P28","Calls never modify the caller's data or template objects",
 "No fit, predict, bag generation or metric call changes the arrays passed to it (examples, labels, predictions, precomputed bags, prevalence vectors), and quantifiers or estimators passed as templates to wrappers and ensembles (one-vs-rest, ordinal decompositions, ensembles, regression) are left untrained.",
 ["inputs","histories"],"all public calls of the library on all argument kinds",
 "A modified argument goes unnoticed unless the caller reuses it, which tests do not check.",
 ALL+[Q+"bag_generator.py",Q+"estimators/frank_and_hall.py",Q+"estimators/ordinal_ddag.py",Q+"estimators/ensembles.py",Q+"plot/qlplot.py"],"argument arrays and template objects","all public calls","arguments before and after each call")
p("P29","Only proportions matter: not data sizes, units of measurement or feature order",
 "The prevalences a quantifier estimates stay the same (up to solver tolerance) when every example of the bag is repeated equally often (with its prediction), and when every training example is repeated equally often. For classifier-free quantifiers they also stay the same when all features, of training set and bag alike, are scaled by one positive factor, when a constant is added to a feature, and when the features are put in another order. Exempt: rank-based matching (Cramer-von Mises) under repetitions of only one of the two, nearest neighbours, quantifiers that draw bags and equal-count bins under repetitions of the training set, quantifiers that draw bags under reordered features, and search-based criteria that are flat around their minimum.",
 ["inputs","configurations"],"every quantifier and setting, 2..4 classes, training sets and bags, all sequences of repetitions, changes of units and orders of features",
 "A dependence on the number of examples or on absolute units gives a plausible answer; it shows only when answers for related data sets are compared.",
 ALL,"descriptions of training set and bag","fit and predict of each quantifier; compute_bincuts; matching criteria","return value of predict")
p("P30","Settings left out have their documented default values",
 "An object made without some of its settings (bag generators, quantifiers, ensembles, classifiers, functions computing cut points) behaves exactly as one made with the documented default values given explicitly, whatever the other settings are; quantifiers that are documented as special cases (HDy, MMy, HDX) behave as the general one with the settings they fix; the default verbosity is silent.",
 ["configurations","inputs"],"every constructor with documented defaults x every subset of settings left out, as documented or given otherwise x data sets",
 "Tests use one setting each and do not compare left-out settings with documented ones; a default changed in one signature of a chain of constructors goes unnoticed.",
 [Q+"bag_generator.py",Q+"multiclass/df.py",Q+"multiclass/em.py",Q+"multiclass/regression.py",Q+"multiclass/knn.py",Q+"ensembles/eoq.py",Q+"ordinal/pdf.py",Q+"estimators/cross_validation.py",Q+"estimators/weighted_knn.py"],"settings of the object","constructors; fit and predict","return values, standard output")
p("P31","Settings can be read and changed, and copies behave like the original",
 "The settings of every quantifier and estimator of the library can be read (get_params, repr) and are those given, or else the documented defaults; settings changed with set_params before fitting act as if the object had been constructed with them; a clone has the same settings and has learnt nothing; deep and pickled copies answer exactly like the original, at any point of its life, and what happens to one of them afterwards does not affect the other.",
 ["configurations","histories"],"every class x settings given, left out or changed x histories of fits, questions, set_params, replaced estimators, clones, deep copies and pickling, interleaved between the original and its copies",
 "Tests construct, fit and predict once; reading or changing settings, cloning in model selection and saving a fitted object are histories of several objects.",
 [Q+"base.py",Q+"multiclass/em.py",Q+"multiclass/df.py",Q+"multiclass/knn.py",Q+"estimators/weighted_knn.py",Q+"estimators/cross_validation.py",Q+"estimators/ordinal_ddag.py",Q+"estimators/frank_and_hall.py",Q+"ordinal/trees.py",Q+"ensembles/eoq.py"],"settings, what was learnt, copies","constructors, get_params, set_params, clone, deepcopy, pickle, fit, predict","settings read, return values of original and copies")
p("P32","Data are prepared and figures drawn exactly as the numbers say",
 "Loading a file gives every example's features in order and its class (last column) as a whole number, also for a single example; normalising centres and scales the features of training and test set alike by the mean and standard deviation of the training set (a feature that is constant there is only centred). A line figure draws one line per experiment, bottom to top in the order given or by increasing or decreasing first prevalence, each from 0 to 1 without gaps, with one piece per class, in class order, as long as its prevalence and in the colour of its class; a box figure draws one box per method with its quartiles, whiskers, outliers, label and colour. Arguments are not changed.",
 ["inputs","configurations"],"files, data sets, tables of prevalences and errors, orders, colours, orientations, labels; several figures one after the other",
 "Figures are not checked by tests at all; a piece drawn from the wrong place still looks like a figure.",
 [Q+"plot/qlplot.py",Q+"data_utils.py"],"pieces drawn so far","plot_line_prevalences, plot_boxes, normalize, load_data","drawn artists of the axes, return values")
p("P33","What cannot be quantified is refused, and a refusal leaves no trace",
 "Training data or bags with NaN or infinite values, labels of a different number, empty data or bags, bags with another number of features, questions before the first fit, unknown strategies, methods and distances, binary methods on more classes, wrong base quantifiers or missing estimators, too few predictions and invalid bag generator settings raise an exception instead of giving an answer. A refused question changes nothing: later answers are those of an object that was never asked; after a refused fit, a good fit works as on a new object. Exempt: training data that an estimator that is not trained again would have had to refuse (CC, PCC, the ordinal tree; CV_estimator, which may skip folds) and names of settings that the requested computation does not use.",
 ["histories","inputs","configurations"],"every quantifier and estimator x histories of good and bad fits and questions; about a hundred kinds of misuse",
 "Tests do not use bad data; what a refused call leaves behind shows only in later calls.",
 ALL+[Q+"bag_generator.py"],"what is known since the last fit","constructors, fit, predict, generate_bags, metrics","exceptions, return values of later calls")
p("P34","The same data give the same answer, however they are stored",
 "Tables of features, tables of predictions and labels with the same contents give the same answers in any storage the library accepts: arrays by rows or by columns, with gaps, running backwards, read-only, of other exact element types; labels also as lists and pandas series (positions count, never their index); for methods that leave the reading of features to classifiers also compressed sparse rows and columns with entries in any order and explicit zeros.",
 ["inputs","configurations","histories"],"every quantifier and estimator x storage of training set, labels, predictions and bag, over histories of fits and questions",
 "Tests store data in one way; a position taken for an index, or memory read in its own order, still gives a plausible answer.",
 ALL,"what was read at the last fit","fit, predict, predict_proba","return values")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
