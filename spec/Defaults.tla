------------------------------ MODULE Defaults ------------------------------
(* Documented defaults.

   Every kind of object has settings with documented default values (written as text here).  An object made with some settings
   given and the others left out behaves as the object with the same values given and the documented value for every other one.
   Kinds derived from a more general one (HDy is DFy with a Hellinger distance between PDFs, ...) behave as that one does with the
   settings they fix. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Binned == [n_bins |-> "8", bin_strategy |-> "equal_width", tol |-> "1e-05"]
Drawn == [n_bags |-> "1000", bag_size |-> "None", method |-> "Uniform", alphas |-> "None", min_prevalence |-> "None", random_state |-> "2032"]
Silent == {"CC", "PCC", "DeBias", "ACOrdinal", "OneVsRestQuantifier", "FrankAndHallQuantifier", "OrdinalQuantificationTree"}      \* nothing but a verbosity
Documented == [k \in Silent |-> <<>>] @@ [
  PriorShift_BagGenerator |-> Drawn,
  PriorAndCovariateShift_BagGenerator |-> Drawn,
  CovariateShift_BagGenerator |-> [n_bags |-> "1000", bag_size |-> "None", random_state |-> "2032"],
  AC |-> [distance |-> "HD"],
  PAC |-> [distance |-> "L2"],
  EM |-> [epsilon |-> "0.0001", max_iter |-> "1000"],
  DFy |-> [distribution_function |-> "PDF", distance |-> "HD"] @@ Binned,
  HDy |-> Binned,
  MMy |-> Binned,
  DFX |-> [distribution_function |-> "PDF", distance |-> "HD"] @@ Binned,
  HDX |-> Binned,
  EDy |-> [distance |-> "manhattan"],
  CvMy |-> [distance |-> "manhattan"],
  EDX |-> [distance |-> "euclidean"],
  FriedmanME |-> [distance |-> "L2", tol |-> "1e-05"],
  SORDy |-> [tol |-> "1e-05"],
  QUANTy |-> [n_quantiles |-> "8", distance |-> "l2", tol |-> "1e-05"],
  PWKQuantifier |-> [n_neighbors |-> "10", p |-> "2", metric |-> "minkowski", metric_params |-> "None"],
  PWK |-> [n_neighbors |-> "10", p |-> "2", metric |-> "minkowski", metric_params |-> "None"],
  REGX |-> [bag_generator |-> "prior shift", n_bins |-> "8", bin_strategy |-> "normal"],
  REGy |-> [bag_generator |-> "prior shift", n_bins |-> "8", bin_strategy |-> "equal_width"],
  PDFOrdinaly |-> [n_bins |-> "8", distance |-> "L2", method |-> "full_probabilistic", tol |-> "1e-05"],
  EoQ |-> [n_quantifiers |-> "100", combination_strategy |-> "mean", distribution_function |-> "PDF", n_bins |-> "100",
           bin_strategy |-> "equal_width", distance_bags |-> "euclidean", percentage_of_selected_models |-> "0.5"],
  DDAGClassifier |-> [predict_method |-> "full_probabilistic"],
  FrankAndHallTreeClassifier |-> [performance_measure |-> "binary_kld"],
  CV_estimator |-> [cv |-> "5", averaged_predictions |-> "True", voting |-> "hard"],
  FHLabelBinarizer |-> [neg_label |-> "0", pos_label |-> "1"],
  compute_bincuts |-> [n_bins |-> "8", bin_strategy |-> "equal_width"] ]
Kinds == DOMAIN Documented
(* HDy and MMy are DFy, HDX is DFX, with these settings *)
Above(k) == CASE k \in {"HDy", "MMy"} -> "DFy" [] k = "HDX" -> "DFX" [] OTHER -> k
Fixed(k) == CASE k \in {"HDy", "HDX"} -> [distribution_function |-> "PDF", distance |-> "HD"]
              [] k = "MMy" -> [distribution_function |-> "CDF", distance |-> "L1"] [] OTHER -> <<>>
(* given: settings given, a function from some of the names to values *)
Effective(k, given) == given @@ Documented[k]
Same(k, g, h) == Effective(k, g) = Effective(k, h)
Canon(k, given) == <<Above(k), Effective(k, given) @@ Fixed(k)>>
=============================================================================
