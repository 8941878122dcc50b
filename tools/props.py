TECH = "TLA+ specification evaluated by TLC on recorded executions (trace validation), scenarios enumerated by TLC"
NOTE = ("Each recorded call of the real code is accepted or rejected by TLC against the TLA+ specification evaluated in exact rational arithmetic. "
        "Bounded to the enumerated skeletons and sampled inputs of the run; trusts TLC, the Java rational arithmetic (spec/Num.tla) and the recorder.")


def P(id, title, statement, over, quant, why, files, mech, observe, level="exploration", note=NOTE, **k):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=["diff_diff/" + f for f in files],
                mech=mech, observe=observe, level=level, note=note, **k)


PROPS = [
P("P01", "Least squares, rank deficiency and covariance matrices are exact",
  "For every finite design and outcome the regression engine returns the least-squares coefficients, fitted values and residuals, the documented heteroskedasticity-robust, cluster-robust or homoskedastic covariance, and degrees of freedom counted from the estimable parameters. When columns are linearly dependent it drops exactly as many as the deficiency, reports NaN for them and exact least squares for the rest, and warns, raises or stays silent as asked. Non-finite, mis-shaped or underdetermined input is rejected.",
  ["inputs", "configurations"], "all designs (any rank, any column scale), outcomes, cluster partitions, covariance kinds and rank-deficiency actions",
  "tests fix a few designs; the answer depends on rank, clustering, scale and which columns are dependent",
  ["linalg.py"], [("pivoted QR rank detection and column dropping", "diff_diff/linalg.py: solve_ols"), ("sandwich covariance", "diff_diff/linalg.py: compute_robust_vcov"), ("coefficient inference", "diff_diff/linalg.py: LinearRegression.get_inference")],
  ["return values of solve_ols and LinearRegression"]),
P("P02", "Basic DiD returns the interaction coefficient and its inference",
  "For every two-group two-period data set the reported effect is the coefficient on treatment-by-time in the requested regression (with covariates, indicator fixed effects or absorbed factors; given by columns or by formula), which without other regressors is the difference of mean changes. Its standard error is the requested robust, clustered or classical one, and t, p and interval follow with the residual degrees of freedom. Data without variation in treatment or time are rejected.",
  ["inputs", "configurations"], "all data sets with binary treatment and time, covariates, fixed effects, absorbed factors, clusters, formula spellings, column names and labels",
  "tests use a few simulated data sets with loose tolerances; the identity must hold for unbalanced cells, ties, collinear regressors and any option mix",
  ["estimators.py", "linalg.py", "utils.py"], [("design matrix and focal index", "diff_diff/estimators.py: DifferenceInDifferences.fit"), ("formula parser", "diff_diff/estimators.py: _parse_formula")],
  ["DiDResults fields"]),
P("P03", "Two-way fixed effects: within regression, clustered inference, staggering alarm",
  "For every panel, balanced or not, the estimate and residuals are those of the least-squares regression of the outcome and covariates net of unit and period effects on the treatment-by-time product, with unit-clustered (or requested) standard errors and degrees of freedom reduced by the absorbed effects. A design in which the effect is not estimable is rejected. Units starting treatment at different times raise the staggered-timing warning, and nothing else does.",
  ["inputs"], "all panels with any missing cells, unit labels, covariates and cluster choices",
  "tests use one or two balanced panels; unbalanced panels and label types change the transformation",
  ["twfe.py", "utils.py"], [("two-way within transformation", "diff_diff/utils.py: within_transform"), ("regression and inference", "diff_diff/twfe.py: TwoWayFixedEffects.fit")],
  ["DiDResults fields", "warnings"]),
P("P04", "Multi-period DiD: one exact effect per post period and their average",
  "For every multi-period data set the estimator reports one effect for each post period (the caller's, or the later half of the periods) equal to its treatment-by-period coefficient relative to the pre periods, with the requested covariance. The average effect is their mean and its variance uses all their covariances; if any effect is not estimable the average is NaN. Unusable period arguments are rejected.",
  ["inputs", "configurations"], "all panels, period labels, post-period and reference choices, covariates, fixed effects, clusters",
  "tests sample one panel shape; the period bookkeeping depends on labels, gaps and order of the arguments",
  ["estimators.py"], [("period dummies and interactions", "diff_diff/estimators.py: MultiPeriodDiD.fit")], ["MultiPeriodDiDResults fields"]),
P("P06", "Wild cluster bootstrap inference",
  "For every clustered regression and weight type, the bootstrap replicates are least-squares refits with one mean-zero unit-variance multiplier per cluster; the reported standard error is the spread of the unrestricted replicates, the interval their percentiles, and the p-value the share of null-imposed t statistics at least as extreme as the original one, never zero. The same seed gives the same answer, weights are independent across clusters and draws, and too few clusters or a missing variable are rejected or warned about.",
  ["inputs", "schedules"], "all designs, cluster partitions, weight types, numbers of draws and seeds",
  "tests check ranges of p-values; which residuals are perturbed and which null is imposed is invisible to them",
  ["utils.py", "estimators.py", "twfe.py"], [("replicates and test statistic", "diff_diff/utils.py: wild_bootstrap_se"), ("integration", "diff_diff/estimators.py: _run_wild_bootstrap_inference")],
  ["WildBootstrapResults fields"]),
P("P07", "Group-time effects: the identified cells, base periods and controls",
  "For every staggered panel the group-time effects reported are exactly those whose base period, own period, cohort and admissible controls are observed, and each is the regression, weighting or doubly robust comparison of outcome changes between the cohort and the controls that are never treated (or not yet treated, when asked). Its standard error is that estimator's, and t, p and interval follow. Panels without never-treated units or without any identified cell are rejected.",
  ["inputs", "configurations"], "all staggered panels (any cohorts, gaps, missing cells, never-treated codes, covariates) and all combinations of control group, base period, anticipation and method",
  "tests use a handful of generated panels; off-by-one base periods or contaminated controls only show for particular cohorts and periods",
  ["staggered.py"], [("base periods, controls, valid cells", "diff_diff/staggered.py: CallawaySantAnna._compute_att_gt_fast, fit"), ("estimators", "diff_diff/staggered.py: _outcome_regression, _ipw_estimation, _doubly_robust")],
  ["CallawaySantAnnaResults.group_time_effects"]),
P("P08", "Aggregated effects and their influence-function variance",
  "The overall effect is the average of the post-adoption group-time effects by number of treated units, event-time effects average cohorts at equal time since adoption (restricted to balanced cohorts when asked), and group effects average a cohort's post-adoption effects. Each standard error is the root of the summed squared unit influences, for the overall effect including the estimated cohort shares. Without post-adoption effects the overall result is NaN throughout and warned about.",
  ["inputs", "configurations"], "all staggered panels, aggregation requests, balancing horizons, base periods and anticipation",
  "tests compare one panel with loose bounds; weights, cell selection and shared-unit covariances vary with the cohort structure",
  ["staggered_aggregation.py", "staggered.py"], [("aggregation", "diff_diff/staggered_aggregation.py: _aggregate_simple, _aggregate_event_study, _aggregate_by_group"), ("influence functions", "diff_diff/staggered_aggregation.py: _compute_aggregated_se_with_wif")],
  ["CallawaySantAnnaResults overall, event_study_effects, group_effects"]),
P("P09", "Multiplier bootstrap of the group-time effects",
  "Every bootstrap draw gives each unit one multiplier from the requested distribution and moves every group-time and aggregated effect by the weighted sum of unit influences with the same multipliers. Standard errors, percentile intervals and p-values (never zero) are those of the draws and replace the analytic ones while point estimates stay. The seed determines the draws.",
  ["schedules", "inputs"], "all panels, weight distributions, draws, seeds, ways to set the weights and aggregation requests",
  "tests only check that numbers are positive and finite; one joint set of multipliers across quantities is invisible to them",
  ["staggered_bootstrap.py", "staggered.py"], [("multipliers and draws", "diff_diff/staggered_bootstrap.py: _run_multiplier_bootstrap"), ("replacement of inference", "diff_diff/staggered.py: fit")],
  ["CSBootstrapResults, CallawaySantAnnaResults"]),
P("P10", "Sun-Abraham interaction-weighted event study",
  "For every staggered panel the cohort effects are the coefficients of the saturated cohort-by-event-time regression net of unit and period effects, with cluster-robust covariance; event-time effects weight them by cohort size and the overall effect weights event times from adoption by treated observations, with full covariances. Effects that are not estimable are NaN, not zero. Bootstrap draws are refits on whole resampled units and determine the reported inference.",
  ["inputs", "schedules"], "all staggered panels, row orders, indexes, clusters, anticipation and bootstrap seeds",
  "tests look at signs and rough magnitudes on two panels",
  ["sun_abraham.py"], [("saturated regression", "diff_diff/sun_abraham.py: _fit_saturated_regression"), ("weights", "diff_diff/sun_abraham.py: _compute_iw_effects, _compute_overall_att"), ("pairs bootstrap", "diff_diff/sun_abraham.py: _run_bootstrap")],
  ["SunAbrahamResults"]),
P("P11", "Goodman-Bacon decomposition adds up to the TWFE estimate",
  "For every staggered panel the decomposition lists each treated-versus-never, earlier-versus-later and later-versus-earlier comparison exactly once with its own two-by-two estimate and non-negative weights summing to one. On balanced panels the exact weights reproduce the two-way fixed effects coefficient to rounding, and reported shares and averages per type are those of the listed comparisons. Invalid panels are rejected or warned about.",
  ["inputs"], "all staggered panels (cohorts, periods, missing cells, never-treated codes, labels) and both weight schemes",
  "tests only compare sums of weights loosely on a few panels",
  ["bacon.py"], [("comparisons", "diff_diff/bacon.py: BaconDecomposition.fit, _compare_treated_vs_never, _compare_timing"), ("weights", "diff_diff/bacon.py: _recompute_exact_weights")],
  ["BaconDecompositionResults"]),
P("P12", "Synthetic difference-in-differences weights, effect and resampling",
  "For every balanced panel the unit weights solve the documented regularised simplex problem on the pre periods, time weights are a distribution over pre periods, and the effect is the weighted double difference. Placebo draws are effects of control units relabelled as treated and bootstrap draws are effects of resampled panels; the standard error is their spread and p-value and interval follow. Unusable panels and arguments are rejected.",
  ["inputs", "schedules"], "all balanced panels, regularisation values, numbers of draws and seeds",
  "tests check that weights sum to one and the estimate is near the truth on two panels",
  ["synthetic_did.py", "utils.py"], [("weights", "diff_diff/utils.py: compute_synthetic_weights, compute_time_weights, compute_sdid_estimator"), ("fit and resampling", "diff_diff/synthetic_did.py: SyntheticDiD.fit, _bootstrap_se, _placebo_variance_se")],
  ["SyntheticDiDResults"]),
P("P13", "Triple difference: three-way contrast by regression, weighting or both",
  "For every data set with all eight cells the estimate is the triple contrast of cell means, adjusted by outcome regression, propensity weighting or their doubly robust combination as requested. The methods agree without covariates, the doubly robust one stays correct when either model fits exactly, and standard errors ignore the outcome's location and respect the cluster variable. Missing cells and non-binary indicators are rejected.",
  ["inputs", "configurations"], "all repeated cross-sections or panels, methods, covariates, trimming values and clusters",
  "tests recover a known effect with wide tolerance; several wrong weightings pass them",
  ["triple_diff.py"], [("estimators", "diff_diff/triple_diff.py: _regression_adjustment, _ipw_estimation, _doubly_robust"), ("variance", "diff_diff/triple_diff.py: _compute_ipw_se, _se_from_influence")],
  ["TripleDifferenceResults"]),
P("P14", "TROP: cell effects from weighted two-way plus low-rank fits",
  "For every panel with an absorbing treatment the effect averages, over treated cells, the outcome minus its fitted untreated value from the weighted two-way and low-rank model on untreated cells (or is the common effect of the joint fit), with the documented exponential weights; penalties are those the leave-one-out search selects and their score is reported. Resampling estimates are those of the resampled or reduced panels with the same penalties, and standard error, p-value and interval follow from them. Unusable panels and options are rejected.",
  ["inputs", "configurations", "schedules"], "all panels (missing cells, staggered adoption), penalty grids including infinite ones, both methods and variance estimators, all resamples",
  "the listed tests do not run its test file at all, and that file checks signs, finiteness and loose recovery of one effect",
  ["trop.py"], [("weights and cell fits", "diff_diff/trop.py: _compute_observation_weights, _estimate_model"), ("joint fit", "diff_diff/trop.py: _compute_joint_weights, _solve_joint_no_lowrank, _solve_joint_with_lowrank"), ("search", "diff_diff/trop.py: _univariate_loocv_search, _cycling_parameter_search, _loocv_score_joint"), ("variance", "diff_diff/trop.py: _bootstrap_variance, _jackknife_variance and joint versions")],
  ["TROPResults"]),
P("P15", "HonestDiD: robust bounds, intervals and breakdown values",
  "For every event study, restriction and M the identified set is the estimate plus or minus the largest weighted post-period violation the restriction allows, and the interval adds the normal critical value times the standard error of the weighted post effects, taken from their own covariance block. Bounds never narrow as M grows, the breakdown value is the smallest M whose interval no longer excludes zero (none if there is none), on any grid and by direct search. Undefined intervals are never called significant and unusable inputs are rejected.",
  ["inputs", "configurations"], "all event studies (fitted or given, with or without covariance), restrictions, weights, levels, grids in any order",
  "tests use one mocked study with a diagonal covariance of exactly the post effects and check orderings, not values",
  ["honest_did.py"], [("extraction", "diff_diff/honest_did.py: _extract_event_study_params"), ("bounds", "diff_diff/honest_did.py: _solve_bounds_lp, _compute_clf_ci, _compute_flci"), ("breakdown", "diff_diff/honest_did.py: HonestDiD.sensitivity_analysis, _find_breakdown, breakdown_value")],
  ["HonestDiDResults", "SensitivityResults"]),
P("P16", "Pre-trends power: noncentral chi-square power and smallest detected violation",
  "For every event study with estimated pre-period effects the power against a violation M is the noncentral chi-square tail of the joint test with their covariance, alpha at M=0 and growing in |M|; the minimum detectable violation meets the target power exactly. Stored and refitted results, curves and the bridge to sensitivity analysis agree. Treatment names, custom shapes and set_params make no difference, and studies without pre-period effects are rejected.",
  ["inputs", "configurations"], "all event studies, violation shapes, levels, targets and violations",
  "tests use one study with a diagonal covariance and the column name the code hard-coded",
  ["pretrends.py"], [("extraction", "diff_diff/pretrends.py: PreTrendsPower._extract_pre_period_params"), ("power and mdv", "diff_diff/pretrends.py: _compute_power, _compute_mdv"), ("stored results", "diff_diff/pretrends.py: PreTrendsPowerResults.power_at")],
  ["PreTrendsPowerResults", "PreTrendsPowerCurve"]),
P("P17", "Power analysis: power, detectable effect and sample size are one relation",
  "For every design the reported power is the normal power of the documented variance, the minimum detectable effect reaches exactly the target and the sample size is the smallest at which the effect is detectable, capped at the maximum; curves and shorthands agree. Simulated power draws each data set with the requested parameters and its own seed, counts only successful fits, and summarises exactly their rejections, coverage, estimates and errors, for every supported estimator. It warns when many fits fail, raises when all do, and is reproduced by the seed.",
  ["inputs", "schedules", "faults"], "all designs, effects and alternatives; all sequences of failing, rejecting and covering simulations",
  "tests check monotonicity and loose agreement at one design, and simulate only one estimator without failures",
  ["power.py"], [("analytical", "diff_diff/power.py: PowerAnalysis._compute_variance, _compute_required_n, power, mde, sample_size"), ("simulation loop", "diff_diff/power.py: simulate_power")],
  ["PowerResults", "SimulationPowerResults"]),
P("P18", "Placebo diagnostics: timing, group, permutation and leave-one-out tests",
  "For every panel a placebo test is the difference-in-differences of the documented subset or relabelling, with inference at the requested level. Permutation draws are effects of equally likely reassignments of as many units, and the p-value, spread and interval are those of the draws; leave-one-out effects omit each treated unit once. An effect that does not exist gets no p-value, failures are warned about or raised, and the battery reports each single test.",
  ["inputs", "schedules"], "all panels (unbalanced, with missing cells, any labels), fake periods and groups, numbers of draws, seeds and levels",
  "tests check types and ranges on one balanced panel at the default level",
  ["diagnostics.py"], [("single tests", "diff_diff/diagnostics.py: placebo_timing_test, placebo_group_test, permutation_test, leave_one_out_test"), ("dispatch and battery", "diff_diff/diagnostics.py: run_placebo_test, run_all_placebo_tests")],
  ["PlaceboTestResults"]),
P("P19", "Parallel-trends checks: slopes, distributions of changes, equivalence",
  "For every panel the slope check compares least-squares pre-period slopes, the distribution check reports the exact Wasserstein and Kolmogorov-Smirnov distances of the groups' changes with a permutation p-value, and the equivalence check is a Welch two one-sided test. Conclusions follow from the reported numbers. With too little pre-treatment data the conclusion is undetermined, never plausible.",
  ["inputs"], "all panels (unbalanced, missing outcomes, row orders, labels), pre-period lists, margins, thresholds and seeds",
  "tests check that detected trends are detected on one large data set",
  ["utils.py"], [("slopes", "diff_diff/utils.py: check_parallel_trends"), ("distributions", "diff_diff/utils.py: check_parallel_trends_robust, _compute_outcome_changes"), ("equivalence", "diff_diff/utils.py: equivalence_test_trends")],
  ["returned dictionaries"]),
P("P20", "Data preparation: recodings, balancing, validation and control ranking",
  "For every table the preparation functions return exactly the documented recoding (indicators, long form, balanced panel, event time, cohorts), leave the input alone and keep every row they do not document dropping. Validation reports exactly the problems the data have, and summaries are the groups' moments. Control rankings and treatment candidates are scored by the documented distances over observed pre-treatment data, whatever the row order, gaps or labels.",
  ["inputs"], "all tables (missing cells and values, any index, labels and row order), methods, thresholds and requests; every 3x3 presence pattern for balancing",
  "tests use complete, sorted panels and check shapes, orderings and error messages",
  ["prep.py"], [("recodings", "diff_diff/prep.py: make_treatment_indicator, wide_to_long, balance_panel, create_event_time, aggregate_to_cohorts"), ("validation", "diff_diff/prep.py: validate_did_data, summarize_did_data"), ("ranking", "diff_diff/prep.py: rank_control_units, _compute_outcome_trend_scores, _suggest_treatment_candidates")],
  ["returned tables", "validation report"]),
P("P21", "Simulated data follow their declared model and true effects",
  "For every generator and parameters the data set has the declared shape, treatment assignment and true effects, and each row is the declared structure plus unit effect, factors, effect and noise, each scaling exactly with its own parameter. The same seed gives the same data whatever the global random state, and another seed gives other data. Estimators meant for the design recover the true effect exactly without noise; impossible parameters are rejected.",
  ["inputs"], "all six generators, parameter values and seeds",
  "tests check column names and loose recovery by one estimator per generator",
  ["prep_dgp.py"], [("generators", "diff_diff/prep_dgp.py: generate_did_data, generate_staggered_data, generate_factor_data, generate_ddd_data, generate_panel_data, generate_event_study_data")],
  ["generated tables"]),
P("P22", "Dataset loading: cache, fallback and built-in data under faults",
  "Whatever the history of loads, forced downloads, lost connections, truncated responses, full disks, crashes and cache clearing, a load returns a complete version that the source once served, or the built-in data, or an error where documented, and a partial file never enters the cache. Loading leaves the global random state alone. Tables have the documented columns, codings and types, however the source spells them.",
  ["histories", "fault_sequences", "crash_points"], "all histories of loads, faults and clears; all network and disk faults; all data sets and spellings of the source",
  "tests never touch the network or the cache beyond one mocked success",
  ["datasets.py"], [("cache and download", "diff_diff/datasets.py: _download_with_cache, clear_cache"), ("loaders", "diff_diff/datasets.py: load_card_krueger, load_castle_doctrine, load_divorce_laws, load_mpdta"), ("dispatch", "diff_diff/datasets.py: load_dataset, list_datasets")],
  ["returned tables", "files in the cache directory"],
  technique="TLA+ state machine of the dataset cache model-checked with TLC; its behaviours replayed with injected faults on the real loader and validated by TLC"),
P("P23", "Estimator objects: results depend on parameters and data, not on history",
  "For every history of set_params, fits, failing fits, clones, copies and reads, a fit returns what a fresh object with the parameters in force returns on those data, and failing calls change nothing. Parameters round-trip through get_params and set_params, which accepts exactly what the constructor accepts. Earlier results and input data are never altered, and fitted state is that of the last successful fit.",
  ["histories"], "all histories of calls on all eleven estimator classes, three configurations and data sets each",
  "tests call fit once per object and check parameters right after construction",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "synthetic_did.py", "triple_diff.py", "trop.py", "bacon.py", "honest_did.py", "pretrends.py"],
  [("parameters", "diff_diff/*.py: get_params, set_params"), ("fitted state", "diff_diff/*.py: fit, is_fitted_, results_")],
  ["results of fit", "get_params", "is_fitted_, results_, summary"],
  technique="TLA+ state machine of an estimator object model-checked with TLC; its histories replayed on every class and validated by TLC"),
P("P24", "Answers do not depend on how the data are presented",
  "For every analysis the answer is the same for every order of rows, index (duplicate labels included), order and names of columns, unrelated columns, unit labels, period labels and storage types, and the same again on a second call. Only answers built on random draws may follow the order of units. The input table and the global random state are left as they were.",
  ["inputs", "configurations"], "all data sets, analyses and chains of changes of presentation",
  "tests build tables in one order with a default index and one set of names",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "synthetic_did.py", "triple_diff.py", "trop.py", "bacon.py", "honest_did.py", "pretrends.py", "diagnostics.py", "utils.py", "prep.py"],
  [("within transformation and joins on the index", "diff_diff/utils.py: within_transform"), ("panel pivots", "diff_diff/staggered.py: _precompute_structures; diff_diff/synthetic_did.py: fit; diff_diff/trop.py: fit"), ("placebo relabelling", "diff_diff/diagnostics.py")],
  ["all result objects"],
  technique="TLA+ model of presentation steps model-checked with TLC; its chains replayed on every analysis and the answers compared by TLC"),
P("P25", "Answers follow the units and origin of the data",
  "Rescaling, negating or shifting the outcome rescales and negates effects, standard errors and intervals and leaves t statistics, p-values, weights and counts; adding a constant to treated cells adds it to the effects only. Unit or period effects leave the analyses that remove them unchanged, and covariates may be rescaled and shifted. Chains of such changes compose.",
  ["inputs", "configurations"], "all data sets, analyses and chains of changes, unless a penalty is fixed in units of the outcome",
  "tests use outcomes of one scale near zero",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "synthetic_did.py", "triple_diff.py", "trop.py", "bacon.py", "honest_did.py", "pretrends.py", "diagnostics.py", "utils.py", "linalg.py"],
  [("solver scaling", "diff_diff/linalg.py: solve_ols"), ("synthetic weights", "diff_diff/utils.py: compute_synthetic_weights"), ("estimators", "diff_diff/*.py: fit")],
  ["all result objects"],
  technique="TLA+ model of affine changes and their action on answers model-checked with TLC; its chains replayed on every analysis and the answers compared by TLC"),
P("P05", "Every estimate carries one coherent statement of its uncertainty",
  "In every result the t statistic, p-value, interval, verdict and stars follow from estimate and standard error under one reference distribution, normal or Student with the same degrees of freedom throughout, and nothing is claimed without a standard error. Asking for another significance level changes intervals and verdicts only, smaller levels giving wider intervals.",
  ["inputs", "configurations"], "all analyses, data sets and sequences of significance levels, robust intervals and pre-trend power included",
  "tests check single estimates at the default level",
  ["results.py", "staggered_results.py", "sun_abraham.py", "synthetic_did.py", "triple_diff.py", "trop.py", "diagnostics.py", "honest_did.py", "pretrends.py", "utils.py", "linalg.py"],
  [("p-values and intervals", "diff_diff/utils.py: compute_p_value, compute_confidence_interval"), ("coefficient inference", "diff_diff/linalg.py: InferenceResult, LinearRegression.get_inference"), ("verdicts", "diff_diff/results.py: is_significant, significance_stars")],
  ["all result objects"],
  technique="TLA+ model of significance levels model-checked with TLC; its level histories replayed on every analysis and validated by TLC"),
P("P27", "Every view of a result shows the numbers of the result",
  "Summary, printed summary, dictionary, tables and repr of every result show its own numbers, rounded to nearest, under the right labels, rows, stars and confidence level, with one row per estimate. Views can be read in any order and any number of times; reading changes nothing.",
  ["inputs", "configurations", "histories"], "all result classes, data, outcome scales, significance levels and orders of reading",
  "tests look for a few words in the summary and one or two keys",
  ["results.py", "staggered_results.py", "sun_abraham.py", "triple_diff.py", "trop.py", "diagnostics.py", "honest_did.py", "pretrends.py", "power.py", "bacon.py", "utils.py", "linalg.py"],
  [("text", "diff_diff/*.py: summary, print_summary, __repr__"), ("tables", "diff_diff/*.py: to_dict, to_dataframe, get_*_df, weight_by_type, effect_by_type, power_curve_df"), ("stars", "diff_diff/results.py: _get_significance_stars")],
  ["summary, print_summary, to_dict, to_dataframe, repr of every result class"],
  technique="TLA+ model of reading and rounding model-checked with TLC; its reading orders replayed on every result class and every number shown validated by TLC"),
P("P26", "Requests that cannot be honoured are refused, others are not",
  "An analysis whose request names an absent column, or whose named columns are not numbers, missing, unlabelled or without variation where it needs them, or whose design identifies nothing, raises or reports no finite estimate, whatever else is wrong or right with the request. Faults in columns the request does not name change nothing, and inadmissible arguments are refused while admissible ones are answered.",
  ["inputs", "configurations"], "all analyses, sets of data faults at any row, argument combinations",
  "tests try one fault at a time on a few estimators; a check skipped for one option, fault position or combination lets a meaningless number through",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "triple_diff.py", "synthetic_did.py", "trop.py", "diagnostics.py", "honest_did.py", "pretrends.py", "power.py", "bacon.py", "prep.py", "prep_dgp.py", "linalg.py", "utils.py"],
  [("validation", "diff_diff/estimators.py: _validate_data, _parse_formula; diff_diff/utils.py: validate_binary; diff_diff/*.py: fit"), ("argument checks", "diff_diff/*.py: __init__; diff_diff/prep.py")],
  ["exceptions raised", "result fields"],
  technique="TLA+ model of requests and their faults model-checked with TLC; its fault sets and argument sets replayed on every analysis and validated by TLC"),
P("P28", "The compiled backend changes the speed, not the answers",
  "Whatever DIFF_DIFF_BACKEND says and whether the compiled extension is absent, complete or incomplete, the library settles on the documented mode and every analysis answers as in pure Python. Routines receive the caller's data, options and seed; when the extension gives up on numerical grounds or fails in a search, Python answers and warnings tell; other refusals reach the caller, and reduced-rank problems are never handed over.",
  ["configurations", "faults", "inputs"], "all values of the variable, states of the extension, replies to each routine in any order, and all analyses in both modes",
  "tests skip without the extension; with it they compare a few arrays and cannot make it fail",
  ["_backend.py", "linalg.py", "staggered_bootstrap.py", "utils.py", "trop.py"],
  [("mode", "diff_diff/_backend.py"), ("dispatch and fallback", "diff_diff/linalg.py: solve_ols, compute_robust_vcov"), ("searches and bootstraps", "diff_diff/trop.py: fit, _fit_joint, _bootstrap_variance, _bootstrap_variance_joint"), ("multipliers", "diff_diff/staggered_bootstrap.py: _generate_bootstrap_weights_batch"), ("synthetic weights", "diff_diff/utils.py: compute_synthetic_weights")],
  ["HAS_RUST_BACKEND", "result fields", "warnings"],
  technique="TLA+ model of mode choice and dispatch model-checked with TLC; its calls and replies replayed with a stand-in extension and validated by TLC"),
P("P29", "A figure shows the numbers of the analysis it is drawn from",
  "Every point, interval, band, line, bar, tick and legend entry of a plot stands at the value the result (or table) and the options give it, whatever is missing, unsorted, normalised or left out, and nothing else is drawn. Requests come in any order on new or shared axes, change neither results nor earlier layers, and what cannot be drawn is refused.",
  ["inputs", "configurations", "histories"], "all plot functions, results, tables, options and sequences of requests on new and shared axes",
  "tests check that axes come back, not what is on them",
  ["visualization.py"],
  [("event studies", "diff_diff/visualization.py: plot_event_study, _extract_plot_data, plot_honest_event_study"), ("others", "diff_diff/visualization.py: plot_group_effects, plot_sensitivity, plot_bacon, plot_power_curve, plot_pretrends_power")],
  ["artists of the returned axes", "exceptions raised"],
  technique="TLA+ model of layers on figures model-checked with TLC; its sequences replayed with matplotlib and the artists read back validated by TLC"),
P("P30", "The building blocks work alone as they do inside the estimators",
  "Demeaned columns are net of the means of one factor, or of unit and period effects, on any table, balanced or not; the caller's table changes only when asked and chains compose. Synthetic weights, placebo effects, p-values, intervals, coding checks and the accessors of a fitted regression answer exactly what the matrices and arguments imply, and what is not fitted or not there is refused.",
  ["inputs", "configurations", "histories"], "all tables, factors, suffixes, orders and lengths of demeaning chains, matrices and arguments",
  "tests call each helper once on a balanced table",
  ["utils.py", "linalg.py", "results.py"],
  [("demeaning", "diff_diff/utils.py: demean_by_group, within_transform"), ("matrices", "diff_diff/utils.py: compute_synthetic_weights, compute_time_weights, compute_sdid_estimator, compute_placebo_effects"), ("accessors", "diff_diff/linalg.py: LinearRegression.get_inference_batch, predict, r_squared; diff_diff/results.py: MultiPeriodDiDResults.get_effect")],
  ["returned tables, arrays and numbers", "the caller's table", "exceptions raised"],
  technique="TLA+ model of demeaning chains model-checked with TLC; its chains replayed on random tables and every column validated by TLC in exact arithmetic"),
P("P31", "Answers depend on what the sample says, not on its size",
  "If every unit occurs m times, estimates, weights, shares and fits stay the same, counts multiply and variances fall by about m, however large the sample gets. Units of another adoption date or a later period leave the effect of a cohort in a period as it was wherever that effect is identified from its own cohort and the never treated.",
  ["inputs", "configurations"], "all data sets, deterministic analyses and chains of growth of the sample",
  "tests use one sample of one size",
  ["estimators.py", "twfe.py", "staggered.py", "staggered_aggregation.py", "sun_abraham.py", "triple_diff.py", "bacon.py", "honest_did.py", "diagnostics.py", "utils.py", "linalg.py"],
  [("estimators", "diff_diff/*.py: fit"), ("group-time cells", "diff_diff/staggered.py: _compute_att_gt_fast"), ("covariances", "diff_diff/linalg.py: compute_robust_vcov")],
  ["all result objects"],
  technique="TLA+ model of growing samples model-checked with TLC; its chains replayed on every analysis and the answers compared by TLC"),
P("P32", "Analyses running at the same time do not disturb each other",
  "Two analyses on their own data, each with its own estimator, answer exactly what they answer alone, wherever in the library's code one is interrupted and the other goes on, resampling with a seed included; neither changes the other's data or outcome.",
  ["schedules", "inputs"], "all pairs of analyses and all points at which they take turns",
  "tests run one analysis at a time",
  ["estimators.py", "twfe.py", "staggered.py", "staggered_bootstrap.py", "sun_abraham.py", "synthetic_did.py", "trop.py", "triple_diff.py", "bacon.py", "honest_did.py", "pretrends.py", "diagnostics.py", "utils.py", "linalg.py"],
  [("estimators", "diff_diff/*.py: fit"), ("shared helpers", "diff_diff/linalg.py, diff_diff/utils.py"), ("state", "module and class attributes, random generators")],
  ["all result objects", "the callers' data", "exceptions raised"],
  technique="TLA+ model of two interleaved analyses model-checked with TLC; its schedules replayed with two threads that hand over inside the library, answers compared by TLC"),
]
