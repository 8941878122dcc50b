---------------------------- MODULE RequestModel ----------------------------
(***************************************************************************)
(* What an analysis asks of its data and arguments.                        *)
(*                                                                         *)
(* A request is a sound one with a set of faults put into it: a column     *)
(* gone, one missing, infinite or textual value, an indicator with other   *)
(* labels or without variation, a design that identifies nothing, a table  *)
(* that is no table.  Each fault is one of                                 *)
(*   refuse    the analysis must raise                                     *)
(*   nonumber  it must raise or report no finite estimate                  *)
(*   harmless  it touches nothing the request names: same answer           *)
(*   any       nothing is promised                                         *)
(* and a set of faults is refused as soon as one of them is.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
DiD == {"did", "did.cov", "did.hom", "did.cluster", "did.fe", "did.absorb", "did.wild"}
TWFE == {"twfe", "twfe.cov", "twfe.cluster", "twfe.wild"}
MP == {"mp", "mp.cov", "mp.cluster", "mp.fe", "mp.absorb", "honest.mp"}
CSEst == {"cs.reg", "cs.reg.nyt", "cs.dr.cov", "cs.ipw", "cs.ipw.cov", "cs.reg.cov", "cs.ant", "cs.bal", "cs.boot", "cs.boot.webb"}
CS == CSEst \cup {"honest.cs", "pretrends"}
SA == {"sa", "sa.cov", "sa.cluster", "sa.ant", "sa.boot"}
Bacon == {"bacon", "bacon.exact"}
TD == {"td.reg", "td.ipw", "td.dr", "td.dr.nocov", "td.reg.hom"}
SDID == {"sdid.placebo", "sdid.boot", "sdid.reg", "sdid.cov"}
Trop == {"trop", "trop.dim", "trop.joint", "trop.joint.nn"}
Refit == {"placebo.perm", "placebo.loo"}
Trends == {"pt.slopes", "pt.robust", "pt.equiv"}
Runs == DiD \cup TWFE \cup MP \cup CS \cup SA \cup Bacon \cup TD \cup SDID \cup Trop \cup Refit \cup Trends \cup {"placebo.timing", "placebo.group", "rank"}
Covs == {"did.cov", "did.fe", "did.absorb", "twfe.cov", "mp.cov", "cs.dr.cov", "cs.ipw.cov", "cs.reg.cov", "sa.cov", "td.reg", "td.ipw", "td.dr", "td.reg.hom", "sdid.cov"}
(* the columns a request names *)
Uses(run) ==
  (CASE run \in DiD -> {"y", "d", "post"} [] run \in TWFE -> {"y", "d", "post", "unit"} [] run \in MP -> {"y", "d", "time"}
     [] run \in CS \cup SA \cup Bacon -> {"y", "unit", "time", "ft"} [] run \in TD -> {"y", "d", "part", "post"} [] run \in SDID -> {"y", "d", "unit", "time"}
     [] run \in Trop -> {"y", "dp", "unit", "time"} [] run \in Refit -> {"y", "d", "post", "unit"} [] run = "placebo.timing" -> {"y", "d", "time"}
     [] run = "placebo.group" -> {"y", "unit", "time"} [] run = "pt.slopes" -> {"y", "d", "time"} [] OTHER -> {"y", "d", "time", "unit"})
  \cup (IF run \in Covs THEN {"x"} ELSE {})
  \cup (IF run \in {"did.fe", "mp.fe", "twfe.cluster", "sa.cluster"} THEN {"region"} ELSE {})
  \cup (IF run \in {"did.cluster", "did.wild", "did.absorb", "mp.cluster", "mp.absorb", "honest.mp", "td.dr.nocov"} THEN {"unit"} ELSE {})
Cols == {"unit", "time", "y", "x", "d", "post", "ft", "dp", "part", "region"}
Indicators == {"d", "post", "part", "dp"}
Faults == { [kind |-> "drop", col |-> c] : c \in Cols } \cup { [kind |-> k, col |-> c] : k \in {"nan"}, c \in Cols \ {"unit", "region"} }
          \cup { [kind |-> k, col |-> c] : k \in {"inf", "str"}, c \in {"y", "x"} }
          \cup { [kind |-> k, col |-> c] : k \in {"two", "three", "all0", "all1"}, c \in Indicators }
          \cup { [kind |-> k, col |-> "ft"] : k \in {"never", "always", "late"} } \cup { [kind |-> k, col |-> "dp"] : k \in {"recede", "early", "stagger"} }
          \cup { [kind |-> k, col |-> "*"] : k \in {"empty", "list", "unbalanced", "nocell"} }
(* estimators that look through their columns before they start *)
Strict == DiD \cup MP \cup Refit
(* numbers go through the least-squares solver, which takes finite ones only *)
Solver == Strict \cup TWFE \cup SA \cup {"td.reg", "td.reg.hom"}
Refuses(run, f) ==
  CASE f.kind = "drop" -> f.col \in Uses(run)
    [] f.kind = "list" -> TRUE
    [] f.kind = "empty" -> run \notin Trends
    [] f.kind = "str" -> f.col = "y" \/ (f.col = "x" /\ run \in Covs)
    [] f.kind = "nan" -> \/ f.col \in Uses(run) /\ f.col \in {"y", "d", "post", "time", "part", "x"} /\ run \in Strict \cup TWFE \cup TD
                         \/ run \in SA /\ f.col \in {"y", "x"} \cap Uses(run)
                         \/ run \in SDID /\ f.col \in {"y", "time"}
    [] f.kind = "inf" -> f.col \in Uses(run) /\ (run \in Solver \/ (run \in SDID /\ f.col = "y"))
    [] f.kind \in {"two", "three"} -> \/ f.col \in Uses(run) /\ run \in DiD \cup MP \cup Refit \cup TD \cup SDID
                                      \/ f.kind = "two" /\ (run \in {"placebo.timing", "rank"} /\ f.col = "d")
                                      \/ f.kind = "two" /\ (run \in Trop /\ f.col = "dp")
    [] f.kind = "all0" -> \/ f.col \in Uses(run) /\ run \in DiD \cup MP \cup Refit \cup TD \cup SDID \cup Trop \cup TWFE \cup {"placebo.timing", "rank"}
    [] f.kind = "all1" -> f.col \in Uses(run) /\ run \in DiD \cup MP \cup Refit \cup TD \cup SDID \cup Trop \cup {"placebo.timing", "rank"}
    [] f.kind \in {"never", "always"} -> run \in CS \cup SA
    [] f.kind \in {"recede", "early"} -> run \in Trop
    [] f.kind = "stagger" -> run \in {"trop.joint", "trop.joint.nn"}
    [] f.kind = "unbalanced" -> run \in SDID
    [] f.kind = "nocell" -> run \in TD
    [] OTHER -> FALSE
NoNumber(run, f) == \/ f.kind = "late" /\ run \in CSEst \cup SA
                    \/ f.kind = "inf" /\ f.col \in Uses(run) /\ run \in {"td.ipw", "td.dr", "td.dr.nocov"}
Harmless(run, f) == f.col # "*" /\ f.col \notin Uses(run)
(* one fault per column; an empty table has no cells to spoil, and a row taken out may be the one a design fault lives in *)
Distinct(fs) == \A f, g \in fs : f # g => f.col # g.col /\ (f.kind = "empty" => g.kind = "drop")
                                                      /\ (f.kind \in {"unbalanced", "nocell"} => g.kind \notin {"recede", "early", "stagger"})
Expect(run, fs) == IF \E f \in fs : Refuses(run, f) THEN "refuse"
                   ELSE IF \A f \in fs : Harmless(run, f) THEN "harmless"
                   ELSE IF \A f \in fs : Harmless(run, f) \/ NoNumber(run, f) THEN "nonumber" ELSE "any"
---------------------------------------------------------------------------
(* arguments: <<call, argument, value, admissible>> *)
ArgTable == <<
  <<"did", "formula", "no_tilde", FALSE>>, <<"did", "formula", "no_interaction", FALSE>>, <<"did", "formula", "triple", FALSE>>, <<"did", "formula", "absent", FALSE>>, <<"did", "formula", "absent_cov", FALSE>>,
  <<"did", "formula", "star", TRUE>>, <<"did", "formula", "colon", TRUE>>, <<"did", "formula", "with_cov", TRUE>>,
  <<"did", "fixed_effects", "unknown", FALSE>>, <<"did", "fixed_effects", "region", TRUE>>, <<"did", "absorb", "unknown", FALSE>>, <<"did", "absorb", "unit", TRUE>>,
  <<"did", "covariates", "unknown", FALSE>>, <<"did", "covariates", "x", TRUE>>, <<"did", "action", "bogus", FALSE>>, <<"did", "action", "silent", TRUE>>, <<"did", "cluster", "unknown", FALSE>>, <<"did", "cluster", "unit", TRUE>>,
  <<"did.args", "outcome", "none", FALSE>>, <<"did.args", "treatment", "none", FALSE>>, <<"did.args", "time", "none", FALSE>>,
  <<"mp", "posts", "unknown", FALSE>>, <<"mp", "posts", "every", FALSE>>, <<"mp", "posts", "none", FALSE>>, <<"mp", "posts", "last", TRUE>>, <<"mp", "ref", "unknown", FALSE>>, <<"mp", "ref", "first", TRUE>>,
  <<"mp", "fixed_effects", "unknown", FALSE>>, <<"mp", "absorb", "unknown", FALSE>>, <<"mp", "covariates", "unknown", FALSE>>, <<"mp", "absorb", "unit", TRUE>>,
  <<"cs", "control_group", "bogus", FALSE>>, <<"cs", "estimation_method", "bogus", FALSE>>, <<"cs", "base_period", "bogus", FALSE>>, <<"cs", "bootstrap_weights", "bogus", FALSE>>, <<"cs", "action", "bogus", FALSE>>, <<"cs", "covariates", "unknown", FALSE>>,
  <<"cs", "control_group", "not_yet_treated", TRUE>>, <<"cs", "estimation_method", "ipw", TRUE>>, <<"cs", "base_period", "universal", TRUE>>, <<"cs", "bootstrap_weights", "webb", TRUE>>,
  <<"sa", "control_group", "bogus", FALSE>>, <<"sa", "action", "bogus", FALSE>>, <<"sa", "covariates", "unknown", FALSE>>, <<"sa", "control_group", "not_yet_treated", TRUE>>,
  <<"sdid", "variance_method", "bogus", FALSE>>, <<"sdid", "posts", "unknown", FALSE>>, <<"sdid", "posts", "every", FALSE>>, <<"sdid", "posts", "none", FALSE>>, <<"sdid", "posts", "last", TRUE>>, <<"sdid", "variance_method", "bootstrap", TRUE>>,
  <<"td", "estimation_method", "bogus", FALSE>>, <<"td", "action", "bogus", FALSE>>, <<"td", "covariates", "unknown", FALSE>>, <<"td", "cluster", "unknown", FALSE>>, <<"td", "estimation_method", "ipw", TRUE>>,
  <<"trop", "method", "bogus", FALSE>>, <<"trop", "variance_method", "bogus", FALSE>>, <<"trop", "method", "joint", TRUE>>, <<"trop", "variance_method", "jackknife", TRUE>>,
  <<"bacon", "weights", "bogus", FALSE>>, <<"bacon", "weights", "exact", TRUE>>,
  <<"honest", "method", "bogus", FALSE>>, <<"honest", "M", "negative", FALSE>>, <<"honest", "alpha", "zero", FALSE>>, <<"honest", "alpha", "above_one", FALSE>>, <<"honest", "l_vec", "long", FALSE>>, <<"honest", "results", "did", FALSE>>, <<"honest", "results", "no_event_study", FALSE>>,
  <<"honest", "method", "smoothness", TRUE>>, <<"honest", "M", "zero", TRUE>>, <<"honest", "alpha", "tenth", TRUE>>, <<"honest", "results", "cs", TRUE>>,
  <<"pretrends", "alpha", "zero", FALSE>>, <<"pretrends", "alpha", "above_one", FALSE>>, <<"pretrends", "power", "one", FALSE>>, <<"pretrends", "power", "negative", FALSE>>, <<"pretrends", "type", "bogus", FALSE>>, <<"pretrends", "type", "custom_without_weights", FALSE>>, <<"pretrends", "type", "custom_wrong_length", FALSE>>,
  <<"pretrends", "results", "did", FALSE>>, <<"pretrends", "results", "no_event_study", FALSE>>, <<"pretrends", "type", "last_period", TRUE>>, <<"pretrends", "alpha", "tenth", TRUE>>, <<"pretrends", "power", "half", TRUE>>, <<"pretrends", "results", "sa", TRUE>>,
  <<"power", "alpha", "zero", FALSE>>, <<"power", "alpha", "above_one", FALSE>>, <<"power", "power", "one", FALSE>>, <<"power", "alternative", "bogus", FALSE>>, <<"power", "alternative", "greater", TRUE>>, <<"power", "alpha", "tenth", TRUE>>,
  <<"placebo", "test_type", "bogus", FALSE>>, <<"placebo", "test_type", "group_without_unit", FALSE>>, <<"placebo", "test_type", "group_without_units", FALSE>>, <<"placebo", "test_type", "permutation_without_unit", FALSE>>, <<"placebo", "test_type", "loo_without_unit", FALSE>>,
  <<"placebo", "test_type", "timing_in_post", FALSE>>, <<"placebo", "test_type", "permutation", TRUE>>,
  <<"treatment_indicator", "rule", "both", FALSE>>, <<"treatment_indicator", "rule", "neither", FALSE>>, <<"treatment_indicator", "column", "unknown", FALSE>>, <<"treatment_indicator", "rule", "threshold", TRUE>>, <<"treatment_indicator", "column", "x", TRUE>>,
  <<"post_indicator", "rule", "both", FALSE>>, <<"post_indicator", "rule", "neither", FALSE>>, <<"post_indicator", "column", "unknown", FALSE>>, <<"post_indicator", "rule", "start", TRUE>>,
  <<"wide_to_long", "values", "empty", FALSE>>, <<"wide_to_long", "values", "unknown", FALSE>>, <<"wide_to_long", "id", "unknown", FALSE>>, <<"wide_to_long", "times", "short", FALSE>>, <<"wide_to_long", "times", "given", TRUE>>,
  <<"balance_panel", "unit", "unknown", FALSE>>, <<"balance_panel", "time", "unknown", FALSE>>, <<"balance_panel", "method", "bogus", FALSE>>, <<"balance_panel", "method", "outer", TRUE>>, <<"balance_panel", "method", "fill", TRUE>>,
  <<"event_time", "time", "unknown", FALSE>>, <<"event_time", "treat", "unknown", FALSE>>,
  <<"rank", "outcome_weight", "above_one", FALSE>>, <<"rank", "outcome_weight", "negative", FALSE>>, <<"rank", "covariate_weight", "above_one", FALSE>>, <<"rank", "treated", "both", FALSE>>, <<"rank", "treated", "none", FALSE>>, <<"rank", "units", "required_and_excluded", FALSE>>, <<"rank", "units", "all_excluded", FALSE>>, <<"rank", "covariates", "unknown", FALSE>>, <<"rank", "pre", "absent", FALSE>>,
  <<"rank", "treated", "units", TRUE>>, <<"rank", "covariates", "x", TRUE>>, <<"rank", "units", "required", TRUE>>,
  <<"dgp.staggered", "cohorts", "zero", FALSE>>, <<"dgp.staggered", "cohorts", "beyond", FALSE>>, <<"dgp.staggered", "cohorts", "inside", TRUE>>,
  <<"dgp.factor", "n_treated", "above", FALSE>>, <<"dgp.factor", "n_treated", "zero", FALSE>>, <<"dgp.factor", "n_treated", "one", TRUE>>,
  <<"dgp.panel", "period", "zero", FALSE>>, <<"dgp.panel", "period", "beyond", FALSE>>, <<"dgp.panel", "period", "one", TRUE>>,
  <<"ols", "X", "flat", FALSE>>, <<"ols", "y", "deep", FALSE>>, <<"ols", "y", "short", FALSE>>, <<"ols", "X", "wide", FALSE>>, <<"ols", "action", "bogus", FALSE>>, <<"ols", "y", "nan", FALSE>>, <<"ols", "X", "inf", FALSE>>, <<"ols", "X", "collinear", TRUE>>, <<"ols", "cluster", "single", FALSE>>, <<"ols", "cluster", "two", TRUE>>,
  <<"dataset", "name", "unknown", FALSE>>, <<"sa.frame", "level", "bogus", FALSE>>, <<"sa.frame", "level", "event_study", TRUE>>,
  <<"cs.frame", "level", "bogus", FALSE>>, <<"cs.frame", "level", "not_computed", FALSE>>, <<"cs.frame", "level", "group_time", TRUE>> >>
Calls == { ArgTable[i][1] : i \in 1..Len(ArgTable) }
RowsOf(c) == { i \in 1..Len(ArgTable) : ArgTable[i][1] = c }
ArgSets(c) == {{}} \cup { {i} : i \in RowsOf(c) } \cup { {i, j} : i, j \in RowsOf(c) }
ArgDistinct(s) == \A i, j \in s : i # j => ArgTable[i][2] # ArgTable[j][2]
ArgExpect(s) == IF \E i \in s : ~ArgTable[i][4] THEN "refuse" ELSE "answer"
=============================================================================
