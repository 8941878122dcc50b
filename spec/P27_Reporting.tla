--------------------------- MODULE P27_Reporting ----------------------------
(***************************************************************************)
(* Every view of a result (summary, dictionary, tables, repr) shows the    *)
(* numbers of the result: what each view has to contain, by kind.          *)
(***************************************************************************)
EXTENDS ReportModel, TraceRun
L(label, attr) == [l |-> label, a |-> attr, must |-> TRUE]
M(label, attr) == [l |-> label, a |-> attr, must |-> FALSE]       \* shown only when it applies
Sizes == << L("Observations", "n_obs"), L("Treated units", "n_treated"), L("Control units", "n_control") >>
Labels(kind) ==
  CASE kind = "did" -> Sizes \o << L("R-squared", "r_squared"), M("Inference method", "inference_method"), M("Bootstrap replications", "n_bootstrap"), M("Number of clusters", "n_clusters") >>
    [] kind = "mp" -> << L("Observations", "n_obs"), L("Treated observations", "n_treated"), L("Control observations", "n_control"), L("Pre-treatment periods", "n_pre_periods"), L("Post-treatment periods", "n_post_periods"), L("R-squared", "r_squared") >>
    [] kind = "sdid" -> Sizes \o << L("Pre-treatment periods", "n_pre_periods"), L("Post-treatment periods", "n_post_periods"), L("Regularization (lambda)", "lambda_reg"), L("Pre-treatment fit (RMSE)", "pre_treatment_fit"), L("Variance method", "variance_method"), M("Bootstrap replications", "n_bootstrap") >>
    [] kind = "td" -> << L("Estimation method", "estimation_method"), L("Total observations", "n_obs"), L("Treated group, Eligible", "n_treated_eligible"), L("Treated group, Ineligible", "n_treated_ineligible"), L("Control group, Eligible", "n_control_eligible"), L("Control group, Ineligible", "n_control_ineligible"), L("R-squared", "r_squared"), M("Inference method", "inference_method"), M("Number of clusters", "n_clusters") >>
    [] kind = "trop" -> Sizes \o << L("Treated observations", "n_treated_obs"), L("Pre-treatment periods", "n_pre_periods"), L("Post-treatment periods", "n_post_periods"), L("Lambda (time decay)", "lambda_time"), L("Lambda (unit distance)", "lambda_unit"), L("Lambda (nuclear norm)", "lambda_nn"), L("Effective rank", "effective_rank"), L("LOOCV score", "loocv_score"), L("Variance method", "variance_method"), M("Bootstrap replications", "n_bootstrap") >>
    [] kind = "cs" -> << L("Total observations", "n_obs"), L("Treated units", "n_treated_units"), L("Control units", "n_control_units"), L("Treatment cohorts", "n_groups"), L("Time periods", "n_periods"), L("Control group", "control_group"), L("Base period", "base_period") >>
    [] kind = "sa" -> << L("Total observations", "n_obs"), L("Treated units", "n_treated_units"), L("Control units", "n_control_units"), L("Treatment cohorts", "n_groups"), L("Time periods", "n_periods"), L("Control group", "control_group") >>
    [] kind = "bacon" -> << L("Total observations", "n_obs"), L("Treatment timing groups", "n_timing_groups"), L("Never-treated units", "n_never_treated"), L("Total 2x2 comparisons", "n_comparisons"), L("TWFE Estimate", "twfe_estimate"), L("Decomposition Error", "decomposition_error") >>
    [] kind = "placebo" -> << L("Placebo effect", "placebo_effect"), L("Standard error", "se"), L("T-statistic", "t_stat"), L("P-value", "p_value"), L("Observations", "n_obs"), L("Original ATT", "original_effect"), M("Original SE", "original_se"), L("Number of permutations", "n_permutations"), L("Fake treatment period", "fake_period"), L("Units analyzed", "n_left_out") >>
    [] kind = "honest" -> << L("Restriction parameter (M)", "M"), L("CI method", "ci_method"), L("Point estimate", "original_estimate"), L("Standard error", "original_se") >>
    [] kind = "sens" -> << L("Method", "method"), L("Original estimate", "original_estimate"), L("Original SE", "original_se"), L("M values tested", "n_M"), L("Breakdown value", "breakdown_M") >>
    [] kind = "pretrends" -> << L("Number of pre-periods", "n_pre_periods"), L("Significance level (alpha)", "alpha"), L("Target power", "target_power"), L("Violation type", "violation_type"), L("Violation magnitude (M)", "violation_magnitude"), L("Power to detect this violation", "power"), L("Minimum detectable violation", "mdv"), L("Test statistic (expected)", "test_statistic"), L("Critical value", "critical_value"), L("Non-centrality parameter", "noncentrality") >>
    [] kind = "power" -> << L("Design", "design"), L("Significance level (alpha)", "alpha"), L("Alternative hypothesis", "alternative"), L("Treated units", "n_treated"), L("Control units", "n_control"), L("Total units", "n_total"), L("Pre-treatment periods", "n_pre"), L("Post-treatment periods", "n_post"), L("Residual SD (sigma)", "sigma"), L("Intra-cluster correlation", "rho"), L("Effect size", "effect_size"), L("Power", "power"), L("Minimum detectable effect", "mde"), L("Required sample size", "required_n") >>
    [] kind = "sim" -> << L("Estimator", "estimator_name"), L("Number of simulations", "n_simulations"), L("True treatment effect", "true_effect"), L("Significance level (alpha)", "alpha"), L("Power (rejection rate)", "power"), L("Standard error", "power_se"), L("Mean estimate", "mean_estimate"), L("Bias", "bias"), L("Std. deviation of estimates", "std_estimate"), L("RMSE", "rmse"), L("Mean standard error", "mean_se"), L("Coverage (CI contains true)", "coverage") >>
    [] kind = "wild" -> << L("Bootstrap SE", "se"), L("Bootstrap p-value", "p_value"), L("Original t-stat", "t_stat_original"), L("Number of clusters", "n_clusters"), L("Bootstrap reps", "n_bootstrap"), L("Weight type", "weight_type") >>
    [] OTHER -> <<>>
(* the interval a summary shows, and the keys of the dictionary *)
Interval(kind) == CASE kind = "mp" -> <<"avg_conf_int_lower", "avg_conf_int_upper">> [] kind = "honest" -> <<"ci_lb", "ci_ub">> [] kind = "wild" -> <<"ci_lower", "ci_upper">> [] kind = "sim" -> <<"power_ci_lower", "power_ci_upper">>
                    [] kind \in {"did", "sdid", "td", "trop", "cs", "sa", "placebo"} -> <<"conf_int_lower", "conf_int_upper">> [] OTHER -> <<>>
Five == {"se", "t_stat", "p_value", "conf_int_lower", "conf_int_upper"}
DictKeys(kind) ==
  CASE kind = "did" -> {"att", "n_obs", "n_treated", "n_control", "r_squared", "inference_method"} \cup Five
    [] kind = "mp" -> {"avg_att", "avg_se", "avg_t_stat", "avg_p_value", "avg_conf_int_lower", "avg_conf_int_upper", "n_obs", "n_treated", "n_control", "n_pre_periods", "n_post_periods", "r_squared"}
    [] kind = "sdid" -> {"att", "n_obs", "n_treated", "n_control", "n_pre_periods", "n_post_periods", "variance_method", "lambda_reg", "pre_treatment_fit"} \cup Five
    [] kind = "td" -> {"att", "n_obs", "n_treated_eligible", "n_treated_ineligible", "n_control_eligible", "n_control_ineligible", "estimation_method", "inference_method"} \cup Five
    [] kind = "trop" -> {"att", "n_obs", "n_treated", "n_control", "n_treated_obs", "n_pre_periods", "n_post_periods", "lambda_time", "lambda_unit", "lambda_nn", "effective_rank", "loocv_score", "variance_method"} \cup Five
    [] kind = "placebo" -> {"test_type", "placebo_effect", "n_obs", "is_significant"} \cup Five
    [] kind = "honest" -> {"lb", "ub", "ci_lb", "ci_ub", "M", "method", "original_estimate", "original_se", "alpha", "ci_method", "is_significant", "identified_set_width", "ci_width"}
    [] kind = "pretrends" -> {"power", "mdv", "violation_magnitude", "violation_type", "alpha", "target_power", "n_pre_periods", "test_statistic", "critical_value", "noncentrality", "is_informative", "power_adequate"}
    [] kind = "power" -> {"power", "mde", "required_n", "effect_size", "alpha", "alternative", "n_treated", "n_control", "n_pre", "n_post", "sigma", "rho", "design"}
    [] kind = "sim" -> {"power", "power_se", "power_ci_lower", "power_ci_upper", "rejection_rate", "mean_estimate", "std_estimate", "bias", "rmse", "mean_se", "coverage", "n_simulations", "true_effect", "alpha", "estimator_name"}
    [] kind = "linreg" -> {"coefficient", "df", "alpha"} \cup Five
    [] OTHER -> {}
ReprKeys(kind) ==
  CASE kind \in {"did", "td", "sdid", "trop"} -> { <<"ATT", "att">>, <<"SE", "se">>, <<"p", "p_value">> }
    [] kind = "mp" -> { <<"avg_ATT", "avg_att">>, <<"SE", "avg_se">>, <<"n_post_periods", "n_post_periods">> }
    [] kind = "cs" -> { <<"ATT", "overall_att">>, <<"SE", "overall_se">>, <<"n_groups", "n_groups">>, <<"n_periods", "n_periods">> }
    [] kind = "sa" -> { <<"ATT", "overall_att">>, <<"SE", "overall_se">>, <<"n_groups", "n_groups">>, <<"n_rel_periods", "n_rel_periods">> }
    [] kind = "bacon" -> { <<"TWFE", "twfe_estimate">>, <<"n_comparisons", "n_comparisons">>, <<"n_groups", "n_timing_groups">> }
    [] kind = "pretrends" -> { <<"power", "power">>, <<"mdv", "mdv">>, <<"M", "violation_magnitude">> }
    [] kind = "power" -> { <<"power", "power">>, <<"mde", "mde">>, <<"required_n", "required_n">> }
    [] kind = "sim" -> { <<"power", "power">>, <<"n_simulations", "n_simulations">> }
    [] OTHER -> {}
Ks(s) == { s[i].k : i \in 1..Len(s) }
At(s, k) == s[CHOOSE i \in 1..Len(s) : s[i].k = k]
AlikeN(x, y) == (IsFin(x) /\ IsFin(y) /\ Close(x, y, Nm("1e-12"), Zero)) \/ (~IsFin(x) /\ ~IsFin(y) /\ ToString(x) = ToString(y))
Blank(x) == x.t = "0" \/ (x.t = "n" /\ ToString(x.v) = "NaN")
Same(x, y) == IF Blank(x) \/ Blank(y) THEN Blank(x) /\ Blank(y) ELSE x.t = y.t /\ (IF x.t = "n" THEN AlikeN(x.v, y.v) ELSE x.s = y.s)
(* a piece of text for a value *)
Text(tk, x) == CASE x.t = "n" -> tk.dp >= 0 /\ ShownAs(tk.x, tk.dp, tk.pct, x.v) [] x.t = "0" -> TRUE [] OTHER -> tk.s = x.s \/ tk.s = ToString(x.s)
TextN(tk, v) == tk.dp >= 0 /\ ShownAs(tk.x, tk.dp, tk.pct, v)
Has(ev, a) == a \in Ks(ev.attrs) /\ At(ev.attrs, a).t # "0"
Sum(ev) == ev.summary
(* "None (always significant)" when there is no breakdown *)
LabelClauses(ev) == ForEach(Len(Labels(ev.kind)), LAMBDA i :
   LET r == Labels(ev.kind)[i] found == { j \in 1..Len(Sum(ev).labels) : Sum(ev).labels[j].l = r.l } IN
   IF ~Has(ev, r.a) THEN <<>>
   ELSE << CD("summary_has_the_line", ~r.must \/ found # {}, <<ev.kind, r.l>>),
           CD("summary_line_shows_the_value", \A j \in found : Text(Sum(ev).labels[j].toks[1], At(ev.attrs, r.a)), <<ev.kind, r.l, ToString(At(ev.attrs, r.a).v), { Sum(ev).labels[j].toks[1].s : j \in found }>>) >>)
Shown(ev) == SelectSeq(ev.ests, LAMBDA e : e.level \in {"main", "event_study", "group", "rows"} /\ e.name # "")
RowOf(e, r) == /\ r.name = e.name /\ Len(r.toks) = 4
               /\ TextN(r.toks[1], e.eff) /\ TextN(r.toks[2], e.se) /\ TextN(r.toks[3], e.t) /\ TextN(r.toks[4], e.p) /\ r.stars = Stars(e.p)
RowClauses(ev) ==
  When(ev.kind \in {"did", "td", "sdid", "trop", "mp", "cs", "sa"},
    << CD("one_row_per_estimate_in_order", [i \in 1..Len(Sum(ev).rows) |-> Sum(ev).rows[i].name] = [i \in 1..Len(Shown(ev)) |-> Shown(ev)[i].name], <<ev.kind, [i \in 1..Len(Sum(ev).rows) |-> Sum(ev).rows[i].name]>>) >>
    \o When(Len(Sum(ev).rows) = Len(Shown(ev)), ForEach(Len(Shown(ev)), LAMBDA i :
        << CD("row_shows_estimate_se_t_p_stars", RowOf(Shown(ev)[i], Sum(ev).rows[i]), <<ev.kind, Shown(ev)[i].name, ToString(Shown(ev)[i].eff), [j \in 1..Len(Sum(ev).rows[i].toks) |-> Sum(ev).rows[i].toks[j].s], Sum(ev).rows[i].stars>>) >>)))
IntervalClauses(ev) ==
  When(Interval(ev.kind) # <<>>,
    << CD("summary_shows_one_interval", Len(Sum(ev).cis) = 1, <<ev.kind, Len(Sum(ev).cis)>>) >>
    \o When(Len(Sum(ev).cis) = 1,
       LET c == Sum(ev).cis[1] lo == At(ev.attrs, Interval(ev.kind)[1]).v hi == At(ev.attrs, Interval(ev.kind)[2]).v
           level == IF ev.kind = "sim" THEN Nm(95) ELSE Nm(100) (.) (One (-) ev.alpha) IN
       << CD("interval_shown_is_the_interval", TextN(c.lo, lo) /\ TextN(c.hi, hi), <<ev.kind, c.lo.s, c.hi.s, ToString(lo), ToString(hi)>>),
          CD("level_shown_is_the_level_of_the_interval", Le(Abs(c.level.x (-) level), Nm("1e-6")), <<ev.kind, c.level.s, ToString(level)>>) >>))
Honest(ev) == When(ev.kind = "honest", LET s == { i \in 1..Len(Sum(ev).labels) : Sum(ev).labels[i].l = "Identified set" } r == { i \in 1..Len(Sum(ev).labels) : Sum(ev).labels[i].l = "Effect robust to violations" } IN
   << CD("summary_shows_the_identified_set", s # {} /\ \A i \in s : Len(Sum(ev).labels[i].toks) = 2 /\ TextN(Sum(ev).labels[i].toks[1], At(ev.attrs, "lb").v) /\ TextN(Sum(ev).labels[i].toks[2], At(ev.attrs, "ub").v), ev.kind),
      CD("summary_says_whether_robust", r # {} /\ \A i \in r : (Sum(ev).labels[i].toks[1].s = "Yes") = (At(ev.attrs, "is_significant").s = "True"), ev.kind) >>)
Placebo(ev) == When(ev.kind = "placebo",
   << CD("summary_says_whether_significant", (\E i \in 1..Len(Sum(ev).plain) : Sum(ev).plain[i] = "This suggests potential violations of the parallel trends assumption.") = (At(ev.attrs, "is_significant").s = "True"), ev.kind) >>)
SensRows(ev) == When(ev.kind = "sens",
   << CD("one_row_per_M", Len(Sum(ev).rows) = Len(ev.lists[1].want), <<Len(Sum(ev).rows), Len(ev.lists[1].want)>>) >>
   \o When(Len(Sum(ev).rows) = Len(ev.lists[1].want), ForEach(Len(Sum(ev).rows), LAMBDA i : LET w == ev.lists[1].want[i] r == Sum(ev).rows[i] IN
       << CD("row_shows_bounds_and_interval", Len(r.toks) = 4 /\ \A j \in 1..4 : TextN(r.toks[j], w[j + 1].v), <<i, r.name>>) >>)))
BaconRows(ev) == When(ev.kind = "bacon", ForEach(Len(Sum(ev).rows), LAMBDA i :
   LET r == Sum(ev).rows[i]
       k == CASE r.name = "Treated vs Never-treated" -> "treated_vs_never" [] r.name = "Earlier vs Later treated" -> "earlier_vs_later" [] r.name = "Later vs Earlier (forbidden)" -> "later_vs_earlier" [] OTHER -> "" IN
   IF k = "" THEN << CD("known_row", FALSE, r.name) >>
   ELSE LET w == At(ev.attrs, "total_weight_" \o k).v e == At(ev.attrs, "weighted_avg_" \o k).v IN
        << CD("row_shows_weight_effect_contribution", TextN(r.toks[1], w) /\ TextN(r.toks[2], e) /\ TextN(r.toks[3], w (.) e), <<r.name, ToString(w), ToString(e)>>) >>)
   \o << CD("a_row_per_type_with_weight", \A k \in {<<"Treated vs Never-treated", "total_weight_treated_vs_never">>, <<"Earlier vs Later treated", "total_weight_earlier_vs_later">>, <<"Later vs Earlier (forbidden)", "total_weight_later_vs_earlier">>} :
             (\E i \in 1..Len(Sum(ev).rows) : Sum(ev).rows[i].name = k[1]) = Lt(Zero, At(ev.attrs, k[2]).v), ev.kind) >>)
(* --- the sentences: a template with its numbers taken out, and the values they quote (from the end) --- *)
Val(ev, a) == At(ev.attrs, a).v
Says(ev, t, vals) == \E i \in 1..Len(Sum(ev).texts) : LET x == Sum(ev).texts[i] IN
   x.tpl = t /\ Len(x.toks) >= Len(vals) /\ \A j \in 1..Len(vals) : TextN(x.toks[Len(x.toks) - Len(vals) + j], vals[j])
Speaks(ev, t) == \E i \in 1..Len(Sum(ev).texts) : Sum(ev).texts[i].tpl = t
(* the sentence is there, with those numbers, exactly when it applies *)
Sentence(ev, applies, t, vals) == << CD("sentence_applies_and_quotes_the_values", IF applies THEN Says(ev, t, vals) ELSE ~Speaks(ev, t), <<ev.kind, t, applies, [j \in 1..Len(vals) |-> ToString(vals[j])]>>) >>
LabelIs(ev, l, v) == \E i \in 1..Len(Sum(ev).labels) : Sum(ev).labels[i].l = l /\ TextN(Sum(ev).labels[i].toks[1], v)
Line(ev, l, v) == << CD("line_shows_the_value", LabelIs(ev, l, v), <<ev.kind, l, ToString(v)>>) >>
Heavy == Nm("0.001")
(* the heaviest units, at most five, and how many carry weight at all *)
Top(ev) == SelectSeq(Sum(ev).labels, LAMBDA x : \E i \in 1..Len(ev.said.weights) : x.l = "Unit " \o ev.said.weights[i].unit)
WeightLines(ev) ==
  LET w == ev.said.weights
      heavy == { i \in 1..Len(w) : Lt(Heavy, w[i].w) }
      near == \E i \in 1..Len(w) : Close(w[i].w, Heavy, Nm("1e-9"), Nm("1e-9"))
      named == { i \in 1..Len(w) : \E j \in 1..Len(Top(ev)) : Top(ev)[j].l = "Unit " \o w[i].unit }
      min(a, b) == IF a < b THEN a ELSE b
  IN IF near THEN <<>> ELSE
     Sentence(ev, Len(w) > 0, "(@ units with weight > @)", << Nm(Cardinality(heavy)), Heavy >>)
     \o << CD("heaviest_units_shown", Len(Top(ev)) = min(5, Cardinality(heavy)) /\ Cardinality(named) = Len(Top(ev)) /\ named \subseteq heavy, <<Len(Top(ev)), Cardinality(heavy)>>),
           CD("no_heavier_unit_left_out", \A i \in heavy \ named : \A j \in named : Le(w[i].w, w[j].w), Cardinality(named)),
           CD("unit_line_shows_its_weight", \A j \in 1..Len(Top(ev)) : \A i \in named : Top(ev)[j].l = "Unit " \o w[i].unit => TextN(Top(ev)[j].toks[1], w[i].w), Len(Top(ev))) >>
RECURSIVE SumAll(_, _)
SumAll(s, i) == IF i = 0 THEN Zero ELSE s[i] (+) SumAll(s, i - 1)
MeanAll(s) == SumAll(s, Len(s)) (/) Nm(Len(s))
Types == << "treated_vs_never", "earlier_vs_later", "later_vs_earlier" >>
OrZero(v) == IF IsFin(v) THEN v ELSE Zero
Sentences(ev) ==
  CASE ev.kind = "sdid" -> WeightLines(ev)
    [] ev.kind = "td" -> ForEach(Len(ev.said.cells), LAMBDA i : Sentence(ev, TRUE, ev.said.cells[i].tpl, << ev.said.cells[i].v >>))
    [] ev.kind = "honest" ->
         LET m == Val(ev, "M") lo == Val(ev, "ci_lb") hi == Val(ev, "ci_ub") how == At(ev.attrs, "method").s IN
         Sentence(ev, how = "relative_magnitude", "Post-treatment violations bounded at @x max pre-period violation.", << m >>)
         \o Sentence(ev, how = "smoothness" /\ ~NumEq(m, Zero), "Violation curvature (second diff) bounded by @ per period.", << m >>)
         \o Sentence(ev, how = "smoothness" /\ NumEq(m, Zero), "Violations follow linear extrapolation of pre-trends.", << >>)
         \o Sentence(ev, how \notin {"relative_magnitude", "smoothness"}, "Combined smoothness (M=@) and relative magnitude bounds.", << m >>)
         \o Sentence(ev, Excludes(lo, hi) /\ Lt(Zero, lo), "Effect remains POSITIVE even with violations up to M=@.", << m >>)
         \o Sentence(ev, Excludes(lo, hi) /\ Lt(hi, Zero), "Effect remains NEGATIVE even with violations up to M=@.", << m >>)
         \o Sentence(ev, ~Excludes(lo, hi), "Cannot rule out zero effect when allowing violations up to M=@.", << m >>)
    [] ev.kind = "pretrends" ->
         LET p == Val(ev, "power") t == Val(ev, "target_power") ok == Le(t, p) IN
         Sentence(ev, ok, "Power (@) meets target (@).", << p, t >>) \o Sentence(ev, ok, "The pre-trends test would detect violations of magnitude @.", << Val(ev, "violation_magnitude") >>)
         \o Sentence(ev, ~ok, "Power (@) below target (@).", << p, t >>) \o Sentence(ev, ~ok, "Would need violations of @ to achieve @ power.", << Val(ev, "mdv"), t >>)
         \o Line(ev, "Minimum detectable violation (MDV)", Val(ev, "mdv"))
    [] ev.kind = "placebo" ->
         LET a == Val(ev, "alpha") sig == Below(Val(ev, "p_value"), a) e == ev.said.left_out IN
         Sentence(ev, sig, "WARNING: Significant placebo effect detected (p < @).", << a >>) \o Sentence(ev, ~sig, "No significant placebo effect detected (p >= @).", << a >>)
         \o When(Len(e) > 1 /\ (\A i \in 1..Len(e) : IsFin(e[i])),
              LET mu == MeanAll(e) v == MeanAll([i \in 1..Len(e) |-> Sq(e[i] (-) mu)]) (.) (Nm(Len(e)) (/) Nm(Len(e) - 1))
                  least == CHOOSE x \in {e[i] : i \in 1..Len(e)} : \A i \in 1..Len(e) : Le(x, e[i])
                  most == CHOOSE x \in {e[i] : i \in 1..Len(e)} : \A i \in 1..Len(e) : Le(e[i], x) IN
              Line(ev, "Mean effect", mu) \o Line(ev, "Std. dev.", Sqrt(v)) \o Line(ev, "Min effect", least) \o Line(ev, "Max effect", most))
    [] ev.kind = "sens" -> Sentence(ev, Has(ev, "breakdown_M"), "Result is robust to violations up to M = @", << IF Has(ev, "breakdown_M") THEN Val(ev, "breakdown_M") ELSE Zero >>)
         \o << CD("no_breakdown_is_said", (\E i \in 1..Len(Sum(ev).labels) : Sum(ev).labels[i].l = "Breakdown value" /\ Sum(ev).labels[i].toks[1].s = "None (always significant)") = ~Has(ev, "breakdown_M"), ev.kind) >>
    [] ev.kind = "bacon" ->
         LET w == [i \in 1..3 |-> Val(ev, "total_weight_" \o Types[i])] e == [i \in 1..3 |-> OrZero(Val(ev, "weighted_avg_" \o Types[i]))]
             total == SumAll([i \in 1..3 |-> w[i] (.) e[i]], 3) IN
         Line(ev, "Weighted Sum of 2x2 Estimates", total) \o Sentence(ev, TRUE, "Total @ @", << SumAll(w, 3), total >>)
         \o Sentence(ev, Lt(Nm("0.01"), w[3]), "WARNING: @ of weight is on 'forbidden' comparisons where", << w[3] >>)
    [] OTHER -> <<>>
Dict(ev) ==
  << CD("dictionary_has_its_keys", DictKeys(ev.kind) \subseteq Ks(ev.dict), <<ev.kind, DictKeys(ev.kind) \ Ks(ev.dict)>>) >>
  \o ForEach(Len(ev.dict), LAMBDA i : IF ev.dict[i].k \notin Ks(ev.attrs) THEN <<>> ELSE
       << CD("dictionary_shows_the_value", Same(ev.dict[i], At(ev.attrs, ev.dict[i].k)), <<ev.kind, ev.dict[i].k, ToString(ev.dict[i].v), ToString(At(ev.attrs, ev.dict[i].k).v)>>) >>)
Cols == << <<"effect", "eff">>, <<"se", "se">> >>
Frame(ev, f) ==
  CASE f.level = "one" -> << CD("table_is_the_dictionary", Len(f.rows) = 1 /\ Ks(f.rows[1]) = Ks(ev.dict) /\ \A i \in 1..Len(f.rows[1]) : Same(f.rows[1][i], At(ev.dict, f.rows[1][i].k)), ev.kind) >>
    [] f.level \in {"rows", "group_time", "event_study", "group", "cohort"} ->
       LET want == SelectSeq(ev.ests, LAMBDA e : e.level = f.level) IN
       << CD("table_has_a_row_per_estimate", Len(want) = Len(f.rows), <<ev.kind, f.level>>) >>
       \o ForEach(Len(want), LAMBDA i : LET e == want[i]
              hits == { j \in 1..Len(f.rows) : \A q \in 1..Len(e.keys) : e.keys[q].k \in Ks(f.rows[j]) /\ Same(e.keys[q], At(f.rows[j], e.keys[q].k)) } IN
            << CD("row_of_the_estimate", \E j \in hits : hits = {j}, <<ev.kind, f.level, e.name>>) >>
            \o When(\E j \in hits : hits = {j}, LET r == f.rows[CHOOSE j \in hits : TRUE]
                   is(c, x) == c \in Ks(r) /\ (IF At(r, c).t = "n" THEN AlikeN(At(r, c).v, x) ELSE ~IsFin(x)) IN
                << CD("row_shows_the_estimate", is("effect", e.eff) /\ is("se", e.se) /\ (~e.full \/ (is("t_stat", e.t) /\ is("p_value", e.p) /\ is("conf_int_lower", e.lo) /\ is("conf_int_upper", e.hi))), <<ev.kind, f.level, e.name>>) >>))
    [] OTHER -> <<>>
Lists(ev) == ForEach(Len(ev.lists), LAMBDA i : LET l == ev.lists[i]
     fits(w, g) == \A q \in 1..Len(w) : w[q].k \in Ks(g) /\ Same(w[q], At(g, w[q].k)) IN
  << CD("list_has_a_row_each", Len(l.want) = Len(l.got), <<ev.kind, l.name>>) >>
  \o When(Len(l.want) = Len(l.got), IF l.sorted
       THEN << CD("list_shows_the_values", \A j \in 1..Len(l.want) : \E h \in 1..Len(l.got) : fits(l.want[j], l.got[h]), <<ev.kind, l.name>>),
               CD("list_sorted_by_weight", \A h \in 1..(Len(l.got) - 1) : Le(At(l.got[h + 1], "weight").v, At(l.got[h], "weight").v), <<ev.kind, l.name>>) >>
       ELSE << CD("list_shows_the_values", \A j \in 1..Len(l.want) : fits(l.want[j], l.got[j]), <<ev.kind, l.name>>) >>))
Repr(ev) == << CD("repr_shows_its_values", \A k \in ReprKeys(ev.kind) : k[1] \in Ks(ev.repr) /\ Text(At(ev.repr, k[1]).tok, At(ev.attrs, k[2])), <<ev.kind, ToString(ev.repr)>>) >>
  \o When(ev.kind \in {"did", "td", "sdid", "trop", "mp", "cs", "sa"}, << CD("repr_shows_the_stars", \E i \in 1..Len(ev.repr) : ev.repr[i].k \in {"ATT", "avg_ATT"} /\ ev.repr[i].stars = At(ev.attrs, "significance_stars").s, <<ev.kind, ToString(ev.repr)>>) >>)
Clauses(ev) ==
  IF ev.kind = "none" THEN <<>>
  ELSE IF ev.other THEN IntervalClauses(ev)
  ELSE << CD("reading_changes_nothing", ~ev.changed, ev.kind), CD("views_read_the_same_every_time", ev.again = <<>>, <<ev.kind, ev.again>>), CD("print_shows_the_summary", ev.print_is_summary, ev.kind),
          CD("level_asked_is_kept", Close(ev.alpha, ev.asked, Nm("1e-12"), Zero), ev.kind) >>
       \o LabelClauses(ev) \o RowClauses(ev) \o IntervalClauses(ev) \o Honest(ev) \o Placebo(ev) \o SensRows(ev) \o BaconRows(ev) \o Dict(ev) \o Sentences(ev)
       \o ForEach(Len(ev.frames), LAMBDA i : Frame(ev, ev.frames[i])) \o Lists(ev) \o Repr(ev)
=============================================================================
