---------------------------- MODULE P28_Backend -----------------------------
(***************************************************************************)
(* The real library next to a stand-in for its compiled extension.         *)
(***************************************************************************)
EXTENDS BackendModel, SyntheticDiD, Sampling, TraceRun
CallOf(ev) == Call(ev.op, ev.rank, ev.skip, ev.vc, ev.reply)
SameSeq(a, b, rt) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : TolNum(a[i], b[i], rt, "1e-9")
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameSeq(a[i], b[i], "1e-12")
Bag(s) == { s[i] : i \in 1..Len(s) }
---------------------------------------------------------------------------
ModeClauses(ev) ==
  LET m == Mode(ev.env, ev.lib) IN
  << CD("forced_rust_without_extension_is_an_import_error", (m = "error") <=> (ev.raised # ""), <<ev.env, ev.lib, ev.raised>>),
     CD("import_error_class", ev.raised \in {"", "ImportError"}, <<ev.env, ev.lib, ev.raised>>),
     CD("mode_is_published", ev.raised # "" \/ ev.has = (IF m = "fast" THEN "True" ELSE "False"), <<ev.env, ev.lib, ev.has>>),
     CD("analysis_runs_in_this_mode", ev.ran = "", <<ev.env, ev.lib, ev.ran>>),
     CD("pure_python_leaves_the_extension_alone", m # "python" \/ ev.used = 0, <<ev.env, ev.lib, ev.used>>) >>
---------------------------------------------------------------------------
Partition(g, c) == Len(g) = Len(c) /\ \A i, j \in 1..Len(g) : (g[i] = g[j]) <=> (c[i] = c[j])
LinClauses(ev) ==
  LET o == Outcome("fast", CallOf(ev)) IN
  << CD("python_mode_answers", ev.raised0 = "", <<ev.op, ev.raised0>>),
     CD("refusals_reach_the_caller", (ev.raised # "") <=> o.raises, <<ev.op, ev.rank, ev.reply, ev.raised>>),
     CD("giving_up_is_told", (o.warn /\ ~o.raises) => ev.told > 0, <<ev.op, ev.rank, ev.reply>>),
     CD("same_answer_as_pure_python", ev.raised # "" \/ o.by \notin {"fast", "python"} \/ SameSeq(ev.b, ev.a, "1e-8"), <<ev.op, ev.rank, ev.reply, ev.skip>>),
     CD("reduced_rank_never_goes_to_the_extension", ~(ev.op = "ols" /\ ev.rank = "deficient") \/ ev.reached = 0, <<ev.op, ev.reached>>) >>
  \o When(ev.reached > 0,
  << CD("the_callers_design_is_handed_over", SameRows(ev.aX, ev.X), ev.op),
     CD("the_callers_outcome_is_handed_over", ev.op = "vcov" \/ SameSeq(ev.ay, ev.y, "1e-12"), ev.op),
     CD("the_callers_clusters_are_handed_over", (ToString(ev.g) = "\"null\"") = (ToString(ev.ag) = "\"null\"") /\ (ToString(ev.g) = "\"null\"" \/ Partition(ev.g, ev.ag)), <<ToString(ev.g), ToString(ev.ag)>>),
     CD("covariance_asked_for", ev.op = "vcov" \/ ev.avc = ev.vc, <<ev.vc, ev.avc>>) >>)
---------------------------------------------------------------------------
Column(m, j) == [t \in 1..Len(m) |-> m[t][j]]
Null(x) == ToString(x) = "\"null\""
IsInf(x) == ~IsFin(x) /\ ~IsNaN(x)
(* the panel handed over: every unit's outcomes and treatment, in period order *)
SameColumn(y1, d1, y2, d2) == Len(y1) = Len(y2) /\ \A t \in 1..Len(y1) : TolNum(y1[t], y2[t], "1e-12", "1e-12") /\ NumEq(Nm(d1[t]), Nm(d2[t]))
Panel(ev) == Len(ev.aY[1]) = Len(ev.Y[1]) /\ \A j \in 1..Len(ev.Y[1]) : \E k \in 1..Len(ev.aY[1]) : SameColumn(Column(ev.Y, j), Column(ev.D, j), Column(ev.aY, k), Column(ev.aD, k))
Mask(ev) == Null(ev.amask) \/ \A t \in 1..Len(ev.aD) : \A i \in 1..Len(ev.aD[t]) : NumEq(Nm(ev.amask[t][i]), IF NumEq(Nm(ev.aD[t][i]), Zero) THEN One ELSE Zero)
Dist(ev) == Null(ev.adist) \/ (Len(ev.adist) = Len(ev.Y) /\ \A t, s \in 1..Len(ev.adist) : NumEq(Nm(ev.adist[t][s]), Nm(IF t < s THEN s - t ELSE t - s)))
SameGrid(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NumEq(a[i], b[i])
(* an infinite penalty may be handed over as such or as what it stands for *)
SameLam(got, want, inf) == NumEq(got, want) \/ (IsInf(want) /\ NumEq(got, Nm(inf)))
SameFit(x, y) == /\ NumEq(x.lt, y.lt) /\ NumEq(x.lu, y.lu) /\ NumEq(x.ln, y.ln)
                 /\ TolNum(x.att, y.att, "1e-6", "1e-7") /\ TolNum(x.se, y.se, "1e-6", "1e-7") /\ TolNum(x.score, y.score, "1e-6", "1e-7")
TropClauses(ev) ==
  LET o == Outcome("fast", CallOf(ev)) loo == ev.op \in {"loo", "loojoint"} r == ev.fast IN
  IF Null(ev.full) \/ Null(ev.fix) THEN << CD("fast_mode_refuses_what_python_refuses", ev.raised # "", ev.raised0) >>
  ELSE << CD("fast_mode_answers", ev.raised = "", <<ev.op, ev.reply, ev.msg>>) >> \o When(ev.raised = "",
  << CD("failed_fits_are_told", o.warn => ev.told > 0, <<ev.op, ev.reply>>) >>
  \o When(loo /\ o.by = "fast", << CD("the_searchs_choice_is_used", NumEq(r.lt, ev.pick[1]) /\ NumEq(r.lu, ev.pick[2]) /\ NumEq(r.ln, ev.pick[3]), <<ev.op, ShowN(r.lt), ShowN(r.lu), ShowN(r.ln)>>),
                         CD("the_searchs_score_is_reported", TolNum(r.score, ev.score, "1e-9", "1e-12"), ShowN(r.score)),
                         CD("the_fit_is_the_one_at_that_choice", TolNum(r.att, ev.fix.att, "1e-6", "1e-7") /\ TolNum(r.se, ev.fix.se, "1e-6", "1e-7"), <<ShowN(r.att), ShowN(ev.fix.att)>>) >>)
  \o When(loo /\ o.by = "python", << CD("a_failed_search_is_repeated_in_python", SameFit(r, ev.full), <<ev.op, ev.reply, ShowN(r.att), ShowN(ev.full.att), ShowN(r.score)>>) >>)
  \o When(~loo /\ o.by = "fast", << CD("the_draws_are_those_returned", SameSeq(r.draws, ev.draws, "1e-12") /\ TolNum(r.se, StdQ(ev.draws, 1), "1e-9", "1e-12"), <<ev.op, ShowN(r.se)>>),
                          CD("the_estimate_does_not_depend_on_them", TolNum(r.att, ev.full.att, "1e-6", "1e-7"), ShowN(r.att)) >>)
  \o When(~loo /\ o.by = "python", << CD("a_failed_bootstrap_is_repeated_in_python", SameFit(r, ev.full) /\ SameSeq(r.draws, ev.full.draws, "1e-7"), <<ev.op, ev.reply, ShowN(r.se), ShowN(ev.full.se)>>) >>)
  \o When(o.by = "undefined", << CD("no_draws_no_p_value", IsNaN(r.p), ShowN(r.p)) >>)
  \o When(ev.reached > 0,
     << CD("the_panel_is_handed_over", Panel(ev), ev.op),
        CD("the_untreated_cells_are_handed_over", Mask(ev), ev.op), CD("period_distances_are_handed_over", Dist(ev), ev.op),
        CD("the_iteration_limits_are_handed_over", ev.ait = ev.it /\ NumEq(ev.atol, ev.tol) /\ ev.aseed = ev.seed, <<ev.ait, ev.aseed, ev.seed>>) >>
     \o (IF loo THEN << CD("the_grids_are_handed_over", SameGrid(ev.agt, ev.gt) /\ SameGrid(ev.agu, ev.gu) /\ SameGrid(ev.agn, ev.gn) /\ ev.amx = ev.mx, ev.op) >>
         ELSE << CD("the_penalties_are_handed_over", SameLam(ev.alam[1], ev.pick[1], "0") /\ SameLam(ev.alam[2], ev.pick[2], "0") /\ SameLam(ev.alam[3], ev.pick[3], "10000000000"), <<ShowN(ev.alam[1]), ShowN(ev.alam[2]), ShowN(ev.alam[3])>>),
                 CD("the_number_of_draws_is_handed_over", ev.aB = ev.B, ev.aB) >>)))
---------------------------------------------------------------------------
Void(x) == x.role = "flag" \/ (x.role \in {"t", "p"} /\ (~IsFin(x.g) \/ Lt(x.g, Nm("1e-7"))))
SameVal(ev, x, y) == LET rt == IF ev.loose THEN "1e-4" ELSE "1e-7" at == IF ev.loose THEN "1e-5" ELSE "1e-8" IN
                     CASE x.role \in {"n", "rank"} -> ToString(x.v) = ToString(y.v)
                       [] x.role = "ci" -> TolNum(y.v[1], x.v[1], rt, at) /\ TolNum(y.v[2], x.v[2], rt, at)
                       [] OTHER -> TolNum(y.v, x.v, rt, at)
RunClauses(ev) ==
  LET bad == { i \in 1..Len(ev.a) : i =< Len(ev.b) /\ ~(ev.a[i].k = ev.b[i].k /\ (Void(ev.a[i]) \/ SameVal(ev, ev.a[i], ev.b[i]))) } IN
  << CD("fast_mode_answers_what_python_answers", ev.raised = ev.raised0, <<ev.run, ev.raised0, ev.raised>>),
     CD("same_results_as_pure_python", Len(ev.a) = Len(ev.b) /\ bad = {}, IF bad = {} THEN <<ev.run>> ELSE LET i == CHOOSE i \in bad : TRUE IN <<ev.run, ev.a[i].k, ToString(ev.a[i].v), ToString(ev.b[i].v)>>) >>
---------------------------------------------------------------------------
(* one unit's multiplier alone moves every quantity by that unit's influence *)
Sd(ev) == StdQ(ev.mult, 1)
Infl2(ev, u, i) == LET s == ev.one[u].q[i].se (/) Sd(ev) IN s (.) s
BootClauses(ev) ==
  LET ok == \A u \in 1..Len(ev.one) : ev.one[u].raised = "" /\ Len(ev.one[u].q) = Len(ev.ana)
      psi(u) == (ev.one[u].dist[1] (-) ev.ana[1].eff) (/) ev.mult[1]
      fin(x) == IsFin(x.se)
  IN << CD("bootstrap_answers", ok, "") >> \o When(ok,
     Flat([i \in 1..Len(ev.ana) |->
        << CD("estimates_do_not_depend_on_the_multipliers", \A u \in 1..Len(ev.one) : SameNum(ev.one[u].q[i].eff, ev.ana[i].eff), ev.ana[i].k) >>
        \o When(i > 1 /\ fin(ev.ana[i]), << EqTol("squared_influences_of_the_units_add_up", SumQ([u \in 1..Len(ev.one) |-> Infl2(ev, u, i)]), ev.ana[i].se (.) ev.ana[i].se, "1e-7", "1e-9") >>)])
     \o When(IsFin(ev.ana[1].eff), [b \in 1..Len(ev.W) |->
          EqTol("draws_are_weighted_sums_of_influences", ev.dist[b], ev.ana[1].eff (+) SumQ([u \in 1..Len(ev.one) |-> ev.W[b][u] (.) psi(u)]), "1e-7", "1e-9")])
     \o << CD("multipliers_are_asked_for_once_per_fit", ev.ncalls = ev.n, <<ev.ncalls, ev.n>>),
           CD("multipliers_for_every_unit_and_draw", ev.aB = <<ev.B>> /\ Len(ev.an) = 1 /\ ev.an[1] =< ev.n, <<ev.aB, ev.an>>),
           CD("the_requested_distribution_is_asked_for", ev.awt = <<ev.wt>>, <<ev.awt, ev.wt>>),
           CD("the_seed_settles_the_multipliers", Len(ev.seeds) = 1 /\ Bag(ev.seeds) \cap Bag(ev.oseeds) = {}, <<ev.seeds, ev.oseeds>>) >>)
---------------------------------------------------------------------------
(* synthetic weights: the problem handed over, the weights that came back *)
QpClauses(ev) ==
  LET np == Len(ev.pre)
      handed(q, k) == \A t \in 1..np : SameNum(ev.A[t][k] (-) ev.b[t], ev.Y[ev.co[q]][ev.pre[t]] (-) MeanAt(ev.Y, ev.tt, ev.pre[t]))
      kept(v) == IF Lt(v, Nm("1e-6")) THEN Zero ELSE v
      tot == SumQ([k \in 1..Len(ev.w) |-> kept(ev.w[k])])
  IN << CD("fast_mode_answers", ev.raised = "", ev.raised) >> \o When(ev.raised = "" /\ ~Null(ev.A),
     << CD("the_matching_problem_is_handed_over", \A q \in 1..Len(ev.co) : \E k \in 1..Len(ev.co) : handed(q, k), ""),
        CD("the_penalty_is_handed_over", NumEq(ev.alam, ev.lam), ShowN(ev.alam)),
        CD("the_weights_are_those_returned", \A q \in 1..Len(ev.co) : \E k \in 1..Len(ev.co) : handed(q, k) /\ SameNum(ev.uw[q], kept(ev.w[k]) (/) tot), ""),
        Eq("the_effect_uses_them", ev.att, Tau(ev.Y, ev.co, ev.tt, ev.uw, ev.pre, ev.post, ev.tw)) >>)
---------------------------------------------------------------------------
Clauses(ev) == CASE ev.kind = "mode" -> ModeClauses(ev) [] ev.kind = "lin" -> LinClauses(ev) [] ev.kind = "trop" -> TropClauses(ev)
                 [] ev.kind = "run" -> RunClauses(ev) [] ev.kind = "boots" -> BootClauses(ev) [] ev.kind = "qp" -> QpClauses(ev)
=============================================================================
