------------------------------ MODULE P20_Prep ------------------------------
(***************************************************************************)
(* Data preparation: indicators, reshaping, balancing, validation,         *)
(* summaries, event time, cohort means and ranking of control units.       *)
(* Input and output tables are sequences of columns; a missing number is   *)
(* NaN and a missing label "null".                                         *)
(***************************************************************************)
EXTENDS Designs, Sampling, SimplexQP

Ix(s) == 1..Len(s)
Ints(S) == SortedInts(S)
Pick(s, ix) == [k \in 1..Len(ix) |-> s[ix[k]]]
SameCol(a, b) == Len(a) = Len(b) /\ \A i \in Ix(a) : (IsNum(a[i]) /\ IsNum(b[i]) /\ SameNum(a[i], b[i])) \/ (~IsNum(a[i]) /\ ~IsNum(b[i]) /\ a[i] = b[i])
Missing(v) == IF IsNum(v) THEN IsNaN(v) ELSE v = "null"

(* --- indicators --- *)
IndicatorClauses(ev) ==
  IF ev.nargs # 1 \/ ~ev.has THEN << CD("bad_request_rejected", ev.raised = "ValueError", ev.raised) >>
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE LET in(v) == \E k \in Ix(ev.values) : NumEq(ev.values[k], v)
           want(v) == IF ev.by = "values" THEN in(v) ELSE IF ev.above THEN Le(ev.cut, v) ELSE Le(v, ev.cut)
       IN << C("rows_unchanged", ev.same), C("indicator_length", Len(ev.out) = Len(ev.col)) >>
          \o When(Len(ev.out) = Len(ev.col), ForEach(Len(ev.col), LAMBDA i : << CD("indicator", NumEq(ev.out[i], IF want(ev.col[i]) THEN One ELSE Zero), <<ev.by, i, ShowN(ev.col[i])>>) >>))

(* --- wide to long --- *)
LongClauses(ev) ==
  IF ev.bad THEN << CD("bad_request_rejected", ev.raised = "ValueError", ev.raised) >>
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE LET k == Len(ev.times)
           n == Len(ev.ids)
           want == Flat([i \in 1..n |-> [j \in 1..k |-> <<ev.ids[i], ev.times[j]>>]])
           val(u, t) == LET i == CHOOSE i \in 1..n : ev.ids[i] = u j == CHOOSE j \in 1..k : ev.times[j] = t IN ev.vals[i][j]
           oth(u) == LET i == CHOOSE i \in 1..n : ev.ids[i] = u IN ev.other[i]
           o == ev.out
       IN << CD("one_row_per_unit_and_period", {<<o.id[i], o.t[i]>> : i \in Ix(o.id)} = {want[i] : i \in Ix(want)} /\ Len(o.id) = n * k, Len(o.id)),
             C("sorted_by_unit_then_period", \A i \in 1..(Len(o.id) - 1) : o.id[i] < o.id[i + 1] \/ (o.id[i] = o.id[i + 1] /\ o.t[i] < o.t[i + 1])),
             CD("columns", o.cols = ev.cols, o.cols) >>
          \o ForEach(Len(o.id), LAMBDA i : When(o.id[i] \in {ev.ids[j] : j \in 1..n} /\ o.t[i] \in {ev.times[j] : j \in 1..k},
               << EqAt("value_of_its_period", <<o.id[i], o.t[i]>>, o.v[i], val(o.id[i], o.t[i])), C("other_columns_carried", o.other[i] = oth(o.id[i])) >>))

(* --- balancing --- *)
Cells(ev) == {<<ev.u[i], ev.t[i]>> : i \in Ix(ev.u)}
UnitsOf(ev) == {ev.u[i] : i \in Ix(ev.u)}
TimesOf(ev) == {ev.t[i] : i \in Ix(ev.t)}
Complete(ev, u) == \A t \in TimesOf(ev) : <<u, t>> \in Cells(ev)
RowAt(ev, u, t) == CHOOSE i \in Ix(ev.u) : ev.u[i] = u /\ ev.t[i] = t
(* the value of column c in cell (u, t) after balancing *)
Filled(ev, c, numeric, u, t) ==
  LET own == IF <<u, t>> \in Cells(ev) THEN c[RowAt(ev, u, t)] ELSE IF numeric THEN Nm("nan") ELSE "null"
      ts == Ints({s \in TimesOf(ev) : <<u, s>> \in Cells(ev) /\ ~Missing(c[RowAt(ev, u, s)])})
      before == SelectSeq(ts, LAMBDA s : s < t)
      after == SelectSeq(ts, LAMBDA s : s > t)
  IN IF ev.method = "outer" \/ ~Missing(own) THEN own
     ELSE IF ev.fillgiven THEN IF numeric THEN ev.fill ELSE own
     ELSE IF before # <<>> THEN c[RowAt(ev, u, before[Len(before)])]
     ELSE IF after # <<>> THEN c[RowAt(ev, u, after[1])] ELSE own
BalanceClauses(ev) ==
  IF ev.bad THEN << CD("bad_request_rejected", ev.raised = "ValueError", ev.raised) >>
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE IF ev.method = "inner"
  THEN LET keep == SelectSeq([i \in Ix(ev.u) |-> i], LAMBDA i : Complete(ev, ev.u[i]))
       IN << CD("only_complete_units_kept", ev.out.u = Pick(ev.u, keep) /\ ev.out.t = Pick(ev.t, keep), <<Len(ev.out.u), Len(keep)>>) >>
          \o When(Len(ev.out.u) = Len(keep), << C("rows_untouched", SameCol(ev.out.y, Pick(ev.y, keep)) /\ SameCol(ev.out.x, Pick(ev.x, keep)) /\ SameCol(ev.out.s, Pick(ev.s, keep))) >>)
  ELSE LET o == ev.out
       IN << CD("every_unit_and_period_once", {<<o.u[i], o.t[i]>> : i \in Ix(o.u)} = UnitsOf(ev) \X TimesOf(ev) /\ Len(o.u) = Cardinality(UnitsOf(ev) \X TimesOf(ev)), Len(o.u)),
             C("periods_ascend_within_unit", \A i \in 1..(Len(o.u) - 1) : o.u[i] = o.u[i + 1] => o.t[i] < o.t[i + 1]) >>
          \o When(\A i \in Ix(o.u) : <<o.u[i], o.t[i]>> \in UnitsOf(ev) \X TimesOf(ev),
               ForEach(Len(o.u), LAMBDA i : << CD("cell_number", SameCol(<<o.y[i]>>, <<Filled(ev, ev.y, TRUE, o.u[i], o.t[i])>>), <<o.u[i], o.t[i], ShowN(o.y[i])>>),
                                               CD("cell_number", SameCol(<<o.x[i]>>, <<Filled(ev, ev.x, TRUE, o.u[i], o.t[i])>>), <<o.u[i], o.t[i], ShowN(o.x[i])>>),
                                               CD("cell_label", o.s[i] = Filled(ev, ev.s, FALSE, o.u[i], o.t[i]), <<o.u[i], o.t[i], o.s[i]>>) >>))

(* --- validation --- *)
ValidClauses(ev) ==
  LET n == Len(ev.y)
      anymiss == (\E i \in 1..n : Missing(ev.y[i]) \/ IsNaN(ev.d[i]) \/ IsNaN(ev.t[i])) \/ (ev.byunit /\ ev.unitmiss)
      dbad == \E i \in 1..n : ~IsNaN(ev.d[i]) /\ ~NumEq(ev.d[i], Zero) /\ ~NumEq(ev.d[i], One)
      nice == ev.cols /\ ev.ynum /\ ~anymiss /\ ~dbad
      TV == {ToInt(ev.t[i]) : i \in {j \in 1..n : ~IsNaN(ev.t[j])}}
      has(g, t) == \E i \in 1..n : NumEq(ev.d[i], Nm(g)) /\ NumEq(ev.t[i], Nm(t))
      seen(g) == {t \in TV : has(g, t)}
      cells == IF Cardinality(TV) = 2 THEN \A g \in {0, 1}, t \in TV : has(g, t) ELSE \A g \in {0, 1} : Cardinality(seen(g)) >= 2
      ok == nice /\ n > 0 /\ cells
      US == {ev.unit[i] : i \in 1..n}
      per(u) == {ToInt(ev.t[i]) : i \in {j \in 1..n : ev.unit[j] = u}}
      r == ev.res
  IN IF ev.raise
     THEN << CD("raises_exactly_on_invalid_data", ev.raised = (IF ok THEN "" ELSE "ValueError"), <<ok, ev.raised, ev.msg>>) >>
     ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
     ELSE << CD("valid_exactly_when_usable", r.valid = ok, <<ok, r.errors>>), C("errors_explain_invalid", (r.nerr > 0) = ~r.valid) >>
          \o When(ok, << C("counts", NumEq(r.nobs, Nm(n)) /\ NumEq(r.ntr, SumQ(ev.d)) /\ NumEq(r.nco, Nm(n) (-) SumQ(ev.d)) /\ NumEq(r.nper, Nm(Cardinality(TV)))),
                         C("period_coding_warned", r.wtime = (Cardinality(TV) = 2 /\ TV # {0, 1})) >>
               \o When(ev.byunit, << C("unit_count", NumEq(r.nun, Nm(Cardinality(US)))),
                    C("varying_treatment_warned", r.wvary = \E i, j \in 1..n : ev.unit[i] = ev.unit[j] /\ ~NumEq(ev.d[i], ev.d[j])),
                    C("unbalanced_warned", r.wunbal = \E u, v \in US : Cardinality(per(u)) # Cardinality(per(v))) >>))
          (* data declared valid can be fitted *)
          \o When(ok /\ TV = {0, 1} /\ n > 4, << CD("valid_data_has_an_estimate", ev.fitted, ev.fitmsg) >>)

(* --- summary by group and period --- *)
SummaryClauses(ev) ==
  IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE
  LET n == Len(ev.y)
      TS == Ints({ev.t[i] : i \in 1..n})
      cellv(g, t) == Pick(ev.y, SelectSeq([i \in 1..n |-> i], LAMBDA i : ev.d[i] = g /\ ev.t[i] = t))
      name(g, t) == IF Len(TS) = 2 THEN (IF g = 1 THEN "Treated - " ELSE "Control - ") \o (IF t = TS[2] THEN "Post" ELSE "Pre")
                    ELSE (IF g = 1 THEN "Treated - Period " ELSE "Control - Period ") \o ToString(t)
      have == {c \in {0, 1} \X {TS[k] : k \in Ix(TS)} : cellv(c[1], c[2]) # <<>>}
      labels == {ev.rows[k].label : k \in Ix(ev.rows)}
      rnd(a, b) == IsNum(a) /\ ((IsNaN(a) /\ IsNaN(b)) \/ (IsFin(a) /\ IsFin(b) /\ Le(Abs(a (-) b), Nm("5.01e-5"))))
      m(g, t) == MeanQ(cellv(g, t))
  IN << CD("one_row_per_cell", labels = {name(c[1], c[2]) : c \in have} \cup (IF Len(TS) = 2 THEN {"DiD Estimate"} ELSE {}) /\ Len(ev.rows) = Cardinality(labels), labels) >>
     \o ForEach(Len(ev.rows), LAMBDA k :
          LET r == ev.rows[k] c == {q \in have : name(q[1], q[2]) = r.label}
          IN When(c # {}, LET v == LET q == CHOOSE q \in c : TRUE IN cellv(q[1], q[2])
               IN << CD("cell_statistics", NumEq(r.n, Nm(Len(v))) /\ rnd(r.mean, MeanQ(v)) /\ rnd(r.min, MinQ(v)) /\ rnd(r.max, MaxQ(v)) /\ rnd(r.std, IF Len(v) = 1 THEN Nm("nan") ELSE SqrtPos(VarQ(v, 1))), r.label) >>)
             \o When(r.label = "DiD Estimate", << Eq("summary_did_is_contrast_of_means", r.mean,
                  IF Cardinality(have) = 4 THEN (m(1, TS[2]) (-) m(1, TS[1])) (-) (m(0, TS[2]) (-) m(0, TS[1])) ELSE Nm("nan")) >>))

(* --- event time, cohort means --- *)
EventTimeClauses(ev) ==
  IF ev.bad THEN << CD("bad_request_rejected", ev.raised = "ValueError", ev.raised) >>
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE << C("rows_unchanged", ev.same) >>
       \o ForEach(Len(ev.t), LAMBDA i : << EqAt("event_time", i, ev.out[i], IF IsFin(ev.g[i]) THEN ev.t[i] (-) ev.g[i] ELSE Nm("nan")) >>)
CohortClauses(ev) ==
  IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE
  LET n == Len(ev.y)
      cell(i) == <<ev.d[i], ev.t[i]>>
      rowsOf(c) == SelectSeq([i \in 1..n |-> i], LAMBDA i : cell(i) = c)
      o == ev.rows
  IN << CD("one_row_per_cohort_and_period", {<<o[k].d, o[k].t>> : k \in Ix(o)} = {cell(i) : i \in 1..n} /\ Len(o) = Cardinality({cell(i) : i \in 1..n}), Len(o)) >>
     \o ForEach(Len(o), LAMBDA k : LET ix == rowsOf(<<o[k].d, o[k].t>>)
          IN When(ix # <<>>, << Eq("cohort_mean", o[k].mean, MeanQ(Pick(ev.y, ix))), Eq("cohort_covariate_mean", o[k].x, MeanQ(Pick(ev.x, ix))),
                                C("cohort_units", o[k].n = Cardinality({ev.unit[ix[j]] : j \in Ix(ix)})) >>))

(* --- ranking of control units --- *)
(* Y[u][t] outcome of unit u in period t, NaN when there is no row *)
SeenIn(ev, u) == \E k \in Ix(ev.pre) : ~IsNaN(ev.Y[u][ev.pre[k]])
TreatedSeen(ev) == {u \in {ev.treated[k] : k \in Ix(ev.treated)} : u =< Len(ev.Y) /\ SeenIn(ev, u)}
Candidates(ev) == Ints({u \in Ix(ev.Y) : u \notin {ev.treated[k] : k \in Ix(ev.treated)} /\ u \notin {ev.exclude[k] : k \in Ix(ev.exclude)} /\ SeenIn(ev, u)})
TreatedMean(ev, t) == LET s == {u \in TreatedSeen(ev) : ~IsNaN(ev.Y[u][t])} IN IF s = {} THEN Nm("nan") ELSE MeanOver(s, LAMBDA u : ev.Y[u][t])
Rmse(ev, c) ==
  LET p == SelectSeq(ev.pre, LAMBDA t : ~IsNaN(ev.Y[c][t]) /\ ~IsNaN(TreatedMean(ev, t)))
  IN IF p = <<>> THEN Nm("nan") ELSE SqrtPos(MeanQ([k \in Ix(p) |-> Sq(ev.Y[c][p[k]] (-) TreatedMean(ev, p[k]))]))
Defined(v) == SelectSeq(v, LAMBDA x : ~IsNaN(x))
(* best value scores one, worst zero; a unit that cannot be compared has no score *)
Scores01(v) == LET lo == MinQ(Defined(v)) rg == MaxQ(Defined(v)) (-) lo IN [k \in Ix(v) |-> IF IsNaN(v[k]) THEN v[k] ELSE IF Lt(rg, Nm("1e-10")) THEN One ELSE One (-) ((v[k] (-) lo) (/) rg)]
Ragged(v) == LET rg == MaxQ(Defined(v)) (-) MinQ(Defined(v)) IN Lt(Zero, rg) /\ Lt(rg, Nm("1e-7"))
CovMean(ev, q, u) == LET p == SelectSeq(ev.pre, LAMBDA t : ~IsNaN(ev.Y[u][t])) IN MeanQ([k \in Ix(p) |-> ev.X[q][u][p[k]]])
CovDist(ev, c) ==
  LET us == Ints({u \in Ix(ev.Y) : SeenIn(ev, u)})
      term(q) == LET m == [k \in Ix(us) |-> CovMean(ev, q, us[k])]
                     s == LET v == SqrtPos(VarQ(m, 1)) IN IF NumEq(v, Zero) THEN One ELSE v
                 IN (CovMean(ev, q, c) (-) MeanOver(TreatedSeen(ev), LAMBDA u : CovMean(ev, q, u))) (/) s
  IN SqrtPos(SumQ([q \in Ix(ev.X) |-> Sq(term(q))]))
RankRejected(ev) ==
  \/ ev.badargs \/ ev.pre = <<>> \/ \E k \in Ix(ev.require) : ev.require[k] \in {ev.exclude[j] : j \in Ix(ev.exclude)}
  \/ Candidates(ev) = <<>> \/ TreatedSeen(ev) = {}
SynthH(ev, cs, p) == [i \in Ix(cs) |-> [j \in Ix(cs) |-> SumQ([k \in Ix(p) |-> ev.Y[cs[i]][p[k]] (.) ev.Y[cs[j]][p[k]]]) (+) IF i = j THEN ev.lam ELSE Zero]]
SynthF(ev, cs, p) == [i \in Ix(cs) |-> SumQ([k \in Ix(p) |-> ev.Y[cs[i]][p[k]] (.) TreatedMean(ev, p[k])]) (+) (ev.lam (/) Nm(Len(cs)))]
RankClauses(ev) ==
  IF RankRejected(ev) THEN << CD("bad_request_rejected", ev.raised = "ValueError", <<ev.raised, ev.msg>>) >>
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE
  LET cs == Force(Candidates(ev))
      rm == Force([k \in Ix(cs) |-> Rmse(ev, cs[k])])
      dist == Force([k \in Ix(cs) |-> IF ev.X = <<>> THEN Nm("nan") ELSE CovDist(ev, cs[k])])
      defined == Defined(rm) # <<>>
      os == Force(Scores01(rm)) xs == Force(Scores01(dist))
      tw == ev.ow (+) ev.cw
      wo == IF NumEq(tw, Zero) THEN One ELSE ev.ow (/) tw
      q == [k \in Ix(cs) |-> IF ev.X = <<>> THEN os[k] ELSE (wo (.) os[k]) (+) ((One (-) wo) (.) xs[k])]
      r == ev.rows
      pos(u) == CHOOSE k \in Ix(cs) : cs[k] = u
      shown == {r[k].unit : k \in Ix(r)}
      req == {u \in {ev.require[k] : k \in Ix(ev.require)} : u \in {cs[k] : k \in Ix(cs)}}
      all == ~ev.topgiven \/ ev.top >= Len(cs)
      size == IF all THEN Len(cs) ELSE LET free == ev.top - Cardinality(req) IN IF free < 0 THEN Cardinality(req) ELSE IF free > Len(cs) - Cardinality(req) THEN Len(cs) ELSE ev.top
      p == SelectSeq(ev.pre, LAMBDA t : ~IsNaN(TreatedMean(ev, t)) /\ \A k \in Ix(cs) : ~IsNaN(ev.Y[cs[k]][t]))
  IN << CD("candidates_listed_once", shown \subseteq {cs[k] : k \in Ix(cs)} /\ Len(r) = Cardinality(shown) /\ Len(r) = size, <<shown, size>>),
        C("required_units_listed", req \subseteq shown),
        C("best_first", \A k \in 1..(Len(r) - 1) : IsNaN(r[k + 1].q) \/ Le(r[k + 1].q, r[k].q)) >>
     \o When(shown \subseteq {cs[k] : k \in Ix(cs)} /\ defined /\ ~Ragged(rm) /\ (ev.X = <<>> \/ ~Ragged(dist)),
          ForEach(Len(r), LAMBDA k : LET j == pos(r[k].unit) IN
            << EqAt("pre_trend_rmse", r[k].unit, r[k].rmse, rm[j]), EqAt("outcome_score", r[k].unit, r[k].os, os[j]), EqAt("quality_score", r[k].unit, r[k].q, q[j]),
               C("required_flag", r[k].req = (r[k].unit \in req)), C("scores_within_0_1", IsNaN(r[k].q) \/ (Le(Nm("-1e-9"), r[k].q) /\ Le(r[k].q, Nm("1.000000001")))) >>
            \o IF ev.X = <<>> THEN << C("no_covariate_score", IsNaN(r[k].xs)) >> ELSE << EqAt("covariate_score", r[k].unit, r[k].xs, xs[j]) >>)
          \o << CD("the_best_are_kept", \A u \in {cs[k] : k \in Ix(cs)} \ shown, v \in shown \ req : IsNaN(q[pos(u)]) \/ Le(q[pos(u)], q[pos(v)] (+) Nm("1e-9")), shown) >>)
     \o When(all /\ Len(r) = Len(cs) /\ shown = {cs[k] : k \in Ix(cs)} /\ p # <<>>,
          LET w == [k \in Ix(cs) |-> LET j == CHOOSE j \in Ix(r) : r[j].unit = cs[k] IN r[j].w]
              H == Force(SynthH(ev, cs, p)) f == Force(SynthF(ev, cs, p))
              opt == IF Len(cs) = 1 THEN [w |-> <<One>>, val |-> Zero] ELSE Force(SimplexMin(H, f))
          IN << C("synthetic_weights_on_the_simplex", (\A k \in Ix(w) : IsFin(w[k]) /\ Le(Zero, w[k])) /\ Near(SumQ(w), One)) >>
             \o When(Len(cs) > 1 /\ (\A k \in Ix(w) : IsFin(w[k])), << CD("synthetic_weights_near_optimal", Le(Objective(H, f, w) (-) opt.val, Nm("1.1e-3") (.) (SumQ([k \in Ix(cs) |-> H[k][k]]) (+) One)), <<ShowN(Objective(H, f, w)), ShowN(opt.val)>>) >>))

(* --- treatment candidates --- *)
UnitPre(ev, u) == SelectSeq(Ints({ev.pre[k] : k \in Ix(ev.pre)}), LAMBDA t : ~IsNaN(ev.Y[u][t]))
Avg(ev, u) == MeanQ(Pick(ev.Y[u], UnitPre(ev, u)))
SlopeOf(ev, u) == LET y == Pick(ev.Y[u], UnitPre(ev, u)) n == Len(y) mt == Rt(n - 1, 2)
                  IN IF n < 2 THEN Zero ELSE SumQ([k \in 1..n |-> (Nm(k - 1) (-) mt) (.) y[k]]) (/) SumQ([k \in 1..n |-> Sq(Nm(k - 1) (-) mt)])
SuggestClauses(ev) ==
  IF ev.pre = <<>> THEN << CD("bad_request_rejected", ev.raised = "ValueError", ev.raised) >>
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE
  LET us == Ints({u \in Ix(ev.Y) : SeenIn(ev, u)})
      av == Force([u \in Ix(ev.Y) |-> IF SeenIn(ev, u) THEN Avg(ev, u) ELSE Zero])
      r == ev.rows
      others(u) == SelectSeq(us, LAMBDA v : v # u)
      oth(u) == Pick(av, others(u))
      sdo(u) == IF Len(oth(u)) < 2 THEN Zero ELSE SqrtPos(VarQ(oth(u), 1))
      near(u, slack) == IF ~Lt(Zero, sdo(u)) THEN Len(oth(u)) ELSE CountIf(oth(u), LAMBDA v : Lt(Abs(v (-) av[u]), (Nm("0.5") (.) sdo(u)) (+) slack))
      sim == Force([u \in Ix(ev.Y) |-> IF \E k \in Ix(us) : us[k] = u THEN near(u, Zero) ELSE 0])
      tie == \E k \in Ix(us) : near(us[k], Nm("1e-9")) # near(us[k], Nm("-1e-9"))
      mx == CHOOSE m \in {sim[us[k]] : k \in Ix(us)} : \A k \in Ix(us) : sim[us[k]] =< m
      a == Pick(av, us)
      sd == IF Len(us) < 2 THEN Zero ELSE SqrtPos(VarQ(a, 1))
      z(u) == IF Lt(Zero, sd) THEN Abs((av[u] (-) MeanQ(a)) (/) sd) ELSE Zero
      clip(v) == IF Lt(v, Zero) THEN Zero ELSE IF Lt(One, v) THEN One ELSE v
      sc(u) == clip((IF mx > 0 THEN Rt(sim[u], mx) ELSE Zero) (-) (Nm("0.3") (.) z(u)))
      shown == {r[k].unit : k \in Ix(r)}
  IN << CD("candidates_listed_once", shown \subseteq {us[k] : k \in Ix(us)} /\ Len(r) = Cardinality(shown) /\ Len(r) = (IF ev.ncand < Len(us) THEN ev.ncand ELSE Len(us)), shown),
        C("best_first", \A k \in 1..(Len(r) - 1) : Le(r[k + 1].score, r[k].score)) >>
     \o When(~tie /\ shown \subseteq {us[k] : k \in Ix(us)}, ForEach(Len(r), LAMBDA k : LET u == r[k].unit IN
          << EqAt("candidate_level", u, r[k].avg, av[u]), EqAt("candidate_trend", u, r[k].slope, SlopeOf(ev, u)), C("similar_controls", r[k].sim = sim[u]), EqAt("candidate_score", u, r[k].score, sc(u)) >>)
          \o << C("the_best_are_kept", \A u \in {us[k] : k \in Ix(us)} \ shown, v \in shown : Le(sc(u), sc(v) (+) Nm("1e-9"))) >>)

Clauses(ev) ==
  (CASE ev.kind = "indicator" -> IndicatorClauses(ev)
     [] ev.kind = "long" -> LongClauses(ev)
     [] ev.kind = "balance" -> BalanceClauses(ev)
     [] ev.kind = "validate" -> ValidClauses(ev)
     [] ev.kind = "summary" -> SummaryClauses(ev)
     [] ev.kind = "eventtime" -> EventTimeClauses(ev)
     [] ev.kind = "cohorts" -> CohortClauses(ev)
     [] ev.kind = "rank" -> RankClauses(ev)
     [] ev.kind = "suggest" -> SuggestClauses(ev))
  \o << C("input_untouched", ev.pure) >>
=============================================================================
