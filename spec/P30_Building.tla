---------------------------- MODULE P30_Building ----------------------------
(***************************************************************************)
(* The building blocks offered as functions of their own: taking means     *)
(* out of columns, synthetic weights and effects from matrices, p-values   *)
(* and intervals, coding checks, and the accessors of a fitted regression. *)
(***************************************************************************)
EXTENDS TransformModel, SyntheticDiD, Regression, TraceRun
Tol(x) == "1e-8"
AsEnv(o) == [n |-> o.names, v |-> o.vals]
Agrees(got, want, scale) == /\ NameSet(got) = NameSet(want) /\ Len(got.n) = Len(want.n)
   /\ \A c \in NameSet(want) : LET a == ColOf(got, c) b == ColOf(want, c) IN Len(a) = Len(b) /\ \A i \in 1..Len(b) : IsNum(a[i]) /\ Close(a[i], b[i], Nm("1e-9"), Nm("1e-10") (.) scale)
Differ(got, want, scale) == IF NameSet(got) # NameSet(want) THEN <<NameSet(got), NameSet(want)>>
   ELSE { c \in NameSet(want) : \E i \in 1..Len(ColOf(want, c)) : ~Close(ColOf(got, c)[i], ColOf(want, c)[i], Nm("1e-9"), Nm("1e-10") (.) scale) }
RECURSIVE Steps(_, _, _, _)
Steps(ev, k, env, acc) ==
  IF k > Len(ev.steps) THEN acc
  ELSE LET s == ev.steps[k] IN
       IF s.raised # "" THEN acc \o << CD("no_exception", FALSE, <<k, s.raised>>) >>
       ELSE LET after == Step(ev.keys, s.op, env)
                mine == Callers(s.op, env, after) IN
            Steps(ev, k + 1, after, acc \o
              << CD("columns_net_of_means", Agrees(AsEnv(s.out), after, ev.scale), <<k, s.op.op, Differ(AsEnv(s.out), after, ev.scale)>>),
                 CD("callers_table_changes_only_in_place", Agrees(AsEnv(s.input), mine, ev.scale), <<k, s.op.op, s.op.inplace, Differ(AsEnv(s.input), mine, ev.scale)>>),
                 CD("in_place_returns_the_table_itself", s.same_object = s.op.inplace, <<k, s.op.op, s.op.inplace>>),
                 C("rows_and_index_stay", s.index_same),
                 CD("effects_counted", s.op.op = "within" \/ s.neff = Cardinality({ev.keys[s.op.by][i] : i \in 1..Len(ev.keys[s.op.by])}) - 1, <<k, s.neff>>) >>)
ChainClauses(ev) == Steps(ev, 1, AsEnv(ev.init), <<>>)

(* --- synthetic difference-in-differences from matrices: Y[unit] over periods, controls first, the treated unit last --- *)
SdidClauses(ev) ==
  LET nc == Len(ev.y) - 1
      co == [i \in 1..nc |-> i]
      tt == << nc + 1 >>
      pre == [q \in 1..ev.npre |-> q]
      post == [q \in 1..ev.npost |-> ev.npre + q]
      opt == Force(UnitOptimum(ev.y, co, tt, pre, ev.lam))
      near == \E i \in 1..nc : Close(opt.w[i], ev.minw, Zero, Nm("2e-4"))
      kept == Force([i \in 1..nc |-> IF Lt(opt.w[i], ev.minw) THEN Zero ELSE opt.w[i]])
      tot == SumQ(kept)
      want == Force([i \in 1..nc |-> IF nc = 1 THEN One ELSE IF Lt(Zero, tot) THEN kept[i] (/) tot ELSE Rt(1, nc)])
      tw == Force(TimeWeights(ev.y, co, tt, pre, ev.zeta))
      est(us, u, w, t) == Tau(ev.y, us, << u >>, w, pre, post, t)
  IN When(WellConditioned(ev.y, co, pre, ev.lam) /\ ~near,
       << C("one_weight_per_control", Len(ev.uw) = nc) >> \o When(Len(ev.uw) = nc, ForEach(nc, LAMBDA i : << EqTol("control_weight", ev.uw[i], want[i], "3e-4", "1e-4") >>)))
     \o << CD("weights_are_a_distribution", Len(ev.uw) = nc /\ (\A i \in 1..Len(ev.uw) : Le(Zero, ev.uw[i])) /\ Close(SumQ(ev.uw), One, Zero, Nm("1e-9")), ToString(SumQ(ev.uw))),
           CD("no_weight_below_the_least", nc = 1 \/ (\A i \in 1..Len(ev.uw) : NumEq(ev.uw[i], Zero) \/ Le(ev.minw, ev.uw[i] (+) Nm("1e-12")) \/ SameNum(ev.uw[i], Rt(1, nc))), ev.npre) >>
     \o ForEach(ev.npre, LAMBDA q : << EqAt("period_weight", q, ev.tw[q], tw[q]) >>)
     (* the effect of weights the caller gives *)
     \o << Eq("effect_of_given_weights", ev.tau, est(co, nc + 1, ev.gw, ev.gt)) >>
     (* placebos: each control in turn against the others *)
     \o (LET m == IF nc = 1 THEN 0 ELSE IF ev.np = 0 THEN nc ELSE IF ev.np < nc THEN ev.np ELSE nc IN
         << CD("one_placebo_per_control", Len(ev.placebo) = m, <<Len(ev.placebo), m>>) >>
         \o When(Len(ev.placebo) = m, ForEach(m, LAMBDA j : LET us == SelectSeq(co, LAMBDA i : i # j) IN << EqAt("placebo_effect", j, ev.placebo[j], est(us, j, ev.pw[j], ev.gt)) >>)))
     \o << C("matrices_left_alone", ev.untouched) >>

InferClauses(ev) ==
  LET df == ev.df two == Nm(2) (.) (IF HasDf(df) THEN TSf(Abs(ev.t), df) ELSE NormSf(Abs(ev.t)))
      c == Crit(ev.alpha, df) IN
  << EqTol("p_value", ev.p, IF ev.two THEN two ELSE two (/) Nm(2), "1e-6", "1e-12"), EqTol("interval_lower", ev.lo, ev.est (-) (c (.) ev.se), "1e-8", "1e-10"), EqTol("interval_upper", ev.hi, ev.est (+) (c (.) ev.se), "1e-8", "1e-10") >>
BinaryClauses(ev) ==
  LET ok == \A i \in 1..Len(ev.v) : IsNaN(ev.v[i]) \/ NumEq(ev.v[i], Zero) \/ NumEq(ev.v[i], One) IN
  << CD("coding_check", ev.raised = (IF ok THEN "" ELSE "ValueError"), <<ev.raised, ok>>), C("says_which_column", ok \/ ev.named) >>

(* accessors of a fitted regression *)
StarsOf(p) == IF ~IsFin(p) THEN "" ELSE IF Lt(p, Nm("0.001")) THEN "***" ELSE IF Lt(p, Nm("0.01")) THEN "**" ELSE IF Lt(p, Nm("0.05")) THEN "*" ELSE IF Lt(p, Nm("0.1")) THEN "." ELSE ""
RegClauses(ev) ==
  LET X == ev.x k == Len(X[1]) n == Len(X)
      pc == PivotCols(X)
      full == Len(pc) = k
      b == Force(Beta(X, ev.y))
      u == Force(RndV(VSub(ev.y, Fitted(X, b))))
      V == Force(Vcov(ev.vkind, X, u, ev.g))
      r2 == RSquared(ev.y, u)
  IN << CD("not_fitted_refused", ev.unfitted = <<"ValueError", "ValueError", "ValueError", "ValueError">>, ev.unfitted) >>
     \o When(full /\ n > k + 1,
       ForEach(k, LAMBDA j : << EqAt("coefficient_of_index", j, ev.coef[j], b[j]), EqAt("se_of_index", j, Sq(ev.se[j]), V[j][j]) >>)
       \o ForEach(Len(ev.batch), LAMBDA i : LET a == ev.batch[i] j == a.at + 1 IN
            << EqAt("batch_coefficient", a.at, a.coef, b[j]), EqAt("batch_se", a.at, Sq(a.se), V[j][j]), CD("verdict_at_a_level", IsFin(a.p) => a.sig = Lt(a.p, ev.level), <<a.at, a.sig>>), CD("verdict_at_its_own_level", IsFin(a.p) => a.own = Lt(a.p, a.alpha), <<a.at, a.own>>), CD("stars", a.stars = StarsOf(a.p), a.stars) >>
            \o When(Lt(Nm("1e-12"), V[j][j]), Coherent("batch", a.coef, a.se, a.t, a.p, a.lo, a.hi, a.df, a.alpha))
            \o << CD("batch_level_and_df_as_asked", NumEq(a.alpha, ev.askalpha) /\ NumEq(a.df, ev.askdf), <<ToString(a.alpha), ToString(a.df)>>) >>)
       \o << CD("batch_has_the_indices", [i \in 1..Len(ev.batch) |-> ev.batch[i].at] = ev.asked, <<ev.asked>>), CD("all_in_order", Len(ev.all) = k /\ \A j \in 1..Len(ev.all) : SameNum(ev.all[j], b[j]), Len(ev.all)) >>
       \o ForEach(Len(ev.newx), LAMBDA i : << EqAt("prediction", i, ev.pred[i], Dot(ev.newx[i], b)) >>)
       \o When(Lt(Nm("1e-9"), SumQ([i \in 1..n |-> Sq(ev.y[i] (-) MeanQ(ev.y))])), << Eq("r_squared", ev.r2, r2), Eq("r_squared_adjusted", ev.r2adj, AdjRSquared(r2, n, k)), Eq("r_squared_of_residuals", ev.r2fn, r2), Eq("adjusted_r_squared_of_residuals", ev.r2fnadj, AdjRSquared(r2, n, k)) >>)
       \o ForEach(k, LAMBDA i : ForEach(k, LAMBDA j : << EqAt("robust_covariance", <<i, j>>, ev.rob[i][j], V[i][j]) >>)))
PeriodClauses(ev) ==
  << CD("every_period_can_be_asked_for", ev.ok = ev.periods, <<ev.ok, ev.periods>>), CD("another_period_is_refused", ev.absent = "KeyError", ev.absent) >>
Clauses(ev) ==
  CASE ev.kind = "chain" -> ChainClauses(ev)
    [] ev.kind = "sdid" -> IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.raised) >> ELSE SdidClauses(ev)
    [] ev.kind = "infer" -> InferClauses(ev)
    [] ev.kind = "binary" -> BinaryClauses(ev)
    [] ev.kind = "reg" -> IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.raised) >> ELSE RegClauses(ev)
    [] ev.kind = "period" -> PeriodClauses(ev)
=============================================================================
