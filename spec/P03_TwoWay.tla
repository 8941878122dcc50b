----------------------------- MODULE P03_TwoWay -----------------------------
(***************************************************************************)
(* Two-way fixed effects.                                                  *)
(*                                                                         *)
(* TwfeCoefficient is the coefficient the model Y = a_i + c_t + tau D + xb *)
(* defines.  The implementation removes the effects from the outcome and   *)
(* the covariates but leaves the treatment-by-time product as it is; that  *)
(* deviation is named RegressorAsImplemented, and the estimate is held to  *)
(* it exactly.  (See the known finding.)                                   *)
(***************************************************************************)
EXTENDS Designs

DP(ev) == ColMul(ev.d, ev.t)
W(ev, x) == TwoWayResid(x, ev.unit, ev.per)
RegressorAsImplemented(ev) == DP(ev)
WithinCols(ev) == <<Ones(Len(ev.y))>> \o [k \in 1..Len(ev.cov) |-> W(ev, ev.cov[k])] \o <<RegressorAsImplemented(ev)>>
IndicatorCols(ev) == <<Ones(Len(ev.y))>> \o DummyCols(ev.unit) \o DummyCols(ev.per) \o ev.cov \o <<DP(ev)>>

FirstTreated(ev) ==
  LET on(u) == {ev.per[i] : i \in {j \in 1..Len(ev.y) : ev.unit[j] = u /\ NumEq(ev.d[j], One)}}
      us == {u \in {ev.unit[i] : i \in 1..Len(ev.y)} : on(u) # {}}
  IN {CHOOSE m \in on(u) : \A x \in on(u) : m =< x : u \in us}
TreatedUnits(ev) == {ev.unit[i] : i \in {j \in 1..Len(ev.y) : NumEq(ev.d[j], One)}}

FitClauses(ev, y, F) ==
  LET n == Len(y)
      r == ev.res
      df == n - F.rank - (NLevels(ev.unit) + NLevels(ev.per) - 2)
  IN << Eq("att_within_regression", r.att, F.coef),
        Eq("n_obs", r.nobs, n),
        Eq("n_treated_units", r.ntr, Cardinality(TreatedUnits(ev))),
        Eq("n_control_units", r.nco, NLevels(ev.unit) - Cardinality(TreatedUnits(ev))),
        SameObs("coefficients_has_att", r.catt, r.att) >>
     \o When(Lt(Nm("1e-16"), F.var), << Eq("se_cluster", r.se, Sqrt(F.var)) >>)
     (* nothing is left to explain when the effects fit perfectly *)
     \o When(Lt(Zero, Dot(y, y)), << Eq("r_squared", r.r2, RSquared(y, F.resid)) >>)
     \o Coherent("att", r.att, r.se, r.t, r.p, r.lo, r.hi, Nm(df), ev.alpha)
     \o ForEach(n, LAMBDA i : << EqAt("resid", i, r.resid[i], F.resid[i]) >>)
     \o When(ev.claim, LET L == FocalFit(IndicatorCols(ev), ev.y, "none", ev.g)
                       IN << Eq("equals_two_way_indicator_regression", r.att, L.coef) >>)

Clauses(ev) ==
  LET y == Force(W(ev, ev.y))
      F == Force(FocalFit(WithinCols(ev), y, "cluster", ev.g))
  IN << CD("staggered_warning_iff_staggered", ev.staggered = (Cardinality(FirstTreated(ev)) > 1), ev.staggered) >>
     \o IF ev.raised # ""
        THEN << CD("rejected_only_if_unidentified", ~F.identified /\ ev.raised = "ValueError", ev.msg) >>
        ELSE << C("identified_if_accepted", F.identified) >> \o When(F.identified, FitClauses(ev, y, F))
=============================================================================
