---------------------------- MODULE P02_BasicDiD ----------------------------
(***************************************************************************)
(* Two-group two-period difference-in-differences.                         *)
(***************************************************************************)
EXTENDS Designs

DT(ev) == ColMul(ev.d, ev.t)
NAbsorbed(ev) == SumQ([k \in 1..Len(ev.absorb) |-> Nm(NLevels(ev.absorb[k]) - 1)])
YW(ev) == DemeanAll(ev.y, ev.absorb)
CovW(ev) == [k \in 1..Len(ev.cov) |-> DemeanAll(ev.cov[k], ev.absorb)]
DesignCols(ev) ==
  <<Ones(Len(ev.y)), ev.d, ev.t>> \o CovW(ev) \o Flat([k \in 1..Len(ev.fe) |-> DummyCols(ev.fe[k])]) \o <<DT(ev)>>
(* the same model with the absorbed factors spelled out *)
LongCols(ev) ==
  <<Ones(Len(ev.y)), ev.d, ev.t>> \o ev.cov \o Flat([k \in 1..Len(ev.fe) |-> DummyCols(ev.fe[k])])
    \o Flat([k \in 1..Len(ev.absorb) |-> DummyCols(ev.absorb[k])]) \o <<DT(ev)>>

CellMean(ev, a, b) == MeanOver({i \in 1..Len(ev.y) : NumEq(ev.d[i], Nm(a)) /\ NumEq(ev.t[i], Nm(b))}, LAMBDA i : ev.y[i])
DiffOfMeans(ev) == (CellMean(ev, 1, 1) (-) CellMean(ev, 1, 0)) (-) (CellMean(ev, 0, 1) (-) CellMean(ev, 0, 0))
AllCells(ev) == \A a \in {0, 1}, b \in {0, 1} : \E i \in 1..Len(ev.y) : NumEq(ev.d[i], Nm(a)) /\ NumEq(ev.t[i], Nm(b))

Varies(v) == Cardinality({ToInt(v[i]) : i \in 1..Len(v)}) > 1

Plain(ev) == ev.cov = <<>> /\ ev.fe = <<>> /\ ev.absorb = <<>>

FitClauses(ev) ==
  LET y == Force(YW(ev))
      F == Force(FocalFit(DesignCols(ev), y, ev.vkind, ev.g))
      n == Len(y)
      df == Nm(n - F.rank) (-) NAbsorbed(ev)
      r == ev.res
  IN << Eq("n_obs", r.nobs, n),
        Eq("n_treated", r.ntr, SumQ(ev.d)),
        Eq("n_control", r.nco, Nm(n) (-) SumQ(ev.d)) >>
     \o When(F.identified,
          << Eq("att_is_interaction_coefficient", r.att, F.coef) >>
          \o When(Len(y) > F.rank /\ Lt(Nm("1e-16"), F.var), << Eq("se_" \o ev.vkind, r.se, Sqrt(F.var)) >>)
          \o When(Len(y) =< F.rank, << C("saturated_design_has_no_se", IsNaN(r.se)) >>)
          \o Coherent("att", r.att, r.se, r.t, r.p, r.lo, r.hi, df, ev.alpha)
          \o << SameObs("coefficients_has_att", r.catt, r.att), SameObs("vcov_has_se", r.vse, r.se) >>)
     \o When(~F.identified, << C("unidentified_not_given_an_se", IsNaN(r.att) => IsNaN(r.se)) >>)
     \o When(F.identified /\ F.full, << Eq("coef_const", r.cconst, F.beta[1]), Eq("coef_treat", r.ctreat, F.beta[2]), Eq("coef_time", r.ctime, F.beta[3]) >>)
     \o When(Plain(ev) /\ AllCells(ev), << Eq("att_is_difference_of_mean_changes", r.att, DiffOfMeans(ev)) >>)
     \o When(ev.absorb # <<>> /\ ev.balanced /\ F.identified,
             LET L == FocalFit(LongCols(ev), ev.y, "none", ev.g) IN << Eq("absorbed_equals_indicators", r.att, L.coef) >>)
     \o ForEach(n, LAMBDA i : << EqAt("resid", i, r.resid[i], F.resid[i]), EqAt("fitted", i, r.fitted[i], y[i] (-) F.resid[i]) >>)
     \o << Eq("r_squared", r.r2, RSquared(y, F.resid)) >>

Clauses(ev) ==
  IF ~Varies(ev.d) \/ ~Varies(ev.t)
  THEN << CD("no_contrast_is_rejected", ev.raised = "ValueError", ev.raised) >>
  ELSE IF ev.raised # "" /\ Len(ev.y) < Len(DesignCols(ev))
  THEN << CD("underdetermined_design_rejected", ev.raised = "ValueError", ev.raised) >>
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE FitClauses(ev)
=============================================================================
