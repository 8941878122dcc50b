---------------------------- MODULE P07_GroupTime ---------------------------
(***************************************************************************)
(* Callaway-Sant'Anna ATT(g,t): exactly the identified cells, each from    *)
(* its own base period and admissible controls.                            *)
(***************************************************************************)
EXTENDS StaggeredDiD

Reported(ev) == [q \in 1..Len(ev.res.gt) |-> <<ev.res.gt[q].g, ev.res.gt[q].t>>]
Cell(ev, c) == ev.res.gt[CHOOSE q \in 1..Len(ev.res.gt) : ev.res.gt[q].g = c[1] /\ ev.res.gt[q].t = c[2]]

OneCell(ev, c) ==
  LET r == Cell(ev, c)
      ks == Force(Candidates(ev, c[1], c[2]))
      rt == IF ks[1].exact THEN "1e-7" ELSE "2e-4"
      at == IF ks[1].exact THEN "1e-8" ELSE "2e-4"
      fitsAtt(k) == TolNum(r.eff, k.att, rt, at)
      fitsVar(k) == TolNum(r.se, SqrtPos(k.var), rt, at) \/ (Lt(k.var, Nm("1e-16")) /\ Lt(r.se, Nm("1e-7")))
      good == {q \in 1..Len(ks) : fitsAtt(ks[q])}
  IN << CD("n_treated", r.nt = Cardinality(TreatedAt(ev, c[1], c[2])), <<c, r.nt>>),
        CD("n_control", r.nc = Cardinality(ControlAt(ev, c[1], c[2])), <<c, r.nc>>) >>
     \o When(ks[1].ok,
          << CD("att_" \o (IF HasCov(ev) /\ CovComplete(ev, c[1], c[2]) THEN ev.method ELSE "mean_changes"), good # {}, <<c, ShowN(r.eff), ShowN(ks[1].att)>>),
             CD("att_se_" \o (IF HasCov(ev) /\ CovComplete(ev, c[1], c[2]) THEN ev.method ELSE "mean_changes"), \E q \in good : fitsVar(ks[q]), <<c, ShowN(r.se), ShowN(SqrtPos(ks[1].var))>>) >>)
     \o Coherent("att", r.eff, r.se, r.tst, r.p, r.lo, r.hi, "null", ev.alpha)
     \o When(IsFin(r.se) /\ NumEq(r.se, Zero), << C("no_statistic_without_spread", IsNaN(r.tst) /\ IsNaN(r.p)) >>)

Clauses(ev) ==
  LET never == {i \in Units(ev) : ev.coh[i] = 0}
      cells == Cells(ev)
      rep == Reported(ev)
      missingCov == HasCov(ev) /\ \E q \in 1..Len(cells) : ~CovComplete(ev, cells[q][1], cells[q][2])
  IN IF never = {} THEN << CD("no_never_treated_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF cells = <<>> THEN << CD("nothing_identified_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF ev.raised = "ValueError" /\ HasCov(ev) /\ ev.method # "ipw" /\ (\E q \in 1..Len(cells) : CovComplete(ev, cells[q][1], cells[q][2])
                 /\ Cardinality(ControlAt(ev, cells[q][1], cells[q][2])) =< ev.ncov)
     THEN << C("too_few_controls_for_covariates_rejected", TRUE) >>
     ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
     ELSE << CD("cells_are_the_identified_ones", {rep[q] : q \in 1..Len(rep)} = {cells[q] : q \in 1..Len(cells)} /\ Len(rep) = Len(cells), <<rep, cells>>),
             CD("groups", ev.res.groups = Cohorts(ev), <<ev.res.groups, Cohorts(ev)>>),
             C("time_periods", ev.res.periods = ev.periods),
             CD("n_treated_units", ev.res.ntr = Cardinality({i \in Units(ev) : ev.coh[i] # 0}), ev.res.ntr),
             CD("n_control_units", ev.res.nco = Cardinality(never), ev.res.nco),
             C("n_obs", ev.res.nobs = ev.nrows),
             C("missing_covariates_warned", missingCov => ev.warnedcov) >>
          \o ForEach(Len(cells), LAMBDA q : IF \E z \in 1..Len(rep) : rep[z] = cells[q] THEN OneCell(ev, cells[q]) ELSE <<>>)
=============================================================================
