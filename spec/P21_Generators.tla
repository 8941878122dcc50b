---------------------------- MODULE P21_Generators ----------------------------
(***************************************************************************)
(* Simulated data sets.  A generator called again with the same seed and   *)
(* one parameter changed differs only by what that parameter means, so the *)
(* parts of the outcome (structure, unit effects, factors, noise, effect)  *)
(* can be told apart exactly.                                              *)
(*   y0 neither unit effects nor noise   yf unit effects only              *)
(*   y  everything                       y2 noise doubled                  *)
(*   ye effect replaced by ev.te2         yff unit effects doubled, no noise *)
(***************************************************************************)
EXTENDS Sampling, TraceRun

Ix(s) == 1..Len(s)
N(ev) == Len(ev.y)
B(b) == IF b THEN One ELSE Zero
Share(n, f) == n (.) f
(* a count that a fraction of n rounds to *)
IsShare(k, n, f) == Lt(Abs(k (-) Share(n, f)), One)

Treat(ev, i) == NumEq(ev.treat[i], One)
(* the effect of row i when the base effect is te *)
TrueEffect(ev, i, te) ==
  CASE ev.gen = "staggered" ->
         IF ev.g[i] > 0 /\ ev.t[i] >= ev.g[i] THEN IF ev.dynamic THEN te (.) (One (+) (ev.growth (.) Nm(ev.t[i] - ev.g[i]))) ELSE te ELSE Zero
    [] ev.gen = "ddd" -> IF ev.g[i] = 1 /\ ev.part[i] = 1 /\ ev.t[i] = 1 THEN te ELSE Zero
    [] OTHER -> IF Treat(ev, i) /\ ev.t[i] >= ev.start THEN te ELSE Zero
(* outcome without unit effects, factors, noise and covariates *)
Base(ev, i) ==
  LET t == Nm(ev.t[i])
  IN CASE ev.gen = "did" -> Nm(10) (+) (ev.trend (.) t)
       [] ev.gen = "staggered" -> Nm(10) (+) (ev.trend (.) t)
       [] ev.gen = "panel" -> Nm(10) (+) t (+) (IF Treat(ev, i) /\ ~ev.parallel THEN ev.violation (.) t ELSE Zero)
       [] ev.gen = "event" -> Nm(10) (+) (Nm("0.5") (.) t)
       [] ev.gen = "factor" -> Nm(10) (+) B(Treat(ev, i)) (+) (IF ev.nper = 1 THEN Zero ELSE Nm(2) (.) (t (/) Nm(ev.nper - 1)))
       [] ev.gen = "ddd" -> LET g == Nm(ev.g[i]) p == Nm(ev.part[i])
            IN Nm(50) (+) (ev.geff (.) g) (+) (ev.peff (.) p) (+) (ev.teff (.) t) (+) (Nm("1.5") (.) (g (.) p)) (+) (g (.) t) (+) (Nm("0.5") (.) (p (.) t))
               (+) (IF ev.covs THEN (Nm("0.1") (.) ev.age[i]) (+) (Nm("0.5") (.) ev.edu[i]) ELSE Zero)

Balanced(ev, nu, nt) == N(ev) = nu * nt /\ \A i \in 1..N(ev) : ev.u[i] = (i - 1) \div nt /\ ev.t[i] = (i - 1) % nt
(* first row of the unit of row i of a balanced panel *)
FirstRow(ev, i) == (ev.u[i] * ev.nper) + 1
UnitTreated(ev) == {ev.u[i] : i \in {j \in 1..N(ev) : Treat(ev, j)}}
ShapeClauses(ev) ==
  CASE ev.gen = "ddd" ->
         << C("every_cell_filled", N(ev) = 8 * ev.percell /\ \A g \in {0, 1}, p \in {0, 1}, t \in {0, 1} : Cardinality({i \in 1..N(ev) : ev.g[i] = g /\ ev.part[i] = p /\ ev.t[i] = t}) = ev.percell),
            C("units_distinct", Cardinality({ev.u[i] : i \in 1..N(ev)}) = N(ev)),
            C("covariates_only_on_request", ev.hascovs = ev.covs) >>
    [] ev.gen = "staggered" ->
         << C("balanced_panel", Balanced(ev, ev.nunits, ev.nper)),
            C("adoption_constant_and_declared", LET cs == {0} \cup {ev.cohorts[k] : k \in Ix(ev.cohorts)} IN \A i \in 1..N(ev) : ev.g[i] = ev.g[FirstRow(ev, i)] /\ ev.g[i] \in cs),
            CD("never_treated_share", IsShare(Nm(Cardinality({ev.u[i] : i \in {j \in 1..N(ev) : ev.g[j] = 0}})), Nm(ev.nunits), ev.frac), Cardinality({ev.u[i] : i \in {j \in 1..N(ev) : ev.g[j] = 0}})),
            C("indicators_follow_adoption", \A i \in 1..N(ev) : NumEq(ev.treat[i], B(ev.g[i] > 0)) /\ NumEq(ev.treated[i], B(ev.g[i] > 0 /\ ev.t[i] >= ev.g[i]))) >>
    [] ev.gen = "factor" ->
         << C("balanced_panel", Balanced(ev, ev.nunits, ev.nper)), C("treated_count", Cardinality(UnitTreated(ev)) = ev.ntreated),
            C("indicators_follow_adoption", \A i \in 1..N(ev) : NumEq(ev.treated[i], B(Treat(ev, i) /\ ev.t[i] >= ev.start))),
            C("treatment_fixed_within_unit", \A i \in 1..N(ev) : NumEq(ev.treat[i], ev.treat[FirstRow(ev, i)])) >>
    [] OTHER ->
         << C("balanced_panel", Balanced(ev, ev.nunits, ev.nper)),
            CD("treated_share", IsShare(Nm(Cardinality(UnitTreated(ev))), Nm(ev.nunits), ev.frac), Cardinality(UnitTreated(ev))),
            C("treatment_fixed_within_unit", \A i \in 1..N(ev) : NumEq(ev.treat[i], ev.treat[FirstRow(ev, i)])),
            C("post_indicator", \A i \in 1..N(ev) : NumEq(ev.post[i], B(ev.t[i] >= ev.start))) >>
         \o When(ev.gen = "event", << C("event_time", \A i \in 1..N(ev) : ev.rel[i] = ev.t[i] - ev.start) >>)

Near9(a, b) == Close(a, b, Nm("1e-10"), Nm("1e-9"))
PartClauses(ev) ==
  LET z == Force([i \in 1..N(ev) |-> (ev.y[i] (-) ev.yf[i]) (/) ev.noise])
      n == Nm(N(ev))
  IN << C("same_seed_same_data", ev.again), C("different_seed_different_data", ev.differs) >>
     \o ForEach(N(ev), LAMBDA i :
          << EqAt("true_effect", i, ev.eff[i], TrueEffect(ev, i, ev.te)),
             EqAt("noise_scales_with_its_sd", i, ev.y2[i] (-) ev.yf[i], Nm(2) (.) (ev.y[i] (-) ev.yf[i])),
             EqAt("unit_effect_scales_with_its_sd", i, ev.yff[i] (-) ev.y0[i], Nm(2) (.) (ev.yf[i] (-) ev.y0[i])),
             EqAt("effect_enters_additively", i, ev.ye[i] (-) ev.y[i], TrueEffect(ev, i, ev.te2) (-) TrueEffect(ev, i, ev.te)) >>)
     \o When(ev.gen # "factor", ForEach(N(ev), LAMBDA i : << EqAt("structure", i, ev.y0[i], Base(ev, i) (+) TrueEffect(ev, i, ev.te)) >>))
     \o When(ev.gen # "ddd", << C("unit_effect_constant_within_unit", \A i \in 1..N(ev) : LET j == FirstRow(ev, i) IN Near9(ev.yf[i] (-) ev.y0[i], ev.yf[j] (-) ev.y0[j])) >>)
     \o When(N(ev) >= 100 /\ Lt(Zero, ev.noise),
          << CD("noise_centred", Le(Abs(MeanQ(z)), Nm(6) (/) Sqrt(n)), ShowN(MeanQ(z))),
             CD("noise_has_its_sd", Le(Abs(VarQ(z, 1) (-) One), Nm(9) (/) Sqrt(n)), ShowN(VarQ(z, 1))) >>)

(* factor part at strength 1 (yf1), 2 (yf2), without shift (yn) *)
FactorClauses(ev) ==
  LET base(i) == Base(ev, i) (+) TrueEffect(ev, i, ev.te)
      T == ev.nper
      r1(u, t) == ev.yf1[u * T + t + 1] (-) ev.yfz[u * T + t + 1]
      rn(u, t) == ev.yn[u * T + t + 1] (-) ev.yfz[u * T + t + 1]
      us == 0..(ev.nunits - 1) ts == 0..(T - 1)
      tr(u) == Treat(ev, u * T + 1)
  IN ForEach(N(ev), LAMBDA i : << EqAt("structure", i, ev.yfz[i], base(i)), EqAt("factors_scale_with_strength", i, ev.yf2[i] (-) ev.yfz[i], Nm(2) (.) (ev.yf1[i] (-) ev.yfz[i])) >>)
     \o << C("shift_moves_treated_loadings_alike", \A u \in us, t \in ts : IF tr(u) THEN LET v == CHOOSE v \in us : tr(v) IN Near9(r1(u, t) (-) rn(u, t), r1(v, t) (-) rn(v, t)) ELSE Near9(r1(u, t), rn(u, t))) >>
     \o When(ev.nfactors = 0, << C("no_factors_no_interaction", \A u \in us, t \in ts : Near9(r1(u, t), Zero)) >>)
     \o When(ev.nfactors = 1, << C("one_factor_is_rank_one", \A u \in us, t \in ts : Near9(r1(0, 0) (.) r1(u, t), r1(u, 0) (.) r1(0, t))) >>)
     \o When(ev.nfactors > 1, << C("more_factors_exceed_rank_one", \E u \in us, t \in ts : ~Near9(r1(0, 0) (.) r1(u, t), r1(u, 0) (.) r1(0, t))) >>)

(* the estimators meant for the data recover the effect exactly when there is no noise *)
RecoverClauses(ev) == ForEach(Len(ev.recover), LAMBDA k : << EqTol("noise_free_effect_recovered:" \o ev.recover[k].by, ev.recover[k].got, ev.recover[k].want, "1e-6", "1e-7") >>)

(* 500 units, a fifth never treated: each requested cohort is drawn, as often as any other (six standard errors) *)
CensusClauses(ev) ==
  LET cs == {ev.cohorts[k] : k \in Ix(ev.cohorts)}
      q == One (/) Nm(Cardinality(cs))
      e == Nm(400) (.) q
      n(g) == SumQ([k \in Ix(ev.seen) |-> IF ev.seen[k][1] = g THEN Nm(ev.seen[k][2]) ELSE Zero])
  IN << CD("requested_cohorts_occur", {ev.seen[k][1] : k \in Ix(ev.seen)} = cs \cup {0}, ev.seen), Eq("census_never_treated", n(0), Nm(100)) >>
     \o ForEach(Len(ev.cohorts), LAMBDA k : << CD("cohorts_equally_likely", Le(Sq(n(ev.cohorts[k]) (-) e), Nm(36) (.) (e (.) (One (-) q))), ev.seen) >>)

Clauses(ev) ==
  IF ev.bad THEN << CD("bad_parameters_rejected", ev.raised = "ValueError", <<ev.gen, ev.raised>>) >>
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE IF ev.gen = "census" THEN CensusClauses(ev)
  ELSE IF ev.gen # "ddd" /\ ~Balanced(ev, ev.nunits, ev.nper) THEN << C("balanced_panel", FALSE) >>
  ELSE ShapeClauses(ev) \o PartClauses(ev) \o When(ev.gen = "factor", FactorClauses(ev)) \o RecoverClauses(ev)
=============================================================================
