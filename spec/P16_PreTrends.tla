---------------------------- MODULE P16_PreTrends ----------------------------
(***************************************************************************)
(* Power of the joint test of no pre-trends, and the smallest violation it *)
(* detects.  The test statistic is a quadratic form in the pre-period      *)
(* effects, chi-square under parallel trends and noncentral chi-square     *)
(* under a violation M w with w of unit length.                            *)
(* As implemented, the linear violation vanishes in the last pre-period    *)
(* used and grows by equal steps going back.                               *)
(***************************************************************************)
EXTENDS HonestDiD

(* --- which pre-period effects the test uses, in order, with their covariance --- *)
InList(x, s) == \E i \in 1..Len(s) : s[i] = x
Pre(ev) ==
  LET s == ev.src IN
  IF s.kind = "stag" THEN LET p == StagPre(s) IN [eff |-> [i \in 1..Len(p) |-> p[i].eff], se |-> [i \in 1..Len(p) |-> p[i].se],
                                                  V |-> Ident(Len(p), LAMBDA i : Sq(p[i].se))]
  ELSE LET idx == IF s.block = <<>> THEN [i \in 1..0 |-> 0] ELSE SelectSeq([i \in 1..Len(s.post) |-> i], LAMBDA i : InList(s.post[i].p, ev.pre) /\ IsFin(s.post[i].eff))
           (* the caller's order *)
           at(p) == SelectSeq(idx, LAMBDA i : s.post[i].p = p)
           ord == Flat([k \in 1..Len(ev.pre) |-> at(ev.pre[k])])
       IN [eff |-> [k \in 1..Len(ord) |-> s.post[ord[k]].eff], se |-> [k \in 1..Len(ord) |-> s.post[ord[k]].se],
           V |-> [a \in 1..Len(ord) |-> [b \in 1..Len(ord) |-> s.vcov[s.block[ord[a]]][s.block[ord[b]]]]]]

RawWeights(kind, n, custom) ==
  IF kind = "linear" THEN [i \in 1..n |-> Nm(n - i)]
  ELSE IF kind = "constant" THEN [i \in 1..n |-> One]
  ELSE IF kind = "last_period" THEN [i \in 1..n |-> IF i = n THEN One ELSE Zero]
  ELSE custom
(* squared length of the violation in the metric of the test, per unit of M *)
Informative(p, w) == LET sq == Dot(w, w) IN IF NumEq(sq, Zero) THEN Zero ELSE Dot(w, MatVec(InvQ(p.V), w)) (/) sq
Power(n, crit, alpha, nc) == IF Lt(Zero, nc) THEN NcChi2Sf(crit, Nm(n), nc) ELSE alpha

PowerClause(name, at, ev, n, crit, info, M, got) ==
  << CD(name, TolNum(got, Power(n, crit, ev.alpha, Sq(M) (.) info), "1e-6", "1e-8"), <<at, ShowN(got), ShowN(Power(n, crit, ev.alpha, Sq(M) (.) info))>>) >>

(* the minimum detectable violation meets the target exactly *)
Mdv(name, ev, n, crit, info, got) ==
  IF ev.target \preceq ev.alpha THEN << C(name \o "_zero_when_target_within_alpha", NumEq(got, Zero)) >>
  ELSE IF NumEq(info, Zero) THEN << CD(name \o "_infinite_without_information", NumEq(got, Inf), ShowN(got)) >>
  ELSE << CD(name \o "_finite", IsFin(got), ShowN(got)) >>
       \o When(IsFin(got), << EqTol(name \o "_meets_target", Power(n, crit, ev.alpha, Sq(got) (.) info), ev.target, "1e-6", "1e-8") >>)

Clauses(ev) ==
  IF ev.kind = "args" THEN << CD("bad_arguments_rejected", ev.raised = "ValueError", <<ev.what, ev.raised>>) >>
  ELSE IF ev.kind = "converted" THEN << CD("set_params_is_construction", ev.same, ev.what) >>
  ELSE
  LET p == IF ev.src.kind = "stag" /\ ~ev.src.has THEN [eff |-> <<>>, se |-> <<>>, V |-> <<>>] ELSE Force(Pre(ev))
      n == Len(p.eff)
  IN IF n = 0 \/ (ev.violation = "custom" /\ Len(ev.custom) # n)
     THEN << CD("unusable_input_rejected", ev.raised = "ValueError", <<ev.raised, n>>) >>
     ELSE IF (\E i \in 1..n : \E j \in 1..n : ~IsFin(p.V[i][j])) \/ InvQ(p.V) = <<>> \/ (\E i \in 1..n : p.V[i][i] \preceq Nm("1e-16")) THEN <<>>
     ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
     ELSE
     LET w == RawWeights(ev.violation, n, ev.custom)
         info == Informative(p, w)
         crit == ev.crit
         maxse == MaxQ(p.se)
     IN << EqTol("critical_value", Chi2Sf(crit, Nm(n)), ev.alpha, "1e-7", "1e-10") >>
        \o (IF ev.kind = "fit"
            THEN LET r == ev.res
                     M == IF IsNum(ev.M) THEN ev.M ELSE IF IsFin(r.mdv) THEN r.mdv ELSE maxse
                     nc == Sq(M) (.) info
                 IN Mdv("mdv", ev, n, crit, info, r.mdv)
                    \o << C("n_pre", r.n = n), Eq("violation_magnitude", r.M, M), EqTol("noncentrality", r.nc, nc, "1e-7", "1e-10"), EqTol("test_statistic", r.stat, Nm(n) (+) nc, "1e-7", "1e-10"),
                          C("pre_effects", Len(r.eff) = n /\ \A i \in 1..n : SameNum(r.eff[i], p.eff[i])),
                          C("pre_ses", Len(r.ses) = n /\ \A i \in 1..n : SameNum(r.ses[i], p.se[i])),
                          C("pre_covariance", Len(r.V) = n /\ \A i \in 1..n : \A j \in 1..n : SameNum(r.V[i][j], p.V[i][j])),
                          C("adequate_iff_power_reaches_target", r.adequate = Le(ev.target, r.power)),
                          C("informative_iff_mdv_below_two_se", r.informative = Lt(r.mdv, Nm(2) (.) maxse)) >>
                    \o PowerClause("power", "fit", ev, n, crit, info, M, r.power)
                    \o PowerClause("power_at_stored", ShowN(ev.at), ev, n, crit, info, ev.at, r.powerat)
                    \o PowerClause("power_at_refit", ShowN(ev.at), ev, n, crit, info, ev.at, r.powerat2)
            ELSE IF ev.kind = "curve"
            THEN LET r == ev.res k == Len(r.M) top == IF IsFin(r.mdv) THEN Nm("2.5") (.) r.mdv ELSE Nm(10) (.) maxse
                     cap == IF Lt(Nm(100), top) THEN Nm(100) ELSE top
                 IN Mdv("curve_mdv", ev, n, crit, info, r.mdv)
                    \o << C("curve_points", k = Len(r.power)) >>
                    \o When(ev.grid # <<>>, << C("curve_uses_grid", k = Len(ev.grid) /\ \A i \in 1..k : NumEq(r.M[i], ev.grid[i])) >>)
                    \o When(ev.grid = <<>>, << C("curve_n_points", k = ev.npoints) >>
                         \o When(k = ev.npoints /\ k > 1, ForEach(k, LAMBDA i : << EqAt("curve_grid", i, r.M[i], cap (.) (Nm(i - 1) (/) Nm(k - 1))) >>)))
                    \o ForEach(k, LAMBDA i : PowerClause("curve_power", ShowN(r.M[i]), ev, n, crit, info, r.M[i], r.power[i]))
                    \o ForEach(k, LAMBDA i : ForEach(k, LAMBDA j : When(Lt(Abs(r.M[i]), Abs(r.M[j])), << C("power_grows_with_violation", Le(r.power[i], r.power[j] (+) Nm("1e-9"))) >>)))
            ELSE LET r == ev.res
                 IN Mdv("bridge_mdv", ev, n, crit, info, r.mdv) \o << Eq("bridge_max_se", r.maxse, maxse) >>
                    \o << IF IsFin(r.mdv) THEN Eq("bridge_ratio", r.ratio, r.mdv (/) maxse) ELSE C("bridge_ratio", NumEq(r.ratio, Inf)) >>)
=============================================================================
