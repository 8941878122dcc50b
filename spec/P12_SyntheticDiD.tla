-------------------------- MODULE P12_SyntheticDiD --------------------------
(***************************************************************************)
(* SyntheticDiD.  Event: Y (after nothing), or the long rows when there    *)
(* are covariates; co, tt unit numbers; periods 1..np and the caller's post  *)
(* periods.  Bootstrap draws are compared with every possible resample of  *)
(* the units, placebo draws with every possible split of the controls.     *)
(***************************************************************************)
EXTENDS SyntheticDiD, Designs, Sampling

Table(ev) ==
  LET cols == <<Ones(Len(ev.y))>> \o ev.cov \o DummyCols(ev.unit) \o DummyCols(ev.per)
      X == FromCols(cols)
      y == IF ev.cov = <<>> THEN ev.y
           ELSE LET u == Force(Resid(Cols(X, PivotCols(X)), ev.y)) m == MeanQ(ev.y) IN [i \in 1..Len(ev.y) |-> u[i] (+) m]
  IN Force([u \in 1..ev.nu |-> [t \in 1..ev.np |-> y[CHOOSE i \in 1..Len(ev.y) : ev.unit[i] = u /\ ev.per[i] = t]]])

Complete(ev) == \A u \in 1..ev.nu, t \in 1..ev.np : \E i \in 1..Len(ev.y) : ev.unit[i] = u /\ ev.per[i] = t
PostSet(ev) == IF ev.defpost THEN {t \in 1..ev.np : t > ev.np \div 2} ELSE {ev.post[q] : q \in 1..Len(ev.post)}
Treated(ev) == {u \in 1..ev.nu : ev.d[u] = 1}
ControlsOf(ev) == 1..ev.nu \ Treated(ev)
Valid(ev) == /\ Complete(ev) /\ Treated(ev) # {} /\ ControlsOf(ev) # {}
             /\ PostSet(ev) # {} /\ PostSet(ev) \subseteq 1..ev.np /\ PostSet(ev) # 1..ev.np

EstClauses(ev, Y, co, tt, pre, post) ==
  LET r == ev.res
      w == [q \in 1..Len(co) |-> r.w[co[q]]]
      tw == Force(TimeWeights(Y, co, tt, pre, ev.zeta))
      H == Force(UnitH(Y, co, pre, ev.lam))
      f == Force(UnitF(Y, co, tt, pre, ev.lam))
      opt == Force(UnitOptimum(Y, co, tt, pre, ev.lam))
      diff == [q \in 1..Len(pre) |-> MeanAt(Y, tt, pre[q]) (-) SumQ([c \in 1..Len(co) |-> w[c] (.) Y[co[c]][pre[q]]])]
  IN << C("unit_weights_on_the_simplex", (\A q \in 1..Len(co) : Le(Zero, w[q])) /\ Near(SumQ(w), One)) >>
     \o When(Len(co) > 1, << CD("unit_weights_near_optimal", Le(Objective(H, f, w) (-) opt.val, Nm("1.1e-3") (.) (Trace1(H) (+) One)), <<ShowN(Objective(H, f, w)), ShowN(opt.val)>>) >>)
     \o When(WellConditioned(Y, co, pre, ev.lam), ForEach(Len(co), LAMBDA q : << EqTol("unit_weights_optimal", w[q], opt.w[q], "1e-4", "3e-5") >>))
     \o << C("time_weights_for_the_pre_periods", Len(r.tw) = Len(pre)) >>
     \o When(Len(r.tw) = Len(pre), ForEach(Len(pre), LAMBDA q : << EqAt("time_weights", q, r.tw[q], tw[q]) >>))
     \o << Eq("att", r.att, Tau(Y, co, tt, w, pre, post, tw)),
           EqTol("pre_treatment_fit", r.fit, LET m == MeanQ([q \in 1..Len(pre) |-> Sq(diff[q])]) IN IF Lt(Nm("1e-16"), m) THEN Sqrt(m) ELSE Zero, "1e-6", "1e-7"),
           C("n_obs", r.nobs = Len(ev.y)), C("n_treated", r.ntr = Len(tt)), C("n_control", r.nco = Len(co)),
           C("pre_periods", r.pre = pre), C("post_periods", {r.post[q] : q \in 1..Len(r.post)} = PostSet(ev)) >>

(* all multisets of n units, as sequences: counts per unit *)
RECURSIVE Multisets(_, _)
Multisets(us, n) == IF n = 0 THEN {<<>>} ELSE IF us = {} THEN {}
    ELSE LET u == CHOOSE u \in us : \A x \in us : u =< x
         IN UNION {{[q \in 1..k |-> u] \o m : m \in Multisets(us \ {u}, n - k)} : k \in 0..n}
InSet(x, S) == \E v \in S : TolNum(x, v, "1e-4", "3e-4")

BootClauses(ev, Y, pre, post) ==
  LET S == Force(SeqOfSet({m \in Multisets(1..ev.nu, ev.nu) : (\E q \in 1..Len(m) : m[q] \in Treated(ev)) /\ (\E q \in 1..Len(m) : m[q] \in ControlsOf(ev))}))
      est(m) == LET co == SelectSeq(m, LAMBDA u : u \in ControlsOf(ev)) tt == SelectSeq(m, LAMBDA u : u \in Treated(ev))
                IN Tau(Y, co, tt, UnitOptimum(Y, co, tt, pre, ev.lam).w, pre, post, TimeWeights(Y, co, tt, pre, ev.zeta))
      all == Force([q \in 1..Len(S) |-> est(S[q])])
      ok == \A q \in 1..Len(S) : WellConditioned(Y, SelectSeq(S[q], LAMBDA u : u \in ControlsOf(ev)), pre, ev.lam)
      dr == ev.res.draws
      (* a resample lacks one group with this probability *)
      pw(a, b) == Div(Nm(a), Nm(b))
      RECURSIVE Pow(_, _)
      Pow(x, n) == IF n = 0 THEN One ELSE x (.) Pow(x, n - 1)
      pfail == Pow(pw(Cardinality(ControlsOf(ev)), ev.nu), ev.nu) (+) Pow(pw(Cardinality(Treated(ev)), ev.nu), ev.nu)
      mean == Nm(ev.B) (.) (One (-) pfail)
      sd == Sqrt(mean (.) pfail)
  IN << CD("resamples_without_both_groups_are_skipped", Lt(Abs(Nm(Len(dr)) (-) mean), (Nm(7) (.) sd) (+) One), <<Len(dr), ShowN(mean)>>) >>
     \o When(ok, ForEach(Len(dr), LAMBDA i : << CD("draw_is_the_estimate_of_a_resample", InSet(dr[i], {all[q] : q \in 1..Len(all)}), <<i, ShowN(dr[i])>>) >>)
         \o << C("draws_vary", Cardinality({q \in 1..Len(all) : \E i \in 1..Len(dr) : TolNum(dr[i], all[q], "1e-4", "3e-4")}) > 1) >>)

PlaceboClauses(ev, Y, co, tt, pre, post) ==
  LET k == Len(tt)
      tw == Force(TimeWeights(Y, co, tt, pre, ev.zeta))
      subs == {S \in SUBSET (1..Len(co)) : Cardinality(S) = k}
      est(S) == LET rest == SortedInts(1..Len(co) \ S)
                    tr == SortedInts(S)
                    raw == [q \in 1..Len(rest) |-> ev.res.w[co[rest[q]]]]
                    tot == SumQ(raw)
                    w == [q \in 1..Len(rest) |-> IF Lt(Zero, tot) THEN raw[q] (/) tot ELSE Rt(1, Len(rest))]
                IN Tau(Y, [q \in 1..Len(rest) |-> co[rest[q]]], [q \in 1..k |-> co[tr[q]]], w, pre, post, tw)
      S == Force(SeqOfSet(subs))
      all == Force([q \in 1..Len(S) |-> est(S[q])])
      dr == ev.res.draws
  IN IF Len(co) =< k THEN << C("no_placebo_without_spare_controls", dr = <<>> /\ ev.warned) >>
     ELSE << C("one_placebo_per_replication", Len(dr) = ev.B) >>
       \o ForEach(Len(dr), LAMBDA i : << CD("placebo_is_a_split_of_the_controls", \E q \in 1..Len(all) : SameNum(dr[i], all[q]), <<i, ShowN(dr[i])>>) >>)
       \o When(ev.B >= 150 /\ Len(S) =< 6, ForEach(Len(S), LAMBDA q : << CD("every_split_occurs", \E i \in 1..Len(dr) : SameNum(dr[i], all[q]), q) >>))

InferenceClauses(ev) ==
  LET r == ev.res dr == r.draws
      n == Len(dr)
      var == IF n < 2 THEN Zero ELSE VarQ(dr, IF ev.method = "placebo" THEN 0 ELSE 1)
  IN << IF Lt(Nm("1e-16"), var) THEN EqTol("se_is_the_spread_of_the_draws", r.se, Sqrt(var), "1e-6", "1e-9") ELSE C("se_zero", Lt(r.se, Nm("1e-7"))) >>
     \o (IF Lt(Nm("1e-11"), r.se)
         THEN << EqTol("t", r.tst, r.att (/) r.se, "1e-6", "1e-9"),
                 EqTol("lo", r.lo, r.att (-) (Crit(ev.alpha, "null") (.) r.se), "1e-6", "1e-9"),
                 EqTol("hi", r.hi, r.att (+) (Crit(ev.alpha, "null") (.) r.se), "1e-6", "1e-9"),
                 IF ev.method = "bootstrap" THEN EqTol("p_normal", r.p, PValue(r.att (/) r.se, "null"), "1e-5", "1e-9")
                 ELSE LET clear == \A i \in 1..n : ~TolNum(Abs(dr[i]), Abs(r.att), "1e-7", "1e-7")
                          s == Rt(CountIf(dr, LAMBDA v : Le(Abs(r.att), Abs(v))), n)
                          fl == Rt(1, n + 1)
                      IN IF clear THEN Eq("p_permutation", r.p, IF Lt(s, fl) THEN fl ELSE s) ELSE C("p_permutation", TRUE) >>
         ELSE When(NumEq(r.se, Zero), << C("undefined_without_spread", IsNaN(r.tst) /\ IsNaN(r.p)) >>))
     \o << C("n_bootstrap", IF ev.method = "bootstrap" THEN r.nb = ev.B ELSE r.nb = "null"), C("method", r.method = ev.method) >>

Clauses(ev) ==
  IF ev.kind = "repeat" THEN << C("same_seed_same_draws", ev.a = ev.b), C("other_seed_other_draws", ev.a # ev.c) >>
  ELSE IF ~Valid(ev) THEN << CD("rejected_with_ValueError", ev.raised = "ValueError", ev.msg) >>
  ELSE IF ev.raised # "" THEN << CD("accepted", ev.raised = "ValueError" /\ ev.allfail, ev.msg) >>
  ELSE LET Y == Table(ev) co == SortedInts(ControlsOf(ev)) tt == SortedInts(Treated(ev))
           post == SortedInts(PostSet(ev)) pre == SortedInts(1..ev.np \ PostSet(ev))
       IN EstClauses(ev, Y, co, tt, pre, post) \o InferenceClauses(ev)
          \o When(ev.method = "bootstrap" /\ ev.enum, BootClauses(ev, Y, pre, post))
          \o When(ev.method = "placebo", PlaceboClauses(ev, Y, co, tt, pre, post))
=============================================================================
