------------------------------ MODULE P14_Trop ------------------------------
(***************************************************************************)
(* TROP fits.  Event: the panel as Y, D matrices (missing cells NaN / 0,   *)
(* seen[t][i] whether the row exists), grids, method and results.          *)
(***************************************************************************)
EXTENDS Trop, Sampling

Monotone(ev) == \A i \in 1..Len(ev.D[1]) : \A s, t \in 1..Len(ev.D) :
    (s < t /\ ev.seen[s][i] /\ ev.seen[t][i]) => ev.D[s][i] =< ev.D[t][i]
AnyTreated(ev) == EverTreated(ev.D) # {}
NPost(ev) == Len(ev.D) - FirstTreated(ev.D) + 1
FirstOf(ev, i) == CHOOSE t \in 1..Len(ev.D) : ev.D[t][i] = 1 /\ \A s \in 1..(t - 1) : ev.D[s][i] = 0
Valid(ev) == /\ Monotone(ev) /\ AnyTreated(ev)
             /\ EverTreated(ev.D) # 1..Len(ev.D[1])
             /\ FirstTreated(ev.D) > 2
             /\ (ev.method = "joint" => \A i, j \in EverTreated(ev.D) : FirstOf(ev, i) = FirstOf(ev, j))

Off(l) == ~IsFin(l)                       \* low-rank part switched off

(* the penalties that the search may pick, and whether its scores are defined (every left-out cell predictable) *)
InferenceClauses(ev) ==
  LET r == ev.res
      n == Len(r.draws)
      var == IF ev.vm = "bootstrap" THEN (IF n < 2 THEN Nm("nan") ELSE VarQ(r.draws, 1))
             ELSE IF n < 2 THEN Zero ELSE Rt(n - 1, n) (.) Nm(n) (.) VarQ(r.draws, 0)
      df == IF ev.ntrcells > 1 THEN ev.ntrcells - 1 ELSE 1
  IN << IF IsFin(var) /\ Lt(Nm("1e-16"), var) THEN EqTol("se_is_the_spread_of_the_draws", r.se, Sqrt(var), "1e-6", "1e-9")
        ELSE C("se_zero_or_undefined", IsNaN(r.se) \/ Lt(r.se, Nm("1e-7"))) >>
     \o (IF IsFin(r.se) /\ Lt(Nm("1e-11"), r.se) THEN Coherent("inference", r.att, r.se, r.tst, r.p, r.lo, r.hi, Nm(df), ev.alpha)
         ELSE When(IsNaN(r.se) \/ NumEq(r.se, Zero), << C("undefined_without_spread", IsNaN(r.tst) /\ IsNaN(r.p) /\ IsNaN(r.lo) /\ IsNaN(r.hi)) >>))
     \o << C("reported_variance_method", r.vm = ev.vm /\ r.nb = (IF ev.vm = "bootstrap" THEN ev.B ELSE "null")) >>

CountClauses(ev) ==
  LET r == ev.res IN
  << C("n_obs", r.nobs = ev.nrows), C("n_treated", r.ntr = Cardinality(EverTreated(ev.D))), C("n_control", r.nco = Len(ev.D[1]) - Cardinality(EverTreated(ev.D))),
     C("n_treated_cells", r.ntc = Len(TreatedCells(ev.D))), C("n_pre_periods", r.npre = FirstTreated(ev.D) - 1),
     C("n_post_periods", r.npost = Cardinality({t \in 1..Len(ev.D) : \E i \in 1..Len(ev.D[1]) : ev.D[t][i] = 1})),
     C("one_effect_per_treated_cell", {<<r.cells[q][1], r.cells[q][2]>> : q \in 1..Len(r.cells)} = {TreatedCells(ev.D)[q] : q \in 1..Len(TreatedCells(ev.D))} /\ Len(r.cells) = Len(r.taus)) >>
TauOf(ev, c) == ev.res.taus[CHOOSE q \in 1..Len(ev.res.cells) : ev.res.cells[q][1] = c[1] /\ ev.res.cells[q][2] = c[2]]

At(g, k) == Lam(g[k])
Distinct(s) == \A i, j \in 1..Len(s) : i # j => (NumEq(s[i], s[j]) \/ ~Close(s[i], s[j], Nm("1e-6"), Nm("1e-7")))
SearchClauses(ev) ==
  LET r == ev.res Y == ev.Y D == ev.D
      cells == Force(FreeCells(Y, D))
      gt == ev.gt gu == ev.gu
  IN << C("penalties_from_the_grids", (\E k \in 1..Len(gt) : NumEq(gt[k], r.lt)) /\ (\E k \in 1..Len(gu) : NumEq(gu[k], r.lu)) /\ (\E k \in 1..Len(ev.gn) : NumEq(ev.gn[k], r.ln))) >>
     \o When(\A k \in 1..Len(ev.gn) : Off(ev.gn[k]),
        IF ev.method = "twostep"
        THEN When(LooIdentified(Y, D, cells),
          LET sc(a, b) == TwoStepScore(Y, D, cells, a, b)
              S == Force([a \in 1..Len(gt) |-> [b \in 1..Len(gu) |-> sc(At(gt, a), At(gu, b))]])
              T0 == Force([a \in 1..Len(gt) |-> sc(At(gt, a), Zero)])
              U0 == Force([b \in 1..Len(gu) |-> sc(Zero, At(gu, b))])
              k == Search(S, T0, U0)
              mine == sc(Lam(r.lt), Lam(r.lu))
          IN << EqTol("loocv_score", r.score, mine, "1e-6", "1e-9") >>
             \o When(Distinct(Flat(S)) /\ Distinct(T0) /\ Distinct(U0), << CD("penalties_found_by_the_search", NumEq(r.lt, gt[k[1]]) /\ NumEq(r.lu, gu[k[2]]), <<ShowN(r.lt), ShowN(r.lu), k>>) >>))
        ELSE When(JointLooOk(Y, D, cells, NPost(ev)),
          LET S == Force(Flat([a \in 1..Len(gt) |-> [b \in 1..Len(gu) |-> JointScore(Y, D, cells, At(gt, a), At(gu, b), NPost(ev))]]))
              k == FirstMin(S)
          IN << EqTol("loocv_score", r.score, S[k], "1e-6", "1e-9") >>
             \o When(Distinct(S), << CD("penalties_minimise_the_score", NumEq(r.lt, gt[((k - 1) \div Len(gu)) + 1]) /\ NumEq(r.lu, gu[((k - 1) % Len(gu)) + 1]), <<ShowN(r.lt), ShowN(r.lu), k>>) >>)))

TwoStepClauses(ev) ==
  LET r == ev.res Y == ev.Y D == ev.D lt == Lam(r.lt) lu == Lam(r.lu)
      tc == Force(TreatedCells(D))
  IN When(r.cells # <<>>, << Eq("att_is_the_mean_of_the_cell_effects", r.att, MeanQ(r.taus)) >>)
     \o (IF ~AllIdentified(Y, D, lt, lu) THEN <<>>
         ELSE IF Off(r.ln)
         THEN LET e == Force(TwoStepEffects(Y, D, lt, lu)) IN ForEach(Len(tc), LAMBDA q : << EqTol("cell_effect", TauOf(ev, tc[q]), e[q], "1e-6", "1e-6") >>)
              \o << C("no_low_rank_part", \A t \in 1..Len(Y), i \in 1..Len(Y[1]) : Lt(Abs(r.L[t][i]), Nm("1e-9"))) >>
         ELSE When(Len(tc) = 1 /\ Lt(Zero, r.ln),
              LET t == tc[1][1] i == tc[1][2]
                  W == CellWeights(Y, D, t, i, lt, lu)
                  wm == MaxQ(Flat(W))
                  R(s, j) == IF NumEq(W[s][j], Zero) THEN Zero ELSE (((Y[s][j] (-) r.ue[j]) (-) r.te[s]) (-) r.L[s][j])
                  G == Force([s \in 1..Len(Y) |-> [j \in 1..Len(Y[1]) |-> (W[s][j] (/) wm) (.) R(s, j)]])
              IN << EqTol("cell_effect_is_the_residual", r.taus[1], ((Y[t][i] (-) r.ue[i]) (-) r.te[t]) (-) r.L[t][i], "1e-6", "1e-7"),
                    C("unit_effects_stationary", \A j \in 1..Len(Y[1]) : Lt(Abs(SumQ([s \in 1..Len(Y) |-> G[s][j]])), Nm("1e-4"))),
                    C("period_effects_stationary", \A s \in 1..Len(Y) : Lt(Abs(SumQ(G[s])), Nm("1e-4"))) >>
                 \o LowRankOptimal(G, r.L, r.ln, Nm("1e-4"))))

JointClauses(ev) ==
  LET r == ev.res Y == ev.Y D == ev.D lt == Lam(r.lt) lu == Lam(r.lu)
      n == Len(Y) m == Len(Y[1])
      W == Force(JointWeights(Y, D, lt, lu, NPost(ev)))
      b == IF Off(r.ln) THEN JointFit(Y, D, W) ELSE <<>>
      ok == JointFit(Y, D, JointWeights(Y, D, Zero, Zero, NPost(ev)))
  IN << C("one_common_effect", \A q \in 1..Len(r.taus) : SameNum(r.taus[q], r.att)) >>
     \o (IF Off(r.ln)
         THEN When(HasFit(b), << EqTol("joint_effect", r.att, JointTau(b), "1e-6", "1e-6") >>
                \o ForEach(m, LAMBDA i : << EqTol("unit_effect", r.ue[i], IF i = 1 THEN Zero ELSE b[i], "1e-6", "1e-5") >>)
                \o ForEach(n, LAMBDA t : << EqTol("period_effect", r.te[t], IF t = 1 THEN Zero ELSE b[m + t - 1], "1e-6", "1e-5") >>))
         ELSE When(HasFit(ok) /\ Lt(Zero, r.ln),
              LET A == [t \in 1..n |-> [i \in 1..m |-> IF Seen(Y, t, i) THEN Y[t][i] (-) r.L[t][i] ELSE Y[t][i]]]
                  g == Force(JointFit(A, D, W))
                  wm == MaxQ(Flat(W))
                  G == Force([t \in 1..n |-> [i \in 1..m |-> IF NumEq(W[t][i], Zero) THEN Zero
                           ELSE (W[t][i] (/) wm) (.) ((A[t][i] (-) JointAt(g, n, m, t, i)) (-) (Nm(D[t][i]) (.) JointTau(g)))]])
              IN << EqTol("joint_effect_given_the_low_rank_part", r.att, JointTau(g), "1e-4", "1e-4") >>
                 \o LowRankOptimal(G, r.L, r.ln (/) wm, Nm("1e-4"))))

(* ---- resampling: columns of the panel *)
Pick(M, cols) == [t \in 1..Len(M) |-> [q \in 1..Len(cols) |-> M[t][cols[q]]]]
RECURSIVE Multisets(_, _)
Multisets(us, n) == IF n = 0 THEN {<<>>} ELSE IF us = {} THEN {}
    ELSE LET u == CHOOSE u \in us : \A x \in us : u =< x IN UNION {{[q \in 1..k |-> u] \o m : m \in Multisets(us \ {u}, n - k)} : k \in 0..n}
EstOk(ev, Y, D, lt, lu) == IF ev.method = "twostep" THEN AllIdentified(Y, D, lt, lu) ELSE HasFit(JointFit(Y, D, JointWeights(Y, D, Zero, Zero, NPost(ev))))
EstOf(ev, Y, D, lt, lu) == IF ev.method = "twostep" THEN TwoStepAtt(Y, D, lt, lu) ELSE JointTau(JointFit(Y, D, JointWeights(Y, D, lt, lu, NPost(ev))))
BootClauses(ev) ==
  LET r == ev.res lt == Lam(r.lt) lu == Lam(r.lu)
      tr == EverTreated(ev.D) co == 1..Len(ev.D[1]) \ tr
      S == Force(SeqOfSet({c \o t : c \in Multisets(co, Cardinality(co)), t \in Multisets(tr, Cardinality(tr))}))
      ok == \A q \in 1..Len(S) : EstOk(ev, Pick(ev.Y, S[q]), Pick(ev.D, S[q]), lt, lu)
      all == Force([q \in 1..Len(S) |-> EstOf(ev, Pick(ev.Y, S[q]), Pick(ev.D, S[q]), lt, lu)])
      dr == r.draws
  IN When(Off(r.ln) /\ ok,
       << C("one_draw_per_replication", Len(dr) = ev.B) >>
       \o ForEach(Len(dr), LAMBDA i : << CD("draw_is_the_estimate_of_a_resample", \E q \in 1..Len(all) : TolNum(dr[i], all[q], "1e-6", "1e-6"), <<i, ShowN(dr[i])>>) >>)
       \o When(ev.B >= 60 /\ Len(S) =< 12, << CD("several_resamples_occur", Cardinality({q \in 1..Len(all) : \E i \in 1..Len(dr) : TolNum(dr[i], all[q], "1e-6", "1e-6")}) * 2 >= Len(S), Len(S)) >>))
JackClauses(ev) ==
  LET r == ev.res lt == Lam(r.lt) lu == Lam(r.lu)
      tr == SortedInts(EverTreated(ev.D))
      blank(i) == [t \in 1..Len(ev.Y) |-> [ev.Y[t] EXCEPT ![i] = Nm("nan")]]
      zero(i) == [t \in 1..Len(ev.D) |-> [ev.D[t] EXCEPT ![i] = 0]]
      rest(i) == SortedInts(1..Len(ev.D[1]) \ {i})
      Yi(i) == Pick(ev.Y, rest(i)) Di(i) == Pick(ev.D, rest(i))
      ok == Len(tr) > 1 /\ \A q \in 1..Len(tr) : EstOk(ev, Yi(tr[q]), Di(tr[q]), lt, lu)
  IN When(Off(r.ln) /\ ok, << C("one_estimate_per_treated_unit", Len(r.draws) = Len(tr)) >>
       \o When(Len(r.draws) = Len(tr), ForEach(Len(tr), LAMBDA q : << EqTol("leave_one_unit_out_estimate", r.draws[q], EstOf(ev, Yi(tr[q]), Di(tr[q]), lt, lu), "1e-6", "1e-6") >>)))

Clauses(ev) ==
  IF ev.kind = "repeat" THEN << C("same_seed_same_draws", ev.a = ev.b), C("other_seed_other_draws", ev.a # ev.c) >>
  ELSE IF ev.kind = "args" THEN << CD("unknown_option_rejected", ev.raised = "ValueError", ev.raised) >>
  ELSE IF ~Valid(ev) THEN << CD("rejected_with_ValueError", ev.raised = "ValueError", ev.msg) >>
  ELSE IF ev.raised # "" THEN << CD("accepted", FALSE, ev.msg) >>
  ELSE CountClauses(ev) \o SearchClauses(ev)
       \o (IF ev.method = "twostep" THEN TwoStepClauses(ev) ELSE JointClauses(ev))
       \o When(ev.ntrcells > 0, InferenceClauses(ev))
       \o When(ev.vm = "bootstrap" /\ ev.enum, BootClauses(ev))
       \o When(ev.vm = "jackknife", JackClauses(ev))
=============================================================================
