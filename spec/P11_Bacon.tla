------------------------------ MODULE P11_Bacon -----------------------------
(***************************************************************************)
(* Goodman-Bacon decomposition.  Every 2x2 comparison of a timing group    *)
(* with the never treated, or of two timing groups in the window where one *)
(* of them does not change treatment; its estimate and weight; and the     *)
(* theorem that on a balanced panel the exact weights average the          *)
(* comparisons to the two-way fixed effects coefficient.                   *)
(*                                                                         *)
(* Event: periods, coh (0 = never treated), Y[unit][period] (NaN when not  *)
(* observed), exact, balanced, ...                                         *)
(***************************************************************************)
EXTENDS Designs

Units(ev) == 1..Len(ev.coh)
Seen(ev, i, j) == IsFin(ev.Y[i][j])
Js(ev, lo, hi) == {j \in 1..Len(ev.periods) : lo =< ev.periods[j] /\ ev.periods[j] < hi}
BIG == 1000000
SMALL == -1000000
Of(ev, g) == {i \in Units(ev) : ev.coh[i] = g}
Timing(ev) == SortedInts({ev.coh[i] : i \in Units(ev)} \ {0})
Obs(ev, us, js) == {<<i, j>> \in us \X js : Seen(ev, i, j)}
CellMean(ev, us, js) == LET o == Obs(ev, us, js) IN Div(SumSet(o, LAMBDA c : ev.Y[c[1]][c[2]]), Nm(Cardinality(o)))

Contrast(ev, k, l, pre, post, type, from, to) ==
  LET cells == << Obs(ev, Of(ev, k), pre), Obs(ev, Of(ev, k), post), Obs(ev, Of(ev, l), pre), Obs(ev, Of(ev, l), post) >>
      ok == \A q \in 1..4 : cells[q] # {}
      nk == Cardinality(Of(ev, k)) nl == Cardinality(Of(ev, l))
      share == Rt(nk, nk + nl)
      D == Rt(Cardinality(post), Cardinality(pre) + Cardinality(post))
      var == share (.) (One (-) share) (.) D (.) (One (-) D)
      nobs == Cardinality(Obs(ev, Units(ev), 1..Len(ev.periods)))
      sample == Rt(Cardinality(Obs(ev, Of(ev, k) \cup Of(ev, l), pre \cup post)), nobs)
      window == Rt(Cardinality(pre) + Cardinality(post), Len(ev.periods))
  IN IF ~ok THEN <<>>
     ELSE << [k |-> k, l |-> l, type |-> type, nk |-> nk, nl |-> nl, from |-> from, to |-> to,
              est |-> (CellMean(ev, Of(ev, k), post) (-) CellMean(ev, Of(ev, k), pre)) (-) (CellMean(ev, Of(ev, l), post) (-) CellMean(ev, Of(ev, l), pre)),
              w |-> IF ev.exact THEN Sq(sample) (.) var ELSE IF type = "treated_vs_never" THEN var ELSE var (.) window] >>

First(ev) == ev.periods[1]
Last(ev) == ev.periods[Len(ev.periods)]
Comparisons(ev) ==
  LET gs == Timing(ev) n == Len(gs)
      never == ForEach(n, LAMBDA a : Contrast(ev, gs[a], 0, Js(ev, SMALL, gs[a]), Js(ev, gs[a], BIG), "treated_vs_never", First(ev), Last(ev)))
      pair(a, b) == Contrast(ev, gs[a], gs[b], Js(ev, SMALL, gs[a]), Js(ev, gs[a], gs[b]), "earlier_vs_later", First(ev), gs[b] - 1)
                    \o Contrast(ev, gs[b], gs[a], Js(ev, gs[a], gs[b]), Js(ev, gs[b], BIG), "later_vs_earlier", gs[a], Last(ev))
  IN (IF Of(ev, 0) = {} THEN <<>> ELSE never) \o ForEach(n, LAMBDA a : ForEach(n, LAMBDA b : IF a < b THEN pair(a, b) ELSE <<>>))

Rows(ev) == SeqOfSet(Obs(ev, Units(ev), 1..Len(ev.periods)))
Twfe(ev) ==
  LET rows == Force(Rows(ev))
      n == Len(rows)
      unit == [q \in 1..n |-> rows[q][1]]
      per == [q \in 1..n |-> rows[q][2]]
      D == [q \in 1..n |-> IF ev.coh[unit[q]] # 0 /\ ev.periods[per[q]] >= ev.coh[unit[q]] THEN One ELSE Zero]
      y == [q \in 1..n |-> ev.Y[unit[q]][per[q]]]
      d == Force(TwoWayResid(D, unit, per))
      v == Dot(d, d)
  IN IF NumEq(v, Zero) THEN Zero ELSE Dot(d, y) (/) v

TypeSum(c, w, t) == SumQ([q \in 1..Len(c) |-> IF c[q].type = t THEN w[q] ELSE Zero])
TypeEff(c, w, t) == SumQ([q \in 1..Len(c) |-> IF c[q].type = t THEN w[q] (.) c[q].est ELSE Zero])
Types == << "treated_vs_never", "earlier_vs_later", "later_vs_earlier" >>

Clauses(ev) ==
  LET c == Force(Comparisons(ev))
      n == Len(c)
      tot == SumQ([q \in 1..n |-> c[q].w])
      w == Force([q \in 1..n |-> IF NumEq(tot, Zero) THEN c[q].w ELSE c[q].w (/) tot])
      sum == SumQ([q \in 1..n |-> w[q] (.) c[q].est])
      tw == Twfe(ev)
      got == ev.res.comp
      key(x) == << x.k, x.l, x.type >>
      at(q) == got[CHOOSE p \in 1..Len(got) : key(got[p]) = key(c[q])]
      same == {key(got[p]) : p \in 1..Len(got)} = {key(c[q]) : q \in 1..n} /\ Len(got) = n
  IN IF ev.raised # "" THEN << CD("decomposes_without_error", FALSE, ev.msg) >>
     ELSE << Eq("twfe_estimate", ev.res.twfe, tw),
        C("timing_groups", ev.res.timing = Timing(ev) /\ ev.res.ng = Len(Timing(ev))),
        C("n_never_treated", ev.res.nnever = Cardinality(Of(ev, 0))),
        C("n_obs", ev.res.nobs = Len(Rows(ev))),
        C("unbalanced_warning", ev.warned = (Cardinality({Cardinality(Obs(ev, {i}, 1..Len(ev.periods))) : i \in Units(ev)}) > 1)),
        CD("comparisons_are_the_2x2_contrasts", same, <<{key(got[p]) : p \in 1..Len(got)}, {key(c[q]) : q \in 1..n}>>) >>
     \o When(same,
          ForEach(n, LAMBDA q : LET r == at(q) IN
             << EqAt("estimate_2x2", key(c[q]), r.est, c[q].est), EqAt("weight_2x2", key(c[q]), r.w, w[q]),
                C("n_treated", r.nk = c[q].nk), C("n_control", r.nl = c[q].nl), CD("time_window", r.from = c[q].from /\ r.to = c[q].to, <<key(c[q]), r.from, r.to>>) >>)
          \o When(n > 0, << Eq("weights_sum_to_one", SumQ([q \in 1..n |-> got[q].w]), One) >>)
          \o ForEach(3, LAMBDA k : LET tw2 == TypeSum(c, w, Types[k]) IN
               << EqAt("weight_by_type", Types[k], ev.res.wt[k], tw2),
                  IF Lt(Zero, tw2) THEN EqAt("effect_by_type", Types[k], ev.res.eff[k], TypeEff(c, w, Types[k]) (/) tw2)
                  ELSE C("effect_by_type_absent", ~IsNum(ev.res.eff[k])) >>)
          \o << Eq("decomposition_error", ev.res.err, Abs(ev.res.twfe (-) sum)) >>
          \o When(ev.exact /\ ev.balanced /\ n > 0, << Eq("exact_weights_recover_twfe", SumQ([q \in 1..n |-> got[q].w (.) got[q].est]), tw) >>))
     \o << C("wrappers_agree", ev.same) >>
=============================================================================
