---------------------------- MODULE StaggeredDiD ----------------------------
(***************************************************************************)
(* Group-time effects of Callaway and Sant'Anna (2021).                    *)
(*                                                                         *)
(* A panel is a function from units to cohorts (first treated period, 0    *)
(* for never) and a unit-by-period matrix of outcomes, NaN where missing.  *)
(* The identification rules (which periods are compared, which units may   *)
(* serve as controls) and the estimators are stated here once; aggregation *)
(* and bootstrap build on Gts(ev) and the influence of each unit.          *)
(***************************************************************************)
EXTENDS Inference, Regression, Logit

Units(ev) == 1..Len(ev.coh)
HasPer(ev, t) == \E q \in 1..Len(ev.periods) : ev.periods[q] = t
ColOf(ev, t) == CHOOSE q \in 1..Len(ev.periods) : ev.periods[q] = t
OutAt(ev, i, t) == ev.Y[i][ColOf(ev, t)]
Seen(ev, i, t) == ~IsNaN(OutAt(ev, i, t))
Cohorts(ev) == SortedInts({ev.coh[i] : i \in {i \in Units(ev) : ev.coh[i] # 0}})

(* the period a comparison starts from *)
BaseOf(ev, g, t) == IF ev.base = "universal" \/ t >= g - ev.a THEN g - 1 - ev.a ELSE t - 1
(* never treated, or (when asked) not treated until after t *)
MayControl(ev, i, g, t) == ev.coh[i] = 0 \/ (ev.control = "not_yet_treated" /\ ev.coh[i] > t /\ ev.coh[i] # g)
TreatedAt(ev, g, t) == {i \in Units(ev) : ev.coh[i] = g /\ Seen(ev, i, t) /\ Seen(ev, i, BaseOf(ev, g, t))}
ControlAt(ev, g, t) == {i \in Units(ev) : MayControl(ev, i, g, t) /\ Seen(ev, i, t) /\ Seen(ev, i, BaseOf(ev, g, t))}
Identified(ev, g, t) ==
  /\ HasPer(ev, t) /\ HasPer(ev, BaseOf(ev, g, t)) /\ BaseOf(ev, g, t) # t
  /\ TreatedAt(ev, g, t) # {} /\ ControlAt(ev, g, t) # {}

Change(ev, i, g, t) == OutAt(ev, i, t) (-) OutAt(ev, i, BaseOf(ev, g, t))
CovAt(ev, i, g, t) == ev.X[i][ColOf(ev, BaseOf(ev, g, t))]
HasCov(ev) == ev.ncov > 0
CovComplete(ev, g, t) == \A i \in TreatedAt(ev, g, t) \cup ControlAt(ev, g, t) : \A k \in 1..ev.ncov : ~IsNaN(CovAt(ev, i, g, t)[k])
VarOr0(xs) == IF Len(xs) > 1 THEN VarQ(xs, 1) ELSE Zero
Clip(p) == IF Lt(p, Nm("0.01")) THEN Nm("0.01") ELSE IF Lt(Nm("0.99"), p) THEN Nm("0.99") ELSE p

(* difference of mean changes; infl is the influence of the units in order ts \o cs *)
Unconditional(dt, dc) ==
  LET nt == Len(dt) nc == Len(dc) mt == MeanQ(dt) mc == MeanQ(dc)
  IN [att |-> mt (-) mc, var |-> (VarOr0(dt) (/) Nm(nt)) (+) (VarOr0(dc) (/) Nm(nc)),
      infl |-> Force([j \in 1..(nt + nc) |-> IF j =< nt THEN (dt[j] (-) mt) (/) Nm(nt) ELSE (mc (-) dc[j - nt]) (/) Nm(nc)]), ok |-> TRUE, exact |-> TRUE]

(* outcome regression on the controls, predicted for everyone.  With dependent covariates any maximal independent
   set of columns is a legitimate choice: one candidate per choice. *)
ColumnChoices(Xc) ==
  LET k == NCols(Xc)
      r == RankQ(Xc)
      subs == {S \in SUBSET (1..k) : Cardinality(S) = r /\ RankQ(Cols(Xc, SortedInts(S))) = r}
  IN IF r = k THEN << SortedInts(1..k) >> ELSE LET q == SeqOfSet(subs) IN [j \in 1..Len(q) |-> SortedInts(q[j])]
WithOne(rows) == [i \in 1..Len(rows) |-> <<One>> \o rows[i]]

RegOn(dt, dc, Xt, Xc, ch) ==
  LET b == Force(Beta(Cols(Xc, ch), dc))
      nt == Len(dt) nc == Len(dc)
      rt == Force([j \in 1..nt |-> dt[j] (-) Dot(Cols(Xt, ch)[j], b)])
      rc == Force([j \in 1..nc |-> dc[j] (-) Dot(Cols(Xc, ch)[j], b)])
      att == MeanQ(rt)
  IN [att |-> att, rt |-> rt, rc |-> rc,
      var |-> (VarOr0(rt) (/) Nm(nt)) (+) (VarOr0(rc) (/) Nm(nc)),
      infl |-> Force([j \in 1..(nt + nc) |-> IF j =< nt THEN (rt[j] (-) att) (/) Nm(nt) ELSE NegN(rc[j - nt] (/) Nm(nc))]), ok |-> TRUE, exact |-> TRUE]

Odds(lg, nt, nc) == Force([j \in 1..nc |-> LET p == Clip(lg.p[nt + j]) IN p (/) (One (-) p)])
IpwOn(dt, dc, lg) ==
  LET nt == Len(dt) nc == Len(dc)
      o == Odds(lg, nt, nc)
      w == Force([j \in 1..nc |-> o[j] (/) SumQ(o)])
      mt == MeanQ(dt) mc == Dot(w, dc)
      ic == Force([j \in 1..nc |-> w[j] (.) (dc[j] (-) mc)])
  IN [att |-> mt (-) mc, var |-> (VarOr0(dt) (/) Nm(nt)) (+) SumQ([j \in 1..nc |-> Sq(ic[j])]),
      infl |-> Force([j \in 1..(nt + nc) |-> IF j =< nt THEN (dt[j] (-) mt) (/) Nm(nt) ELSE NegN(ic[j - nt])]), ok |-> lg.ok, exact |-> FALSE]
DrOn(dt, dc, Xt, Xc, ch, lg) ==
  LET r == RegOn(dt, dc, Xt, Xc, ch)
      nt == Len(dt) nc == Len(dc)
      o == Odds(lg, nt, nc)
      aug == Force([j \in 1..nc |-> NegN(o[j] (.) r.rc[j]) (/) Nm(nt)])
      att == MeanQ(r.rt) (+) SumQ(aug)
      psi == Force([j \in 1..(nt + nc) |-> IF j =< nt THEN (r.rt[j] (-) att) (/) Nm(nt) ELSE aug[j - nt]])
  IN [att |-> att, var |-> SumQ([j \in 1..(nt + nc) |-> Sq(psi[j])]), infl |-> psi, ok |-> lg.ok, exact |-> FALSE]

(* the acceptable values of one group-time effect: a sequence of candidates *)
Candidates(ev, g, t) ==
  LET ts == SortedInts(TreatedAt(ev, g, t)) cs == SortedInts(ControlAt(ev, g, t))
      dt == Force([j \in 1..Len(ts) |-> Change(ev, ts[j], g, t)])
      dc == Force([j \in 1..Len(cs) |-> Change(ev, cs[j], g, t)])
  IN IF ~HasCov(ev) \/ ~CovComplete(ev, g, t) THEN << Unconditional(dt, dc) >>
     ELSE LET Xt == Force(WithOne([j \in 1..Len(ts) |-> CovAt(ev, ts[j], g, t)]))
              Xc == Force(WithOne([j \in 1..Len(cs) |-> CovAt(ev, cs[j], g, t)]))
              lg == IF ev.method = "reg" THEN [ok |-> TRUE, p |-> <<>>]
                    ELSE Force(LogitFit(Xt \o Xc, [j \in 1..(Len(ts) + Len(cs)) |-> IF j =< Len(ts) THEN One ELSE Zero]))
              chs == ColumnChoices(Xc)
          IN IF ~lg.ok THEN << [att |-> Zero, var |-> Zero, infl |-> <<>>, ok |-> FALSE, exact |-> FALSE] >>
             ELSE CASE ev.method = "reg" -> [q \in 1..Len(chs) |-> RegOn(dt, dc, Xt, Xc, chs[q])]
                    [] ev.method = "ipw" -> << IpwOn(dt, dc, lg) >>
                    [] ev.method = "dr" -> [q \in 1..Len(chs) |-> DrOn(dt, dc, Xt, Xc, chs[q], lg)]

(* all identified group-time cells, by cohort then period *)
Cells(ev) ==
  LET gs == Cohorts(ev)
  IN Flat([a \in 1..Len(gs) |-> SelectSeq([q \in 1..Len(ev.periods) |-> <<gs[a], ev.periods[q]>>], LAMBDA c : Identified(ev, c[1], c[2]))])
Post(ev, c) == c[2] >= c[1] - ev.a

(* the panel's effects with the influence as a function of the unit *)
Model(ev) ==
  LET cs == Cells(ev)
  IN Force([q \in 1..Len(cs) |->
       LET g == cs[q][1] t == cs[q][2]
           k == Candidates(ev, g, t)[1]
           ts == SortedInts(TreatedAt(ev, g, t)) cc == SortedInts(ControlAt(ev, g, t))
           all == ts \o cc
       IN [g |-> g, t |-> t, att |-> k.att, var |-> k.var, ok |-> k.ok, nt |-> Len(ts), nc |-> Len(cc),
           infl |-> [i \in Units(ev) |-> SumQ(Flat([j \in 1..Len(all) |-> IF all[j] = i /\ k.ok THEN <<k.infl[j]>> ELSE <<>>]))]]])
=============================================================================
