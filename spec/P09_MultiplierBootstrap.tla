----------------------- MODULE P09_MultiplierBootstrap ----------------------
(***************************************************************************)
(* Multiplier bootstrap of the group-time effects: every draw gives each   *)
(* unit one multiplier and moves every effect by the weighted sum of the   *)
(* units' influences.  The published draws of the overall effect determine *)
(* the multipliers (the finite set of assignments is enumerated), and the  *)
(* multipliers determine every other standard error, interval and p-value. *)
(***************************************************************************)
EXTENDS StaggeredAgg, Sampling, Multipliers

Perturb(infl, us, w) == SumQ([j \in 1..Len(us) |-> w[j] (.) infl[us[j]]])

(* share of draws on the other side of zero, doubled; bounds when a draw is zero up to rounding *)
BootP(orig, ds) ==
  LET B == Len(ds)
      eps == Nm("1e-9")
      side(neg, tight) == CountIf(ds, LAMBDA d : IF neg THEN (IF tight THEN Lt(eps, d) ELSE Le(NegN(eps), d)) ELSE (IF tight THEN Lt(d, NegN(eps)) ELSE Le(d, eps)))
      lim(k) == LET p == Rt(2 * k, B) q == IF Lt(One, p) THEN One ELSE p IN IF Lt(q, Rt(1, B + 1)) THEN Rt(1, B + 1) ELSE q
      neg == Lt(orig, NegN(eps)) pos == Lt(eps, orig)
  IN [lo |-> IF neg THEN lim(side(TRUE, TRUE)) ELSE IF pos THEN lim(side(FALSE, TRUE)) ELSE Rt(1, B + 1),
      hi |-> IF neg THEN lim(side(TRUE, FALSE)) ELSE IF pos THEN lim(side(FALSE, FALSE)) ELSE One]

BootStats(name, at, r, orig, ds, alpha) ==
  LET sd == StdQ(ds, 1) p == BootP(orig, ds)
  IN << EqAt(name \o "_boot_se", at, r.se, sd),
        EqAt(name \o "_boot_lo", at, r.lo, Quantile(ds, alpha (/) Nm(2))),
        EqAt(name \o "_boot_hi", at, r.hi, Quantile(ds, One (-) (alpha (/) Nm(2)))),
        CD(name \o "_boot_p", Le(p.lo, r.p (+) Nm("1e-9")) /\ Le(r.p, p.hi (+) Nm("1e-9")), <<at, ShowN(r.p), ShowN(p.lo), ShowN(p.hi)>>),
        EqAt(name \o "_point_estimate_kept", at, r.eff, orig) >>
     \o When(Lt(Nm("1e-7"), sd), << EqTol(name \o "_boot_t", r.tst, orig (/) sd, "1e-6", "1e-8") >>)

Draws(ev, m) ==
  LET k == Keepers(ev, m)
      w == WeightsByTreated(k)
      us == SortedInts({i \in Units(ev) : \E q \in 1..Len(m) : ~NumEq(m[q].infl[i], Zero)})
      oi == Force([i \in Units(ev) |-> CombInfl(k, w, i)])
      o == CombAtt(k, w)
      ws == Force(MultValues(ev.wtype))
      As == SeqOfSet([1..Len(us) -> 1..Len(ws)])
      mult == Force([q \in 1..Len(As) |-> [j \in 1..Len(us) |-> ws[As[q][j]]]])
      val == Force([q \in 1..Len(As) |-> o (+) Perturb(oi, us, mult[q])])
      hit(d) == {q \in 1..Len(As) : Close(val[q], d, Nm("1e-8"), Nm("1e-9"))}
      hits == Force([b \in 1..Len(ev.draws) |-> hit(ev.draws[b])])
      (* values of another quantity along the draws; <<>> when the overall draws do not determine it *)
      along(att, infl) ==
        LET v == Force([q \in 1..Len(As) |-> att (+) Perturb(infl, us, mult[q])])
            det == \A b \in 1..Len(hits) : \A q1, q2 \in hits[b] : Close(v[q1], v[q2], Nm("1e-8"), Nm("1e-8"))
        IN IF \A b \in 1..Len(hits) : hits[b] # {} THEN (IF det THEN [b \in 1..Len(hits) |-> v[CHOOSE q \in hits[b] : TRUE]] ELSE <<>>) ELSE <<>>
      other(name, at, r, att, infl) == LET d == Force(along(att, infl)) IN IF d = <<>> THEN <<>> ELSE BootStats(name, at, r, att, d, ev.alpha)
      ts == EventTimes(ev, m)
      gs == SelectSeq(Cohorts(ev), LAMBDA g : GroupCells(ev, m, g) # <<>>)
  IN << CD("every_draw_is_a_possible_assignment", \A b \in 1..Len(hits) : hits[b] # {}, CountIf(hits, LAMBDA h : h = {})) >>
     \o BootStats("overall", "overall", ev.res.o, o, ev.draws, ev.alpha)
     \o ForEach(Len(m), LAMBDA q :
          LET r == ev.res.gt[CHOOSE z \in 1..Len(ev.res.gt) : ev.res.gt[z].g = m[q].g /\ ev.res.gt[z].t = m[q].t]
          IN other("gt", <<m[q].g, m[q].t>>, r, m[q].att, m[q].infl))
     \o When(ev.res.hases, ForEach(Len(ts), LAMBDA q :
          LET c == EventCells(ev, m, ts[q]) cw == WeightsByTreated(c)
          IN other("event", ts[q], ev.res.es[CHOOSE z \in 1..Len(ev.res.es) : ev.res.es[z].e = ts[q]], CombAtt(c, cw), Force([i \in Units(ev) |-> CombInfl(c, cw, i)]))))
     \o When(ev.res.hasgrp, ForEach(Len(gs), LAMBDA q :
          LET c == GroupCells(ev, m, gs[q]) cw == EqualWeights(c)
          IN other("group", gs[q], ev.res.grp[CHOOSE z \in 1..Len(ev.res.grp) : ev.res.grp[z].g = gs[q]], CombAtt(c, cw), Force([i \in Units(ev) |-> CombInfl(c, cw, i)]))))

Moments(ev, m) ==
  LET k == Keepers(ev, m)
      w == WeightsByTreated(k)
      oi == Force([i \in Units(ev) |-> CombInfl(k, w, i)])
      o == CombAtt(k, w)
      dev == Force([b \in 1..Len(ev.draws) |-> ev.draws[b] (-) o])
      sq == Force([b \in 1..Len(dev) |-> Sq(dev[b])])
      cu == Force([b \in 1..Len(dev) |-> dev[b] (.) sq[b]])
      v == SumOver(Units(ev), LAMBDA i : Sq(oi[i]))
      m3 == MultThird(ev.wtype) (.) SumOver(Units(ev), LAMBDA i : oi[i] (.) Sq(oi[i]))
      sd(xs) == Sqrt(VarQ(xs, 0) (/) Nm(Len(xs)))
  IN << CD("draws_centred", Le(Abs(MeanQ(dev)), Nm(6) (.) sd(dev)), <<ShowN(MeanQ(dev))>>),
        CD("draws_variance_is_summed_influence", Le(Abs(MeanQ(sq) (-) v), Nm(6) (.) sd(sq)), <<ShowN(MeanQ(sq)), ShowN(v)>>),
        CD("draws_third_moment", Le(Abs(MeanQ(cu) (-) m3), Nm(6) (.) sd(cu)), <<ShowN(MeanQ(cu)), ShowN(m3)>>) >>
     \o BootStats("overall", "overall", ev.res.o, o, ev.draws, ev.alpha)

Clauses(ev) ==
  CASE ev.kind = "repeat" -> << C("same_seed_same_draws", ev.d1 = ev.d2), C("other_seed_other_draws", ev.d1 # ev.d3) >>
    [] OTHER ->
  LET m == Model(ev)
      k == Keepers(ev, m)
  IN << C("n_bootstrap", ev.bn = ev.B), C("draws_requested", Len(ev.draws) = ev.B), CD("weight_type", ev.bw = ev.wtype, ev.bw), C("few_draws_warning", ev.warnedlow = (ev.B < 50)) >>
     \o (IF k = <<>> THEN << C("overall_nan_without_post_periods", IsNaN(ev.res.o.eff) /\ IsNaN(ev.res.o.se) /\ IsNaN(ev.res.o.p) /\ IsNaN(ev.res.o.tst) /\ IsNaN(ev.res.o.lo)) >>
         ELSE IF ev.kind = "moments" THEN Moments(ev, m) ELSE Draws(ev, m))
=============================================================================
