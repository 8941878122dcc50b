--------------------------- MODULE P10_SunAbraham ---------------------------
(***************************************************************************)
(* Interaction-weighted event study of Sun and Abraham (2021).             *)
(* Rows: ev.unit[i], ev.per[i], ev.coh[i] (0 never treated), ev.y[i].      *)
(***************************************************************************)
EXTENDS Designs, Sampling

Rows(ev) == 1..Len(ev.y)
CohortsOf(ev, rows) == SortedInts({ev.coh[i] : i \in {j \in rows : ev.coh[j] # 0}})
RelTimes(ev, rows) == {ev.per[i] - ev.coh[i] : i \in {j \in rows : ev.coh[j] # 0}}
Ref(ev) == -1 - ev.a
(* the event times estimated: all that are seen but the reference, however far from adoption *)
Estimated(ev) == SelectSeq(SortedInts(RelTimes(ev, Rows(ev))), LAMBDA e : e # Ref(ev))
(* cohort-by-event-time cells that occur in a sample; s is the sequence of its rows (with repeats in a resample) *)
CellsOf(ev, s, es) ==
  LET gs == CohortsOf(ev, {s[i] : i \in 1..Len(s)})
      seen == {<<ev.coh[s[i]], ev.per[s[i]] - ev.coh[s[i]]>> : i \in {i \in 1..Len(s) : ev.coh[s[i]] # 0}}
  IN Flat([a \in 1..Len(gs) |-> SelectSeq([b \in 1..Len(es) |-> <<gs[a], es[b]>>], LAMBDA c : c \in seen)])
CellCol(ev, s, c) == [i \in 1..Len(s) |-> IF ev.coh[s[i]] = c[1] /\ ev.per[s[i]] - ev.coh[s[i]] = c[2] THEN One ELSE Zero]

(* removes unit and period effects *)
Annihilate(unit, per) ==
  LET X0 == FromCols(<<Ones(Len(unit))>> \o DummyCols(unit) \o DummyCols(per))
      X == Force(Cols(X0, PivotCols(X0)))
      H == Force(RndM(MatMul(X, RndM(MatMul(Bread(X), Transp(X))))))
  IN Force([i \in 1..Len(unit) |-> [j \in 1..Len(unit) |-> (IF i = j THEN One ELSE Zero) (-) H[i][j]]])
Net(M, x) == RndV(MatVec(M, x))

(* the saturated regression of a sample; uid numbers the (re)sampled units *)
Saturated(ev, s, uid, cells) ==
  LET M == Annihilate(uid, [i \in 1..Len(s) |-> ev.per[s[i]]])
      cols == [q \in 1..Len(cells) |-> Net(M, CellCol(ev, s, cells[q]))] \o [k \in 1..Len(ev.cov) |-> Net(M, [i \in 1..Len(s) |-> ev.cov[k][s[i]]])]
      X == Force(FromCols(cols))
  IN [X |-> X, y |-> Net(M, [i \in 1..Len(s) |-> ev.y[s[i]]])]

UnitsOfCohort(ev, g) == Cardinality({ev.unit[i] : i \in {j \in Rows(ev) : ev.coh[j] = g}})
(* shares of the cohorts observed at event time e; size(g) is the number of units of cohort g *)
Shares(cells, e, size(_)) ==
  LET at == SelectSeq(cells, LAMBDA c : c[2] = e)
      tot == SumQ([q \in 1..Len(at) |-> Nm(size(at[q][1]))])
  IN [q \in 1..Len(cells) |-> IF cells[q][2] = e THEN Nm(size(cells[q][1])) (/) tot ELSE Zero]
NAt(ev, s, e) == Cardinality({i \in 1..Len(s) : ev.coh[s[i]] # 0 /\ ev.per[s[i]] - ev.coh[s[i]] = e})
EventsOf(cells) == SortedInts({cells[q][2] : q \in 1..Len(cells)})
(* weights of the cells in the overall effect: event times at or after adoption, by treated observations *)
OverallWeights(ev, s, cells, size(_)) ==
  LET es == SelectSeq(EventsOf(cells), LAMBDA e : e >= 0)
      tot == SumQ([j \in 1..Len(es) |-> Nm(NAt(ev, s, es[j]))])
      sh == Force([j \in 1..Len(es) |-> Shares(cells, es[j], size)])
  IN Force([q \in 1..Len(cells) |-> SumQ([j \in 1..Len(es) |-> (Nm(NAt(ev, s, es[j])) (/) tot) (.) sh[j][q]])])

CheckComb(name, at, r, ce, V, w, alpha) ==
  LET nan == \E q \in 1..Len(w) : ~NumEq(w[q], Zero) /\ IsNaN(ce[q])
      nz == SelectSeq([q \in 1..Len(w) |-> q], LAMBDA q : ~NumEq(w[q], Zero))
      var == SumQ(Flat([a \in 1..Len(nz) |-> [b \in 1..Len(nz) |-> (w[nz[a]] (.) w[nz[b]]) (.) V[nz[a]][nz[b]]]]))
  IN IF nan THEN << C(name \o "_nan_if_unidentified", IsNaN(r.eff) /\ IsNaN(r.se) /\ IsNaN(r.tst) /\ IsNaN(r.p)) >>
     ELSE << EqAt(name, at, r.eff, SumQ([a \in 1..Len(nz) |-> w[nz[a]] (.) ce[nz[a]]])) >>
          \o When(IsFin(var) /\ Lt(Nm("1e-15"), var), << EqAt(name \o "_se", at, r.se, Sqrt(var)) >>)
          \o Coherent(name, r.eff, r.se, r.tst, r.p, r.lo, r.hi, "null", alpha)

FitClauses(ev) ==
  LET n == Len(ev.y)
      s == [i \in 1..n |-> i]
      es0 == Estimated(ev)
      cells == CellsOf(ev, s, es0)
      m == Len(cells)
      S == Force(Saturated(ev, s, ev.unit, cells))
      r == ev.res
      rank == RankQ(S.X)
      cellAt(c) == r.cells[CHOOSE q \in 1..Len(r.cells) : r.cells[q].g = c[1] /\ r.cells[q].e = c[2]]
      same == {<<r.cells[q].g, r.cells[q].e>> : q \in 1..Len(r.cells)} = {cells[q] : q \in 1..m} /\ Len(r.cells) = m
      kept == IF same THEN SelectSeq([q \in 1..m |-> q], LAMBDA q : ~IsNaN(cellAt(cells[q]).eff)) ELSE <<>>
      full == rank = NCols(S.X)
      (* with covariates the dropped column may be a covariate, which is not reported *)
      use == IF full THEN [q \in 1..NCols(S.X) |-> q] ELSE kept
      sub == Force(Cols(S.X, use))
      usable == full \/ (Len(ev.cov) = 0 /\ Len(kept) = rank /\ RankQ(sub) = rank)
      b == Force(Beta(sub, S.y))
      u == Force(RndV(VSub(S.y, Fitted(sub, b))))
      V == IF n > rank THEN Force(Vcov("cluster", sub, u, ev.g)) ELSE <<>>
      pos(q) == CHOOSE j \in 1..Len(use) : use[j] = q
      ce == Force([q \in 1..m |-> IF \E j \in 1..Len(use) : use[j] = q THEN b[pos(q)] ELSE Nm("nan")])
      VV == Force([p \in 1..m |-> [q \in 1..m |-> IF n > rank /\ ~IsNaN(ce[p]) /\ ~IsNaN(ce[q]) THEN V[pos(p)][pos(q)] ELSE Nm("nan")]])
      es == EventsOf(cells)
      size(g) == UnitsOfCohort(ev, g)
      evAt(e) == r.es[CHOOSE q \in 1..Len(r.es) : r.es[q].e = e]
      post == SelectSeq(es, LAMBDA e : e >= 0)
  IN << CD("cells_are_the_observed_ones", same, <<{<<r.cells[q].g, r.cells[q].e>> : q \in 1..Len(r.cells)}, cells>>),
        CD("event_times", {r.es[q].e : q \in 1..Len(r.es)} = {es[q] : q \in 1..Len(es)}, <<{r.es[q].e : q \in 1..Len(r.es)}, es>>),
        C("groups", r.groups = CohortsOf(ev, Rows(ev))), C("n_obs", r.nobs = n),
        CD("n_treated_units", r.ntr = Cardinality({ev.unit[i] : i \in {j \in Rows(ev) : ev.coh[j] # 0}}), r.ntr),
        CD("n_control_units", r.nco = Cardinality({ev.unit[i] : i \in {j \in Rows(ev) : ev.coh[j] = 0}}), r.nco),
        CD("drops_exactly_the_deficiency", Len(ev.cov) > 0 \/ Len(kept) = rank, <<Len(kept), rank>>),
        C("kept_columns_independent", Len(ev.cov) > 0 \/ usable) >>
     \o When(same /\ usable /\ {r.es[q].e : q \in 1..Len(r.es)} = {es[q] : q \in 1..Len(es)},
          ForEach(m, LAMBDA q :
             << EqAt("cohort_effect", cells[q], cellAt(cells[q]).eff, ce[q]),
                EqAt("cohort_weight", cells[q], cellAt(cells[q]).w, Shares(cells, cells[q][2], size)[q]) >>
             \o When(IsFin(VV[q][q]) /\ Lt(Nm("1e-15"), VV[q][q]), << EqAt("cohort_effect_se", cells[q], cellAt(cells[q]).se, Sqrt(VV[q][q])) >>))
          \o When(~ev.boot,
               ForEach(Len(es), LAMBDA j : CheckComb("event", es[j], evAt(es[j]), ce, VV, Shares(cells, es[j], size), ev.alpha))
               \o When(post # <<>>, CheckComb("overall", "overall", r.o, ce, VV, OverallWeights(ev, s, cells, size), ev.alpha)))
          \o ForEach(Len(es), LAMBDA j : << CD("n_groups", evAt(es[j]).n = Len(SelectSeq(cells, LAMBDA c : c[2] = es[j])), es[j]) >>))

---------------------------------------------------------------------------
(* Pairs bootstrap: units are resampled with replacement.  All resamples (as multisets) are enumerated; the ones with
   a full-rank regression have a determined overall effect, and the recorded draws must be among them. *)
RECURSIVE Multisets(_, _)
(* nondecreasing sequences of length k over 1..n *)
Multisets(n, k) == IF k = 0 THEN {<<>>} ELSE {Append(q, x) : q \in Multisets(n, k - 1), x \in 1..n}
NonDec(q) == \A i \in 1..(Len(q) - 1) : q[i] =< q[i + 1]
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
RECURSIVE ProdFact(_, _)
ProdFact(q, i) == IF i = 0 THEN 1 ELSE Fact(Cardinality({j \in 1..Len(q) : q[j] = i})) * ProdFact(q, i - 1)

Resample(ev, us, q) ==
  LET rowsOf(u) == SortedInts({i \in Rows(ev) : ev.unit[i] = u})
      s == Flat([j \in 1..Len(q) |-> rowsOf(us[q[j]])])
      uid == Flat([j \in 1..Len(q) |-> [x \in 1..Len(rowsOf(us[q[j]])) |-> j]])
      es0 == Estimated(ev)
      cells == CellsOf(ev, s, es0)
      size(g) == Cardinality({j \in 1..Len(q) : \E i \in Rows(ev) : ev.unit[i] = us[q[j]] /\ ev.coh[i] = g})
      dead == [ok |-> FALSE, o |-> Zero, ev |-> [j \in 1..Len(es0) |-> Zero]]
  IN IF cells = <<>> \/ (\A c \in 1..Len(cells) : cells[c][2] < 0) THEN dead
     ELSE LET S == Force(Saturated(ev, s, uid, cells))
          IN IF RankQ(S.X) < NCols(S.X) \/ Len(s) =< NCols(S.X) THEN dead
             ELSE LET b == Force(Beta(S.X, S.y))
                      comb(w) == SumQ([c \in 1..Len(cells) |-> w[c] (.) b[c]])
                  IN [ok |-> TRUE, o |-> comb(OverallWeights(ev, s, cells, size)),
                      ev |-> [j \in 1..Len(es0) |-> IF \E c \in 1..Len(cells) : cells[c][2] = es0[j] THEN comb(Shares(cells, es0[j], size)) ELSE Nm("nan")]]

BootClauses(ev) ==
  LET us == SeqOfSet({ev.unit[i] : i \in Rows(ev)})
      n == Len(us)
      qs == SeqOfSet({q \in Multisets(n, n) : NonDec(q)})
      rs == Force([k \in 1..Len(qs) |-> Resample(ev, us, qs[k])])
      pr == Force([k \in 1..Len(qs) |-> Nm(Fact(n)) (/) Nm(ProdFact(qs[k], n) * (n ^ n))])
      good == Rnd(SumQ([k \in 1..Len(qs) |-> IF rs[k].ok THEN pr[k] ELSE Zero]))
      B == Len(ev.draws)
      hit(d) == IF IsFin(d) THEN {k \in 1..Len(qs) : rs[k].ok /\ Close(rs[k].o, d, Nm("1e-7"), Nm("1e-8"))} ELSE {}
      hits == Force([i \in 1..B |-> hit(ev.draws[i])])
      matched == CountIf(hits, LAMBDA h : h # {})
      sdCount == Sqrt(Nm(B) (.) (good (.) (One (-) good)))
      p == ev.res.o
  IN << CD("resamples_are_of_whole_units", Le((Nm(B) (.) good) (-) (Nm(6) (.) sdCount) (-) One, Nm(matched)), <<matched, B, ShowN(good)>>),
        C("draws_requested", B = ev.B) >>
     \o When(\A i \in 1..B : IsFin(ev.draws[i]),
          << Eq("overall_boot_se", p.se, StdQ(ev.draws, 1)), Eq("overall_boot_lo", p.lo, Quantile(ev.draws, ev.alpha (/) Nm(2))),
             Eq("overall_boot_hi", p.hi, Quantile(ev.draws, One (-) (ev.alpha (/) Nm(2)))),
             Eq("overall_boot_p", p.p,
                LET neg == Lt(p.eff, Zero)
                    k == CountIf(ev.draws, LAMBDA d : IF neg THEN Le(Zero, d) ELSE Le(d, Zero))
                    v == Rt(2 * k, B) w == IF Lt(One, v) THEN One ELSE v
                IN IF Lt(w, Rt(1, B + 1)) THEN Rt(1, B + 1) ELSE w) >>
          \o When(Lt(Nm("1e-7"), p.se), << Eq("overall_boot_t", p.tst, p.eff (/) p.se) >>))

Clauses(ev) ==
  CASE ev.kind = "fit" ->
         (IF ev.raised # ""
          THEN << CD("rejected_only_if_unusable", ev.raised = "ValueError" /\ ((\A i \in Rows(ev) : ev.coh[i] # 0) \/ (\A i \in Rows(ev) : ev.coh[i] = 0)
                        \/ CellsOf(ev, [i \in Rows(ev) |-> i], Estimated(ev)) = <<>>
                        \/ Len(ev.y) =< Len(CellsOf(ev, [i \in Rows(ev) |-> i], Estimated(ev))) + Len(ev.cov)
                        \/ Cardinality({ev.g[i] : i \in Rows(ev)}) < 2), ev.msg) >>
          ELSE << C("has_treated_and_never_treated", (\E i \in Rows(ev) : ev.coh[i] # 0) /\ (\E i \in Rows(ev) : ev.coh[i] = 0)) >> \o FitClauses(ev))
    [] ev.kind = "boot" -> BootClauses(ev)
    [] ev.kind = "repeat" -> << C("same_seed_same_draws", ev.d1 = ev.d2), C("other_seed_other_draws", ev.d1 # ev.d3) >>
=============================================================================
