------------------------- MODULE P19_ParallelTrends -------------------------
(***************************************************************************)
(* Pre-treatment comparisons of the two groups: slopes, the distribution   *)
(* of changes, and equivalence of mean changes.                            *)
(***************************************************************************)
EXTENDS Inference, Sampling

N(ev) == Len(ev.y)
Periods(ev) == SortedInts({ev.per[i] : i \in 1..N(ev)})
(* the requested pre periods, or the first half of the periods *)
Pre(ev) == IF ev.givenpre THEN {ev.pre[k] : k \in 1..Len(ev.pre)} ELSE LET p == Periods(ev) IN {p[k] : k \in 1..(Len(p) \div 2)}
Rows(ev, g) == SelectSeq([i \in 1..N(ev) |-> i], LAMBDA i : ev.per[i] \in Pre(ev) /\ ev.d[i] = g)
Pick(s, ix) == [k \in 1..Len(ix) |-> s[ix[k]]]

(* --- linear trends --- *)
Trend(ev, g) ==
  LET ix == Rows(ev, g)
      n == Len(ix)
      t == [k \in 1..n |-> Nm(ev.per[ix[k]])]
      y == Pick(ev.y, ix)
      mt == MeanQ(t) my == MeanQ(y)
      tv == SumQ([k \in 1..n |-> Sq(t[k] (-) mt)])
      sl == SumQ([k \in 1..n |-> (t[k] (-) mt) (.) (y[k] (-) my)]) (/) tv
      ssr == SumQ([k \in 1..n |-> Sq((y[k] (-) my) (-) (sl (.) (t[k] (-) mt)))])
      nan == Nm("nan")
  IN IF n < 2 \/ NumEq(tv, Zero) THEN [slope |-> nan, se |-> nan]
     (* two observations fit a line exactly and say nothing about its precision *)
     ELSE [slope |-> sl, se |-> IF n = 2 THEN nan ELSE SqrtPos((ssr (/) Nm(n - 2)) (/) tv)]
TrendClauses(ev) ==
  LET r == ev.res
      a == Force(Trend(ev, 1)) b == Force(Trend(ev, 0))
      diff == a.slope (-) b.slope
      se == IF IsFin(a.se) /\ IsFin(b.se) THEN SqrtPos(Sq(a.se) (+) Sq(b.se)) ELSE Nm("nan")
      ok == IsFin(diff) /\ IsFin(se) /\ Lt(Nm("1e-7"), se)
      p == PValue(diff (/) se, "null")
  IN << Eq("treated_slope", r.ts, a.slope), Eq("control_slope", r.cs, b.slope), Eq("treated_slope_se", r.tse, a.se), Eq("control_slope_se", r.cse, b.se),
        Eq("slope_difference", r.diff, diff), Eq("slope_difference_se", r.se, se) >>
     \o When(ok, << Eq("trend_t", r.t, diff (/) se), EqTol("trend_p", r.p, p, "1e-6", "1e-12") >>
          \o When(Lt(Nm("1e-6"), Abs(p (-) Nm("0.05"))), << C("trend_plausible_iff_not_rejected", r.plausible = IF Lt(Nm("0.05"), p) THEN "yes" ELSE "no") >>))
     \o When(~IsFin(diff) \/ ~IsFin(se), << CD("trend_undetermined", IsNaN(r.t) /\ IsNaN(r.p) /\ r.plausible = "undetermined", <<ShowN(r.t), ShowN(r.p), r.plausible>>) >>)

(* --- changes between successive observed pre periods --- *)
UnitPeriods(ev, u) == SortedInts({ev.per[i] : i \in {j \in 1..N(ev) : ev.unit[j] = u /\ ev.per[j] \in Pre(ev)}})
At(ev, u, t) == LET i == CHOOSE j \in 1..N(ev) : ev.unit[j] = u /\ ev.per[j] = t IN ev.y[i]
GroupUnits(ev, g) == SortedInts({ev.unit[i] : i \in {j \in 1..N(ev) : ev.d[j] = g /\ ev.per[j] \in Pre(ev)}})
UnitChanges(ev, g) ==
  LET us == GroupUnits(ev, g)
      of(u) == LET p == UnitPeriods(ev, u) IN [k \in 1..(IF p = <<>> THEN 0 ELSE Len(p) - 1) |-> At(ev, u, p[k + 1]) (-) At(ev, u, p[k])]
  IN Flat([k \in 1..Len(us) |-> of(us[k])])
MeanChanges(ev, g) ==
  LET ix == Rows(ev, g)
      p == SortedInts({ev.per[ix[k]] : k \in 1..Len(ix)})
      m(t) == MeanQ(Pick(ev.y, SelectSeq(ix, LAMBDA i : ev.per[i] = t)))
  IN [k \in 1..(IF p = <<>> THEN 0 ELSE Len(p) - 1) |-> m(p[k + 1]) (-) m(p[k])]
(* a missing outcome takes the two changes it is part of with it *)
Changes(ev, g) == IF ev.byunit THEN SelectSeq(UnitChanges(ev, g), LAMBDA c : IsFin(c)) ELSE MeanChanges(ev, g)

(* distance between empirical distribution functions *)
Ecdf(s, x) == Nm(CountIf(s, LAMBDA v : Le(v, x))) (/) Nm(Len(s))
Wasserstein(a, b) ==
  LET v == SortQ(a \o b)
  IN SumQ([k \in 1..(Len(v) - 1) |-> (v[k + 1] (-) v[k]) (.) Abs(Ecdf(a, v[k]) (-) Ecdf(b, v[k]))])
(* n1*n2 times the largest gap, an integer *)
KsGap(a, b) ==
  LET v == a \o b
      gap(x) == LET d == (CountIf(a, LAMBDA u : Le(u, x)) * Len(b)) - (CountIf(b, LAMBDA u : Le(u, x)) * Len(a)) IN IF d < 0 THEN 0 - d ELSE d
  IN CHOOSE m \in {gap(v[k]) : k \in 1..Len(v)} : \A k \in 1..Len(v) : gap(v[k]) =< m
(* orderings of n1 and n2 observations whose distribution functions stay closer than h/(n1 n2) *)
RECURSIVE PathRow(_, _, _, _), RowTo(_, _, _, _, _, _)
Inside(i, j, n1, n2, h) == LET d == (i * n2) - (j * n1) IN (IF d < 0 THEN 0 - d ELSE d) < h
RowTo(i, j, up, acc, m, h) ==          \* m = <<n1, n2>>
  IF j > m[2] THEN acc
  ELSE LET left == IF j = 0 THEN 0 ELSE acc[j]
           above == IF i = 0 THEN IF j = 0 THEN 1 ELSE 0 ELSE up[j + 1]
       IN RowTo(i, j + 1, up, Append(acc, IF Inside(i, j, m[1], m[2], h) THEN left + above ELSE 0), m, h)
PathRow(i, n1, n2, h) == RowTo(i, 0, IF i = 0 THEN <<>> ELSE PathRow(i - 1, n1, n2, h), <<>>, <<n1, n2>>, h)
Orderings(n1, n2) == PathRow(n1, n1, n2, (n1 * n2) + 1)[n2 + 1]
KsP(n1, n2, h) == IF h = 0 THEN One ELSE One (-) (Nm(PathRow(n1, n1, n2, h)[n2 + 1]) (/) Nm(Orderings(n1, n2)))

Tie == Nm("1e-9")
Subsets(n, k) == {S \in SUBSET (1..n) : Cardinality(S) = k}
(* the distances of all reassignments of the changes to groups of the same sizes *)
Reassigned(a, b) ==
  LET all == a \o b
      n == Len(all)
      ss == SeqOfSet(Subsets(n, Len(a)))
  IN Force([k \in 1..Len(ss) |-> Wasserstein(Pick(all, SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in ss[k])),
                                              Pick(all, SelectSeq([i \in 1..n |-> i], LAMBDA i : i \notin ss[k])))])
ShareFrom(ds, w) == Nm(CountIf(ds, LAMBDA v : Le(w, v))) (/) Nm(Len(ds))

RobustClauses(ev) ==
  LET r == ev.res
      a == Force(Changes(ev, 1)) b == Force(Changes(ev, 0))
      sorted(s, t) == Len(s) = Len(t) /\ LET x == SortQ(s) y == SortQ(t) IN \A k \in 1..Len(x) : Near(x[k], y[k])
  IN << CD("treated_changes", sorted(r.tch, a), Len(r.tch)), CD("control_changes", sorted(r.cch, b), Len(r.cch)), C("same_seed_same_result", ev.again) >>
     \o IF Len(a) < 2 \/ Len(b) < 2
        THEN << CD("too_few_changes_undetermined", r.plausible = "undetermined" /\ IsNaN(r.w) /\ IsNaN(r.wp) /\ IsNaN(r.ks) /\ IsNaN(r.ksp) /\ r.error, r.plausible) >>
        ELSE
        LET w == Wasserstein(a, b)
            sd == SqrtPos(VarQ(a \o b, 1))
            h == KsGap(a, b)
            vb == VarQ(b, 1)
            norm == w (/) sd
            (* any finite sample; rounding may split ties of the distance *)
            exact == Len(a) + Len(b) =< 9
            ds == IF exact THEN Reassigned(a, b) ELSE <<>>
            lo == IF exact THEN ShareFrom(ds, w (+) Tie) ELSE Zero
            hi == IF exact THEN ShareFrom(ds, w (-) Tie) ELSE One
            band(q) == (Nm(6) (.) SqrtPos((q (.) (One (-) q)) (/) Nm(ev.b))) (+) Tie
        IN << Eq("wasserstein", r.w, w), Eq("ks", r.ks, Nm(h) (/) Nm(Len(a) * Len(b))), Eq("mean_difference", r.mean, MeanQ(a) (-) MeanQ(b)),
              C("group_sizes", r.nt = Len(a) /\ r.nc = Len(b)) >>
           \o When(Len(a) + Len(b) =< 24, << EqTol("ks_p", r.ksp, KsP(Len(a), Len(b), h), "1e-6", "1e-9") >>)
           \o When(Lt(Nm("1e-12"), vb), << Eq("variance_ratio", r.vr, VarQ(a, 1) (/) vb) >>)
           \o When(NumEq(vb, Zero) /\ ev.dyadic, << C("variance_ratio_undefined", IsNaN(r.vr)) >>)
           \o When(Lt(Nm("1e-12"), sd), << Eq("wasserstein_normalized", r.wn, norm) >>)
           (* p-value: a share of the permutations, near the share of all reassignments *)
           \o << CD("p_is_a_share_of_permutations", LET k == r.wp (.) Nm(ev.b) IN Le(Abs(k (-) FloorN(k (+) Nm("0.5"))), Nm("1e-6")) /\ Le(Zero, r.wp) /\ Le(r.wp, One), ShowN(r.wp)),
                 CD("p_near_exact_share", Le(lo (-) band(lo), r.wp) /\ Le(r.wp, hi (+) band(hi)), <<ShowN(r.wp), ShowN(lo), ShowN(hi)>>) >>
           \o When((Lt(Nm("1e-12"), sd) /\ Lt(Nm("1e-9"), Abs(norm (-) ev.threshold))) \/ (NumEq(sd, Zero) /\ ev.dyadic),
                << CD("plausible_when_close_and_not_rejected", r.plausible = IF Lt(Nm("0.05"), r.wp) /\ (NumEq(sd, Zero) \/ Lt(norm, ev.threshold)) THEN "yes" ELSE "no", <<r.plausible, ShowN(r.wp), ShowN(norm)>>) >>)

(* --- two one-sided Welch tests --- *)
EquivalenceClauses(ev) ==
  LET r == ev.res
      a == Force(Changes(ev, 1)) b == Force(Changes(ev, 0))
      na == Nm(Len(a)) nb == Nm(Len(b))
  IN IF Len(a) < 2 \/ Len(b) < 2 THEN << CD("too_few_changes_undetermined", r.eq = "undetermined" /\ IsNaN(r.p) /\ r.error, r.eq) >>
     ELSE
     LET va == VarQ(a, 1) (/) na vb == VarQ(b, 1) (/) nb
         md == MeanQ(a) (-) MeanQ(b)
     IN IF Lt(va (+) vb, Nm("1e-20")) THEN << Eq("equivalence_mean", r.mean, md) >>
           \o When(NumEq(va (+) vb, Zero) /\ ev.dyadic, << CD("no_variation_undetermined", r.eq = "undetermined" /\ IsNaN(r.p) /\ r.error, r.eq) >>)
        ELSE
        LET se == SqrtPos(va (+) vb)
            m == IF ev.givenmargin THEN ev.margin ELSE Nm("0.5") (.) SqrtPos(VarQ(a \o b, 1))
            df == Sq(va (+) vb) (/) ((Sq(va) (/) (na (-) One)) (+) (Sq(vb) (/) (nb (-) One)))
            tl == (md (+) m) (/) se
            tu == (md (-) m) (/) se
            pl == TSf(tl, df) pu == TSf(Zero (-) tu, df)
            p == IF Lt(pl, pu) THEN pu ELSE pl
        IN << Eq("equivalence_mean", r.mean, md), Eq("equivalence_se", r.se, se), Eq("margin", r.margin, m), Eq("welch_df", r.df, df), Eq("lower_t", r.tl, tl), Eq("upper_t", r.tu, tu),
              EqTol("lower_p", r.pl, pl, "1e-6", "1e-11"), EqTol("upper_p", r.pu, pu, "1e-6", "1e-11"), EqTol("tost_p", r.p, p, "1e-6", "1e-11") >>
           \o When(Lt(Nm("1e-7"), Abs(p (-) Nm("0.05"))), << C("equivalent_iff_both_reject", r.eq = IF Lt(p, Nm("0.05")) THEN "yes" ELSE "no") >>)

Clauses(ev) ==
  IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE CASE ev.kind = "trend" -> TrendClauses(ev) [] ev.kind = "robust" -> RobustClauses(ev) [] ev.kind = "tost" -> EquivalenceClauses(ev)
=============================================================================
