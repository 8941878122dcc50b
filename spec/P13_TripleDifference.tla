------------------------ MODULE P13_TripleDifference ------------------------
(***************************************************************************)
(* Triple differences over the eight cells (group, eligibility, period).   *)
(* Every method is a signed sum of eight cell levels for the covariate     *)
(* distribution of the treated and eligible, each with the influence of    *)
(* every observation on it.                                                *)
(*                                                                         *)
(* Event: y, G, P, T, cov (columns), method, robust, g (clusters or        *)
(* "null"), alpha, trim.                                                   *)
(***************************************************************************)
EXTENDS Designs, Logit

Rows(ev) == 1..Len(ev.y)
In(ev, a, b, t) == SelectSeq([i \in Rows(ev) |-> i], LAMBDA i : ev.G[i] = a /\ ev.P[i] = b /\ ev.T[i] = t)
CellList == << <<1, 1, 1>>, <<1, 1, 0>>, <<1, 0, 1>>, <<1, 0, 0>>, <<0, 1, 1>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 0, 0>> >>
Sign(c) == LET s == (IF c[3] = 1 THEN 1 ELSE -1) * (IF c[1] = c[2] THEN 1 ELSE -1) IN Nm(s)
AllCells(ev) == \A q \in 1..8 : In(ev, CellList[q][1], CellList[q][2], CellList[q][3]) # <<>>
NumCol(v) == [i \in 1..Len(v) |-> Nm(v[i])]

CovRow(ev, i) == <<One>> \o [k \in 1..Len(ev.cov) |-> ev.cov[k][i]]
(* probability of each cell of (group, eligibility): product of two logits, or the shares *)
Clip(p, e) == IF Lt(p, e) THEN e ELSE IF Lt(One (-) e, p) THEN One (-) e ELSE p
Scores2(ev) ==
  LET X == Force([i \in Rows(ev) |-> CovRow(ev, i)])
      a == LogitFit(X, NumCol(ev.G))
      b == LogitFit(X, NumCol(ev.P))
  IN IF ev.cov = <<>> THEN [ok |-> TRUE, G |-> <<>>, P |-> <<>>]
     ELSE IF ~a.ok \/ ~b.ok THEN [ok |-> FALSE, G |-> <<>>, P |-> <<>>]
     ELSE [ok |-> TRUE, G |-> Force([i \in Rows(ev) |-> Rnd(Clip(a.p[i], ev.trim))]), P |-> Force([i \in Rows(ev) |-> Rnd(Clip(b.p[i], ev.trim))])]
CellProb(ev, sc, a, b, i) ==
  LET share == Rt(Cardinality({j \in Rows(ev) : ev.G[j] = a /\ ev.P[j] = b}), Len(ev.y))
      pa == IF a = 1 THEN sc.G[i] ELSE One (-) sc.G[i]
      pb == IF b = 1 THEN sc.P[i] ELSE One (-) sc.P[i]
  IN Clip(IF ev.cov = <<>> THEN share ELSE pa (.) pb, ev.trim)
Weights(ev, sc, c, ix) == LET w == Force([q \in 1..Len(ix) |-> IF c[1] = 1 /\ c[2] = 1 THEN One ELSE CellProb(ev, sc, 1, 1, ix[q]) (/) CellProb(ev, sc, c[1], c[2], ix[q])])
                              tot == SumQ(w)
                          IN Force([q \in 1..Len(ix) |-> Rnd(w[q] (/) tot)])

At(ix, i) == IF \E q \in 1..Len(ix) : ix[q] = i THEN CHOOSE q \in 1..Len(ix) : ix[q] = i ELSE 0

IpwCell(ev, sc, c) ==
  LET ix == In(ev, c[1], c[2], c[3])
      w == Weights(ev, sc, c, ix)
      m == SumQ([q \in 1..Len(ix) |-> w[q] (.) ev.y[ix[q]]])
  IN [level |-> m, infl |-> Force([i \in Rows(ev) |-> LET q == At(ix, i) IN IF q = 0 THEN Zero ELSE w[q] (.) (ev.y[i] (-) m)]), ok |-> TRUE, fit |-> <<>>]
(* outcome model of the cell averaged over the treated and eligible, plus the reweighted mean residual *)
DrCell(ev, sc, c) ==
  LET ix == In(ev, c[1], c[2], c[3])
      ref == In(ev, 1, 1, c[3])
      X == Force([q \in 1..Len(ix) |-> CovRow(ev, ix[q])])
      k == Len(ev.cov) + 1
      short == Len(ix) < k \/ Len(ix) = 1
      full == RankQ(X) = k
      b == Force(Beta(X, [q \in 1..Len(ix) |-> ev.y[ix[q]]]))
      m == MeanQ([q \in 1..Len(ix) |-> ev.y[ix[q]]])
      mu == Force([i \in Rows(ev) |-> IF short \/ k = 1 THEN m ELSE Dot(CovRow(ev, i), b)])
      w == Weights(ev, sc, c, ix)
      mref == MeanQ([q \in 1..Len(ref) |-> mu[ref[q]]])
      res == Force([q \in 1..Len(ix) |-> ev.y[ix[q]] (-) mu[ix[q]]])
      mres == Dot(w, res)
  IN IF ~short /\ ~full THEN [level |-> Zero, infl |-> <<>>, ok |-> FALSE, fit |-> <<>>]
     ELSE [level |-> mref (+) mres, ok |-> TRUE, fit |-> [q \in 1..Len(ix) |-> mu[ix[q]]],
           infl |-> Force([i \in Rows(ev) |-> (IF At(ref, i) = 0 THEN Zero ELSE (mu[i] (-) mref) (/) Nm(Len(ref)))
                                         (+) (IF At(ix, i) = 0 THEN Zero ELSE w[At(ix, i)] (.) (res[At(ix, i)] (-) mres))])]

(* variance from the influence: independent cell samples, or independent clusters *)
VarFrom(ev, psi) ==
  IF ev.clustered
  THEN LET ids == SeqOfSet({ev.g[i] : i \in Rows(ev)}) n == Len(ids)
       IN Rt(n, n - 1) (.) SumQ([q \in 1..n |-> Sq(SumQ([i \in Rows(ev) |-> IF ev.g[i] = ids[q] THEN psi[i] ELSE Zero]))])
  ELSE SumQ([q \in 1..8 |-> LET ix == In(ev, CellList[q][1], CellList[q][2], CellList[q][3])
                                v == [j \in 1..Len(ix) |-> psi[ix[j]]]
                            IN IF Len(ix) < 2 THEN Zero ELSE Nm(Len(ix)) (.) VarQ(v, 1)])

Levels(ev, sc) == Force([q \in 1..8 |-> IF ev.method = "ipw" THEN IpwCell(ev, sc, CellList[q]) ELSE DrCell(ev, sc, CellList[q])])
Combine(ev, lv) == [att |-> SumQ([q \in 1..8 |-> Sign(CellList[q]) (.) lv[q].level]),
                    var |-> VarFrom(ev, Force([i \in Rows(ev) |-> SumQ([q \in 1..8 |-> Sign(CellList[q]) (.) lv[q].infl[i]])]))]

RegCols(ev) == LET g == NumCol(ev.G) p == NumCol(ev.P) t == NumCol(ev.T)
               IN <<Ones(Len(ev.y)), g, p, t, ColMul(g, p), ColMul(g, t), ColMul(p, t)>> \o ev.cov \o <<ColMul(ColMul(g, p), t)>>

Df(ev) == LET d == Len(ev.y) - 8 - Len(ev.cov) IN IF d < 1 THEN 1 ELSE d
Plain(ev) == SumQ([q \in 1..8 |-> LET ix == In(ev, CellList[q][1], CellList[q][2], CellList[q][3])
                                  IN Sign(CellList[q]) (.) MeanQ([j \in 1..Len(ix) |-> ev.y[ix[j]]])])
Names == << "Treated, Eligible, Post", "Treated, Eligible, Pre", "Treated, Ineligible, Post", "Treated, Ineligible, Pre",
            "Control, Eligible, Post", "Control, Eligible, Pre", "Control, Ineligible, Post", "Control, Ineligible, Pre" >>
Count(ev, a, b) == Cardinality({i \in Rows(ev) : ev.G[i] = a /\ ev.P[i] = b})
PopStd(v) == LET s == VarQ(v, 0) IN IF Lt(Nm("1e-18"), s) THEN Sqrt(s) ELSE Zero

Common(ev) ==
  LET r == ev.res IN
  << C("cell_counts", r.n11 = Count(ev, 1, 1) /\ r.n10 = Count(ev, 1, 0) /\ r.n01 = Count(ev, 0, 1) /\ r.n00 = Count(ev, 0, 0) /\ r.nobs = Len(ev.y)),
     C("n_clusters", IF ev.clustered THEN r.ncl = Cardinality({ev.g[i] : i \in Rows(ev)}) ELSE r.ncl = "null") >>
  \o ForEach(8, LAMBDA q : LET ix == In(ev, CellList[q][1], CellList[q][2], CellList[q][3])
                           IN << EqAt("group_means", Names[q], r.means[q], MeanQ([j \in 1..Len(ix) |-> ev.y[ix[j]]])) >>)
  \o Coherent("att", r.att, r.se, r.tst, r.p, r.lo, r.hi, Nm(Df(ev)), ev.alpha)
  \o When(IsFin(r.se) /\ NumEq(r.se, Zero), << C("undefined_without_spread", IsNaN(r.tst) /\ IsNaN(r.p)) >>)
  \o When(ev.cov = <<>>, << EqTol("without_covariates_the_difference_of_cell_means", r.att, Plain(ev), "1e-7", "1e-8") >>)

RegClauses(ev) ==
  LET F == Force(FocalFit(RegCols(ev), ev.y, IF ev.clustered THEN "cluster" ELSE IF ev.robust THEN "hc1" ELSE "hom", ev.g))
      r == ev.res
  IN IF ~F.identified THEN << C("effect_not_estimable", IsNaN(r.att)) >>
     ELSE << Eq("att_regression", r.att, F.coef) >>
          \o When(Len(ev.y) =< F.rank, << C("saturated_design_has_no_se", IsNaN(r.se)) >>)
          \o When(Len(ev.y) > F.rank /\ Lt(Nm("1e-16"), F.var), << Eq("se_regression", r.se, Sqrt(F.var)) >>)
          \o When(Lt(Zero, VarQ(ev.y, 0)), << Eq("r_squared", r.r2, RSquared(ev.y, F.resid)) >>)
          \o Common(ev)

ScoreClauses(ev) ==
  LET sc == Force(Scores2(ev))
      lv == Levels(ev, sc)
      M == Combine(ev, lv)
      r == ev.res
      rt == IF ev.cov = <<>> THEN "1e-7" ELSE "2e-4"
      ss == SumQ([q \in 1..8 |-> LET ix == In(ev, CellList[q][1], CellList[q][2], CellList[q][3])
                                 IN SumQ([j \in 1..Len(ix) |-> Sq(ev.y[ix[j]] (-) lv[q].fit[j])])])
  IN IF ~sc.ok THEN <<>>
     ELSE IF \E q \in 1..8 : ~lv[q].ok THEN Common(ev)
     ELSE << EqTol("att_" \o ev.method, r.att, M.att, rt, IF ev.cov = <<>> THEN "1e-8" ELSE "5e-4") >>
          \o When(Lt(Nm("1e-16"), M.var), << EqTol("se_" \o ev.method, r.se, Sqrt(M.var), IF ev.cov = <<>> THEN "1e-7" ELSE "1e-3", IF ev.cov = <<>> THEN "1e-9" ELSE "3e-4") >>)
          \o When(ev.cov # <<>> /\ ev.method = "dr" /\ Lt(Zero, VarQ(ev.y, 0)),
                  << Eq("r_squared", r.r2, One (-) (ss (/) SumQ([i \in Rows(ev) |-> Sq(ev.y[i] (-) MeanQ(ev.y))]))) >>)
          \o When(ev.cov # <<>>, << EqTol("pscore_stats", r.ps[1], MeanQ(sc.G), "1e-3", "1e-4"), EqTol("pscore_stats", r.ps[2], PopStd(sc.G), "1e-2", "1e-3"),
                                    EqTol("pscore_stats", r.ps[3], MeanQ(sc.P), "1e-3", "1e-4"), EqTol("pscore_stats", r.ps[4], PopStd(sc.P), "1e-2", "1e-3") >>)
          \o Common(ev)

Clauses(ev) ==
  IF ev.bad # "" THEN << CD("rejected_with_ValueError", ev.raised = "ValueError", <<ev.bad, ev.msg>>) >>
  ELSE IF ev.raised # "" THEN << CD("accepted", ev.raised = "ValueError" /\ ev.cov # <<>> /\ ev.deficient_error, ev.msg) >>
  ELSE << C("function_agrees", ev.same) >> \o IF ev.method = "reg" THEN RegClauses(ev) ELSE ScoreClauses(ev)
=============================================================================
