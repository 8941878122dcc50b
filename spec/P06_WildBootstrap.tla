-------------------------- MODULE P06_WildBootstrap -------------------------
(***************************************************************************)
(* Wild cluster bootstrap.  A draw assigns each cluster one multiplier;    *)
(* the set of possible draws is finite and enumerated here, so every       *)
(* recorded draw must be one of them, and the p-value must be the share of *)
(* draws whose null-imposed statistic is at least the observed one.        *)
(***************************************************************************)
EXTENDS Inference, Regression, Sampling, Multipliers


Clusters(ev) == SeqOfSet({ev.g[i] : i \in 1..Len(ev.g)})
InCl(ev, c) == {i \in 1..Len(ev.g) : ev.g[i] = c}
(* weights of the observations in the focal coefficient *)
Proj(ev) == RndV(MatMul(Bread(ev.X), Transp(ev.X))[ev.idx])
DropCol(X, j) == Cols(X, SelectSeq([k \in 1..NCols(X) |-> k], LAMBDA k : k # j))

Setup(ev) ==
  LET X == ev.X
      cl == Clusters(ev)
      G == Len(cl)
      n == Len(X)
      k == NCols(X)
      a == Force(Proj(ev))
      b == Force(Beta(X, ev.y))
      u == Force(RndV(VSub(ev.y, Fitted(X, b))))
      col == [i \in 1..n |-> X[i][ev.idx]]
      yr == Force([i \in 1..n |-> ev.y[i] (-) (ev.null (.) col[i])])
      ur == IF k = 1 THEN yr ELSE Force(Resid(DropCol(X, ev.idx), yr))
      c == Rt(G, G - 1) (.) Rt(n - 1, n - k)
      M == Force(RndM(MatMul(Bread(X), Transp(X))))
      part(v, cc) == SumOver(InCl(ev, cc), LAMBDA i : a[i] (.) v[i])
      (* one cluster's contribution to (coefficient - null) and to the residuals of the starred regression, per unit multiplier *)
      urc(j) == [i \in 1..n |-> IF ev.g[i] = cl[j] THEN ur[i] ELSE Zero]
      resStar(j) == RndV(VSub(urc(j), MatVec(X, MatVec(M, urc(j)))))
      D == Force([j \in 1..G |-> LET rs == Force(resStar(j)) IN [h \in 1..G |-> part(rs, cl[h])]])
  IN [coef |-> b[ev.idx],
      t |-> (b[ev.idx] (-) ev.null) (/) Sqrt(c (.) SumQ([j \in 1..G |-> Sq(part(u, cl[j]))])),
      s |-> [j \in 1..G |-> part(u, cl[j])],
      sr |-> [j \in 1..G |-> part(ur, cl[j])],
      D |-> D, c |-> c, G |-> G]

(* the restricted statistic of one assignment of multipliers *)
TStar(S, w) ==
  LET num == Dot(w, S.sr)
      v == S.c (.) SumQ([h \in 1..S.G |-> Sq(SumQ([j \in 1..S.G |-> w[j] (.) S.D[j][h]]))])
  IN IF Le(v, Nm("1e-24")) THEN Zero ELSE num (/) Sqrt(v)

Assignments(S, ws) == [1..S.G -> 1..Len(ws)]

DrawClauses(ev) ==
  LET S == Force(Setup(ev))
      ws == Force(MultValues(ev.wtype))
      As == SeqOfSet(Assignments(S, ws))
      val == Force([q \in 1..Len(As) |->
               LET w == [j \in 1..S.G |-> ws[As[q][j]]]
                   at == Abs(TStar(S, w))
               IN [b |-> S.coef (+) Dot(w, S.s),
                   (* the sample itself (all signs alike) is one of the draws and counts *)
                   sure |-> Le(Abs(S.t) (.) Nm("0.9999999999"), at), maybe |-> Le((Abs(S.t) (.) Nm("0.999999")) (-) Nm("1e-7"), at)]])
      B == Len(ev.draws)
      match(d) == {q \in 1..Len(As) : Close(val[q].b, d, Nm("1e-8"), Nm("1e-9"))}
      ms == Force([i \in 1..B |-> LET m == match(ev.draws[i]) IN
               [any |-> m # {}, sure |-> m # {} /\ \A q \in m : val[q].sure, maybe |-> \E q \in m : val[q].maybe]])
      lo == CountIf(ms, LAMBDA x : x.sure)
      hi == CountIf(ms, LAMBDA x : x.maybe)
      flr == Rt(1, B + 1)
      atLeast(x) == IF Lt(x, flr) THEN flr ELSE x
  IN << CD("every_draw_is_a_possible_assignment", \A i \in 1..B : ms[i].any, CountIf(ms, LAMBDA x : ~x.any)),
        CD("p_is_share_of_null_imposed_draws", Le(atLeast(Rt(lo, B)), ev.p (+) Nm("1e-9")) /\ Le(ev.p, atLeast(Rt(hi, B)) (+) Nm("1e-9")), <<ShowN(ev.p), lo, hi, B>>),
        EqTol("t_is_the_sample_statistic", ev.t, S.t, "1e-6", "1e-8") >>

Summary(ev) ==
  LET B == Len(ev.draws) IN
  << Eq("se_is_sd_of_draws", ev.se, StdQ(ev.draws, 1)),
     Eq("ci_low_is_percentile", ev.lo, Quantile(ev.draws, ev.alpha (/) Nm(2))),
     Eq("ci_high_is_percentile", ev.hi, Quantile(ev.draws, One (-) (ev.alpha (/) Nm(2)))),
     Eq("n_bootstrap", ev.B, B), Eq("draws_requested", ev.Breq, B), Eq("n_clusters", ev.ncl, Len(Clusters(ev))),
     C("weight_type", ev.wt = ev.wtype) >>

(* moments of many draws against those of the multiplier distribution; six standard errors *)
MomentClauses(ev) ==
  LET S == Force(Setup(ev))
      B == Len(ev.draws)
      dev == Force([i \in 1..B |-> ev.draws[i] (-) S.coef])
      v == SumQ([j \in 1..S.G |-> Sq(S.s[j])])
      m3 == MultThird(ev.wtype) (.) SumQ([j \in 1..S.G |-> S.s[j] (.) Sq(S.s[j])])
      mean == MeanQ(dev)
      var == VarQ(ev.draws, 0)
      k3 == MeanQ([i \in 1..B |-> dev[i] (.) Sq(dev[i])])
      sd(xs) == Sqrt(VarQ(xs, 0) (/) Nm(B))
  IN << CD("draws_centred", Le(Abs(mean), Nm(6) (.) sd(dev)), <<ShowN(mean)>>),
        CD("draws_unit_variance", Le(Abs(var (-) v), Nm(6) (.) sd([i \in 1..B |-> Sq(dev[i])])), <<ShowN(var), ShowN(v)>>),
        CD("draws_third_moment", Le(Abs(k3 (-) m3), Nm(6) (.) sd([i \in 1..B |-> dev[i] (.) Sq(dev[i])])), <<ShowN(k3), ShowN(m3)>>) >>

(* an estimator fitted with bootstrap inference reports exactly that bootstrap *)
EstimatorClauses(ev) ==
  << SameObs("est_se", ev.e.se, ev.se), SameObs("est_p", ev.e.p, ev.p), SameObs("est_lo", ev.e.lo, ev.lo), SameObs("est_hi", ev.e.hi, ev.hi),
     SameObs("est_t", ev.e.t, ev.t), C("est_method", ev.e.method = "wild_bootstrap"), SameObs("est_n_bootstrap", ev.e.B, ev.B), SameObs("est_n_clusters", ev.e.ncl, ev.ncl),
     Eq("est_att_is_sample_coefficient", ev.e.att, Setup(ev).coef) >>

Clauses(ev) ==
  CASE ev.kind = "bad" -> << CD("rejected:" \o ev.what, ev.raised = "ValueError", ev.raised) >>
    [] ev.kind = "fewclusters" -> << C("few_clusters_warning", ev.warned = (ev.ncl < 5)) >>
    [] ev.kind = "plain" -> << C("analytic_refit_is_analytic", ev.method = "analytical" /\ ev.B = "null" /\ ev.ncl = "null") >>
    [] ev.kind = "draws" -> DrawClauses(ev) \o Summary(ev)
    [] ev.kind = "moments" -> MomentClauses(ev)
    [] ev.kind = "est" -> EstimatorClauses(ev)
=============================================================================
