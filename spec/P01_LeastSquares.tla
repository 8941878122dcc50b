-------------------------- MODULE P01_LeastSquares --------------------------
(***************************************************************************)
(* The linear-algebra engine: exact least squares, the effect of rank      *)
(* deficiency, covariance estimators and coefficient inference.            *)
(***************************************************************************)
EXTENDS Inference, Regression

Kept(ev) == SelectSeq([j \in 1..Len(ev.coef) |-> j], LAMBDA j : IsFin(ev.coef[j]))

(* which columns may be dropped: as many as the rank deficiency, leaving an
   independent set; a full-rank design drops nothing *)
DropClauses(ev, X) ==
  LET kp == Kept(ev) r == RankQ(X)
  IN << CD("kept_count_is_rank", Len(kp) = r, <<kp, r>>),
        CD("kept_are_independent", Len(kp) = 0 \/ RankQ(Cols(X, kp)) = Len(kp), kp) >>

FitClauses(ev, X) ==
  LET kp == Kept(ev)
      Xk == Force(Cols(X, kp))
      y == ev.y
      b == Force(Beta(Xk, y))
      f == Force(Fitted(Xk, b))
      u == Force(Resid(Xk, y))
      n == Len(X)
      hasV == ev.vkind # "none" /\ n > Len(kp)
      V == IF hasV THEN Force(Vcov(ev.vkind, Xk, u, ev.g)) ELSE <<>>
      pos(j) == CHOOSE q \in 1..Len(kp) : kp[q] = j
  IN ForEach(Len(kp), LAMBDA q : << EqAt("coef", kp[q], ev.coef[kp[q]], b[q]) >>)
     \o ForEach(n, LAMBDA i : << EqAt("fitted", i, ev.fitted[i], f[i]), EqAt("resid", i, ev.resid[i], u[i]) >>)
     \o When(hasV, << C("vcov_shape", Len(ev.vcov) = Len(ev.coef)) >>
        \o ForEach(Len(ev.coef), LAMBDA i : ForEach(Len(ev.coef), LAMBDA j :
             IF IsFin(ev.coef[i]) /\ IsFin(ev.coef[j])
             THEN << EqAt("vcov_" \o ev.vkind, <<i, j>>, ev.vcov[i][j], V[pos(i)][pos(j)]) >>
             ELSE << CD("vcov_dropped_is_nan", IsNaN(ev.vcov[i][j]), <<i, j>>) >>)))

(* df_adjustment = degrees of freedom already absorbed *)
InferClauses(ev, X) ==
  LET kp == Kept(ev)
      n == Len(X)
      df == n - Len(kp) - ev.dfadj
      one(j) ==
        LET r == ev.inf[j]
            se == Sqrt(ev.vcov[j][j])
            edf == IF IsNum(ev.dfarg) THEN ev.dfarg ELSE df
        IN IF ~IsFin(ev.coef[j])
           THEN << C("dropped_has_nan_inference", IsNaN(r.coef) /\ IsNaN(r.se) /\ IsNaN(r.t) /\ IsNaN(r.p) /\ IsNaN(r.lo) /\ IsNaN(r.hi)),
                   C("dropped_not_significant", ~r.sig) >>
           ELSE << Eq("inf_coef", r.coef, ev.coef[j]),
                   Eq("inf_se", r.se, se),
                   C("inf_sig_agrees_with_p", r.sig = Lt(r.p, ev.alpha)) >>
                \o Coherent("inf", r.coef, r.se, r.t, r.p, r.lo, r.hi, Nm(edf), ev.alpha)
  IN << Eq("df", ev.df, df), Eq("n_obs", ev.nobs, n), Eq("n_params_effective", ev.keff, Len(kp)),
        Eq("r2", ev.r2, RSquared(ev.y, ev.resid)) >>
     \o When(n > Len(kp), << Eq("r2_adj", ev.r2adj, IF NumEq(VarQ(ev.y, 0), Zero) THEN Zero ELSE AdjRSquared(RSquared(ev.y, ev.resid), n, Len(kp))) >>)
     \o ForEach(Len(ev.coef), one)
     \o ForEach(Len(ev.px), LAMBDA i :
          << EqAt("predict", i, ev.pred[i], SumQ([j \in 1..Len(ev.coef) |-> IF IsFin(ev.coef[j]) THEN ev.px[i][j] (.) ev.coef[j] ELSE Zero])) >>)

(* what the caller asked for when the design is rank deficient *)
ActionClauses(ev, X) ==
  LET deficient == RankQ(X) < NCols(X)
  IN CASE ev.action = "error" -> << CD("error_iff_deficient", ev.raised = (IF deficient THEN "ValueError" ELSE ""), ev.raised) >>
       [] ev.action = "warn" -> << C("warn_iff_deficient", ev.warned = deficient) >>
       [] ev.action = "silent" -> << C("silent_is_silent", ~ev.warned) >>

Clauses(ev) ==
  IF ev.kind = "bad"
  THEN << CD("bad_input_rejected:" \o ev.what, ev.raised = "ValueError", ev.raised) >>
  ELSE LET X == ev.X
           full == ActionClauses(ev, X)
       IN IF ev.raised # ""
          THEN IF ev.action = "error" THEN full
               ELSE << CD("no_exception", FALSE, ev.raised) >>
          ELSE full \o DropClauses(ev, X) \o FitClauses(ev, X)
               \o When(ev.kind = "lr", InferClauses(ev, X))
=============================================================================
