----------------------------- MODULE Inference ------------------------------
(***************************************************************************)
(* How an estimate and its standard error become a t-statistic, a          *)
(* two-sided p-value and a confidence interval.  df is "null" (or not      *)
(* positive) for normal inference.                                         *)
(***************************************************************************)
EXTENDS TraceRun

HasDf(df) == IsNum(df) /\ IsFin(df) /\ Lt(Zero, df)
PValue(t, df) == IF HasDf(df) THEN Nm(2) (.) TSf(Abs(t), df) ELSE Nm(2) (.) NormSf(Abs(t))
Crit(alpha, df) == LET q == One (-) (alpha (/) Nm(2)) IN IF HasDf(df) THEN TPpf(q, df) ELSE NormPpf(q)
TStat(coef, se) == coef (/) se

(* the five reported quantities are one coherent statement; the t-stat and
   p-value of a zero standard error are not constrained here *)
Coherent(name, coef, se, t, p, lo, hi, df, alpha) ==
  IF IsFin(coef) /\ IsNum(se) /\ IsFin(se) /\ Lt(Nm("1e-11"), se)
  THEN << EqTol(name \o ".t", t, TStat(coef, se), "1e-6", "1e-9"),
          EqTol(name \o ".p", p, PValue(TStat(coef, se), df), "1e-5", "1e-9"),
          EqTol(name \o ".lo", lo, coef (-) (Crit(alpha, df) (.) se), "1e-6", "1e-9"),
          EqTol(name \o ".hi", hi, coef (+) (Crit(alpha, df) (.) se), "1e-6", "1e-9") >>
  ELSE <<>>
=============================================================================
