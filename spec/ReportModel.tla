---------------------------- MODULE ReportModel -----------------------------
(***************************************************************************)
(* What a result says about its estimates at a significance level, and how *)
(* it shows numbers as text.                                               *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC
Stars(p) == IF ~IsFin(p) THEN "" ELSE IF Lt(p, Nm("0.001")) THEN "***" ELSE IF Lt(p, Nm("0.01")) THEN "**" ELSE IF Lt(p, Nm("0.05")) THEN "*" ELSE IF Lt(p, Nm("0.1")) THEN "." ELSE ""
Below(p, alpha) == IsFin(p) /\ Lt(p, alpha)
Excludes(lo, hi) == IsFin(lo) /\ IsFin(hi) /\ (Lt(Zero, lo) \/ Lt(hi, Zero))
(* the wider interval (lo1, hi1) contains (lo2, hi2) *)
Contains(lo1, hi1, lo2, hi2, tol) == Le(lo1, lo2 (+) tol) /\ Le(hi2, hi1 (+) tol)
(* a number shown with dp decimals (as a percentage when pct) *)
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN One ELSE Nm(10) (.) Ten(n - 1)
ShownAs(x, dp, pct, v) == IF ~IsFin(v) \/ ~IsFin(x) THEN ToString(x) = ToString(v)
                          ELSE Le(Abs(x (-) (IF pct THEN Nm(100) (.) v ELSE v)), (Nm("0.50001") (/) Ten(dp)) (+) (Nm("1e-12") (.) Abs(x)))
=============================================================================
