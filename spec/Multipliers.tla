---------------------------- MODULE Multipliers -----------------------------
(* The multiplier distributions of the bootstraps: mean 0, variance 1. *)
EXTENDS Num, Integers
MultValues(w) ==
  CASE w = "rademacher" -> <<Nm(-1), Nm(1)>>
    [] w = "webb" -> LET a == Sqrt(Rt(3, 2)) b == One c == Sqrt(Rt(1, 2)) IN <<NegN(a), NegN(b), NegN(c), c, b, a>>
    [] w = "mammen" -> LET r5 == Sqrt(Nm(5)) IN <<NegN((r5 (-) One) (/) Nm(2)), (r5 (+) One) (/) Nm(2)>>
MultThird(w) == IF w = "mammen" THEN One ELSE Zero
=============================================================================
