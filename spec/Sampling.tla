------------------------------ MODULE Sampling ------------------------------
(* Summaries of a recorded sample of draws. *)
EXTENDS Num, Integers
(* q-quantile with linear interpolation between order statistics; q a Num in [0,1] *)
Quantile(s, q) ==
  LET o == SortQ(s)
      h == Nm(Len(s) - 1) (.) q
      f == ToInt(FloorN(h))
      w == h (-) Nm(f)
  IN IF f + 1 >= Len(s) THEN o[Len(s)] ELSE o[f + 1] (+) (w (.) (o[f + 2] (-) o[f + 1]))
StdQ(s, ddof) == Sqrt(VarQ(s, ddof))
CountIf(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
=============================================================================
