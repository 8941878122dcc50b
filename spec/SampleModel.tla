---------------------------- MODULE SampleModel -----------------------------
(***************************************************************************)
(* What becomes of an answer when the sample grows.                        *)
(*   copy    every unit occurs m times (under new names)                   *)
(*   cohort  units of an adoption date not seen before join                *)
(*   period  a later period is observed                                    *)
(* An output has a role and says whether it is about one cohort and period *)
(* (x.cell): then it is about nothing else, and only copies touch it.      *)
(* Vouch(s, x): the step leaves the number as it was.                      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
(* estimates, shares and fits are features of the distribution of the sample *)
Vouch(s, x) == IF s.s = "copy" THEN x.role \in {"eff", "w", "r2", "mid", "same"} ELSE x.cell /\ x.role \in {"eff"} \cup (IF x.sharp THEN {"se"} ELSE {})
VouchAll(ch, x) == \A i \in 1..Len(ch) : Vouch(ch[i], x)
RECURSIVE Copies(_, _)
Copies(ch, i) == IF i > Len(ch) THEN 1 ELSE (IF ch[i].s = "copy" THEN ch[i].m ELSE 1) * Copies(ch, i + 1)
(***************************************************************************)
(* A variance times the number m of copies is F * (1 + c/m + O(1/m^2)): a  *)
(* small-sample correction fades like 1/m.  So in samples of 20, 40 and 80 *)
(* copies the middle one lies on the line through the others, over 1/m.    *)
(***************************************************************************)
Curve == <<20, 40, 80>>
OnLine(f1, f2, f3, tol) == Le(Abs(f2 (-) ((f1 (+) (Nm(2) (.) f3)) (/) Nm(3))), tol (.) Abs(f3))
=============================================================================
