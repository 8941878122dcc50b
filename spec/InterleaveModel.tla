--------------------------- MODULE InterleaveModel --------------------------
(***************************************************************************)
(* Two analyses take turns.  Each works on its own data in its own state;  *)
(* whoever has the turn advances by any number of steps.  What an analysis *)
(* answers is a function of its own inputs, whatever the other did between *)
(* its steps.                                                              *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
Slices == <<"short", "middle", "long">>
(* answers: sequences of [k, v] *)
KeysOf(s) == { s[i].k : i \in 1..Len(s) }
=============================================================================
