----------------------------- MODULE AffineModel ----------------------------
(***************************************************************************)
(* How answers follow the units and origins of the data.  A step changes   *)
(* the outcome (and nothing else) or a covariate; Act says what becomes of *)
(* an output.  An output has a role and the number d of times a constant   *)
(* treatment effect enters it.                                             *)
(*   scale  y -> a y + b                                                   *)
(*   unit   y -> y + effect of the unit      (w: "e" effects only, "E" all)*)
(*   time   y -> y + effect of the period                                  *)
(*   tau    y -> y + c on treated cells                                    *)
(*   cov    covariate -> a x + b                                           *)
(* UnknownV marks outputs the step leaves unconstrained.                   *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
Unknown == [r |-> "?", v |-> Zero, w |-> Zero]
Item(x) == IF x.role = "ci" THEN [r |-> "ci", d |-> x.d, v |-> x.v[1], w |-> x.v[2]] ELSE [r |-> x.role, d |-> x.d, v |-> x.v, w |-> Zero]
Neg(a) == Lt(a, Zero)
Fact(r, a) == CASE r \in {"eff", "ci"} -> a [] r = "se" -> Abs(a) [] r = "var" -> a (.) a [] r = "t" -> (IF Neg(a) THEN Nm(-1) ELSE One) [] OTHER -> One
Times(k, v) == IF IsFin(v) THEN k (.) v ELSE v
Plus(v, k) == IF IsFin(v) THEN v (+) k ELSE v
Act(s, x) ==
  IF x.r = "?" THEN x
  ELSE IF x.r = "n" THEN x
  ELSE CASE s.s = "scale" -> IF x.r = "ci" /\ Neg(s.a) THEN [x EXCEPT !.v = Times(s.a, x.w), !.w = Times(s.a, x.v)]
                             ELSE [x EXCEPT !.v = Times(Fact(x.r, s.a), x.v), !.w = IF x.r = "ci" THEN Times(s.a, x.w) ELSE x.w]
         [] s.s \in {"unit", "time"} -> IF x.r = "r2" \/ (s.w = "e" /\ x.r # "eff") THEN Unknown ELSE x
         [] s.s = "tau" -> IF x.r \in {"r2", "t", "p", "rank", "flag"} THEN Unknown
                           ELSE IF x.r \in {"eff", "ci"} THEN [x EXCEPT !.v = Plus(x.v, Nm(x.d) (.) s.c), !.w = IF x.r = "ci" THEN Plus(x.w, Nm(x.d) (.) s.c) ELSE x.w]
                           ELSE x
         [] s.s = "cov" -> x
RECURSIVE ActAll(_, _, _)
ActAll(ch, i, x) == IF i > Len(ch) THEN x ELSE ActAll(ch, i + 1, Act(ch[i], x))
=============================================================================
