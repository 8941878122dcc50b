------------------------------- MODULE Affine -------------------------------
(***************************************************************************)
(* A small panel (2 treated, 2 control units, 3 periods, integers) under   *)
(* every chain of outcome changes up to MaxLen.  The event-study effects   *)
(* and the basic difference-in-differences of the changed data are what    *)
(* AffineModel says, so the actions are sound; and adoption-date effects   *)
(* are the ones that move with a constant effect.                          *)
(***************************************************************************)
EXTENDS AffineModel, FiniteSets, TLC
CONSTANTS MaxLen
VARIABLES y, chain
vars == <<y, chain>>
U == 1..4
T == 1..3
Treated(u) == u \in {2, 4}
Y0 == [u \in U |-> [t \in T |-> u * u + 3 * t + (IF Treated(u) /\ t = 3 THEN 5 ELSE 0) + (IF u = 4 THEN t * t ELSE 0)]]
UE == <<3, -1, 0, 7>>
TE == <<0, 2, -4>>
Steps == [s : {"scale"}, a : {-1, 2}, b : {3}] \cup [s : {"unit"}, w : {"e"}] \cup [s : {"time"}, w : {"e"}] \cup [s : {"tau"}, c : {4}]
NumStep(s) == CASE s.s = "scale" -> [s |-> "scale", a |-> Nm(s.a), b |-> Nm(s.b)] [] s.s = "tau" -> [s |-> "tau", c |-> Nm(s.c)] [] OTHER -> s
App(s, m) == [u \in U |-> [t \in T |->
   CASE s.s = "scale" -> s.a * m[u][t] + s.b [] s.s = "unit" -> m[u][t] + UE[u] [] s.s = "time" -> m[u][t] + TE[t]
     [] s.s = "tau" -> m[u][t] + (IF Treated(u) /\ t = 3 THEN s.c ELSE 0)]]
Init == y = Y0 /\ chain = <<>>
Next == Len(chain) < MaxLen /\ \E s \in Steps : y' = App(s, y) /\ chain' = Append(chain, s)
Spec == Init /\ [][Next]_vars
(* twice the effect at t relative to period 1 *)
Ev(m, t) == (m[2][t] - m[2][1] + m[4][t] - m[4][1]) - (m[1][t] - m[1][1] + m[3][t] - m[3][1])
It(t) == [r |-> "eff", d |-> IF t = 3 THEN 2 ELSE 0, v |-> Nm(Ev(Y0, t)), w |-> Zero]
Sound == \A t \in 2..3 : NumEq(ActAll([i \in 1..Len(chain) |-> NumStep(chain[i])], 1, It(t)).v, Nm(Ev(y, t)))
(* generation of chains of step names *)
Names == {"scale", "unit", "time", "tau", "cov"}
GInit == y = Y0 /\ chain = <<>>
GNext == Len(chain) < MaxLen /\ \E s \in Names : chain' = Append(chain, s) /\ UNCHANGED y
GSpec == GInit /\ [][GNext]_vars
GEmit == chain = <<>> \/ Emit([scen |-> [chain |-> chain]])
=============================================================================
