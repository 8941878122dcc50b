------------------------------- MODULE Sample -------------------------------
(***************************************************************************)
(* A small staggered sample grows by copies, cohorts and periods.  The     *)
(* effect of a cohort in a period (against the never treated), the pooled  *)
(* difference-in-differences and its residual variance follow SampleModel. *)
(***************************************************************************)
EXTENDS SampleModel, FiniteSets, TLC
CONSTANTS MaxLen
VARIABLES units, T, chain
vars == <<units, T, chain>>
(* a unit: cohort and a seed of its outcomes *)
Y(u, t) == u.a * u.a + 3 * t + u.a * ((t * t) % 3) + (IF u.g # 0 /\ t >= u.g THEN 5 + t ELSE 0)
Start == << [g |-> 0, a |-> 1], [g |-> 0, a |-> 4], [g |-> 2, a |-> 2], [g |-> 2, a |-> 5] >>
Fresh == {3, 4}
Init == units = Start /\ T = 3 /\ chain = <<>>
Used == {units[i].g : i \in 1..Len(units)}
RECURSIVE Rep(_, _)
Rep(s, m) == IF m = 0 THEN <<>> ELSE s \o Rep(s, m - 1)
Copy(m) == units' = Rep(units, m) /\ chain' = Append(chain, [s |-> "copy", m |-> m]) /\ UNCHANGED T
Cohort(g) == g \notin Used /\ units' = units \o << [g |-> g, a |-> 7], [g |-> g, a |-> 3] >> /\ chain' = Append(chain, [s |-> "cohort"]) /\ UNCHANGED T
Later == T' = T + 1 /\ chain' = Append(chain, [s |-> "period"]) /\ UNCHANGED units
Next == Len(chain) < MaxLen /\ (\E m \in {2, 3} : Copy(m) \/ (\E g \in Fresh : Cohort(g)) \/ Later)
Spec == Init /\ [][Next]_vars
(* mean change from period 1 to t of a cohort *)
RECURSIVE SumI(_, _, _, _)
SumI(us, g, t, i) == IF i > Len(us) THEN 0 ELSE (IF us[i].g = g THEN Y(us[i], t) - Y(us[i], 1) ELSE 0) + SumI(us, g, t, i + 1)
NOf(us, g) == Cardinality({i \in 1..Len(us) : us[i].g = g})
Effect(us, g, t) == Rt(SumI(us, g, t, 1), NOf(us, g)) (-) Rt(SumI(us, 0, t, 1), NOf(us, 0))
RECURSIVE SumAll(_, _, _)
SumAll(us, t, i) == IF i > Len(us) THEN 0 ELSE (IF us[i].g # 0 THEN Y(us[i], t) - Y(us[i], 1) ELSE 0) + SumAll(us, t, i + 1)
NTr(us) == Cardinality({i \in 1..Len(us) : us[i].g # 0})
Pooled(us, t) == Rt(SumAll(us, t, 1), NTr(us)) (-) Rt(SumI(us, 0, t, 1), NOf(us, 0))
Cell == [role |-> "eff", cell |-> TRUE, sharp |-> TRUE]
Whole == [role |-> "eff", cell |-> FALSE, sharp |-> FALSE]
Sound == /\ VouchAll(chain, Cell) /\ \A t \in 2..3 : NumEq(Effect(units, 2, t), Effect(Start, 2, t))
         /\ VouchAll(chain, Whole) => \A t \in 2..3 : NumEq(Pooled(units, t), Pooled(Start, t))
         /\ NOf(units, 0) = 2 * Copies(chain, 1)
(* corrections for degrees of freedom and for few clusters are of this form *)
Corrected(n, k, G, m) == Rt(m * n, m * n - k) (.) Rt(m * G, m * G - 1)
ASSUME \A n \in 4..9 : \A k \in 1..(n \div 2) : \A G \in 2..4 :
         OnLine(Corrected(n, k, G, Curve[1]), Corrected(n, k, G, Curve[2]), Corrected(n, k, G, Curve[3]), Nm("5e-4"))
GInit == units = Start /\ T = 3 /\ chain = <<>>
GNext == Len(chain) < MaxLen /\ \E s \in {"copy", "cohort", "period"} : chain' = Append(chain, [s |-> s]) /\ UNCHANGED <<units, T>>
GSpec == GInit /\ [][GNext]_vars
GEmit == chain = <<>> \/ Emit([scen |-> [chain |-> [i \in 1..Len(chain) |-> chain[i].s]]])
=============================================================================
