---------------------------- MODULE Significance ----------------------------
(***************************************************************************)
(* One estimate looked at under a history of significance levels.  The     *)
(* p-value is the mass beyond |estimate|/se of a table of critical values, *)
(* the interval is estimate +- critical value * se: asking for another     *)
(* level changes neither the estimate, its standard error nor the p-value, *)
(* intervals of smaller levels contain those of larger ones, and the       *)
(* verdict "p below the level" is "the interval excludes zero".            *)
(***************************************************************************)
EXTENDS ReportModel, FiniteSets
CONSTANTS MaxLen
VARIABLES est, shown, levels
vars == <<est, shown, levels>>
(* levels 1..4 in increasing order and their critical values in halves; the p-value is the smallest level exceeded (5: none) *)
CritH == <<7, 5, 3, 1>>
P(e, s) == LET beyond == { i \in 1..4 : (IF e < 0 THEN -e ELSE e) * 2 > CritH[i] * s } IN
           IF beyond = {} THEN 5 ELSE CHOOSE i \in beyond : \A j \in beyond : i <= j
PBelow(e, s, i) == P(e, s) <= i
Show(e, s, i) == [eff |-> e, se |-> s, p |-> P(e, s), lo |-> 2 * e - CritH[i] * s, hi |-> 2 * e + CritH[i] * s, sig |-> PBelow(e, s, i)]
Init == est \in [eff : -6..6, se : 1..3] /\ levels = <<>> /\ shown = <<>>
Next == Len(levels) < MaxLen /\ \E i \in 1..4 : levels' = Append(levels, i) /\ shown' = Append(shown, Show(est.eff, est.se, i)) /\ UNCHANGED est
Spec == Init /\ [][Next]_vars
Same == \A i, j \in 1..Len(shown) : shown[i].eff = shown[j].eff /\ shown[i].se = shown[j].se /\ shown[i].p = shown[j].p
Nested == \A i, j \in 1..Len(shown) : levels[i] <= levels[j] => shown[i].lo <= shown[j].lo /\ shown[j].hi <= shown[i].hi
Verdict == \A i \in 1..Len(shown) : shown[i].sig <=> Excludes(Nm(shown[i].lo), Nm(shown[i].hi))
GInit == est = [eff |-> 0, se |-> 1] /\ levels = <<>> /\ shown = <<>>
GNext == Len(levels) < MaxLen /\ \E i \in 1..6 : levels' = Append(levels, i) /\ UNCHANGED <<est, shown>>
GSpec == GInit /\ [][GNext]_vars
GEmit == Len(levels) < 2 \/ Emit([scen |-> [levels |-> levels]])
=============================================================================
