------------------------------ MODULE Reading -------------------------------
(***************************************************************************)
(* A result is read through views in any order: each view is a function of *)
(* the result alone and reading changes nothing.  Numbers are shown        *)
(* rounded to the nearest, so what is shown determines the value up to     *)
(* half a unit of the last decimal.                                        *)
(***************************************************************************)
EXTENDS ReportModel, FiniteSets
CONSTANTS MaxLen
VARIABLES v, seen, views
vars == <<v, seen, views>>
Views == {"summary", "dict", "frame", "repr", "print"}
(* the value is v/16; shown with one decimal in tenths, rounded to the nearest *)
Tenths(x) == ((x * 10 + 8) \div 16)
ViewOf(x, k) == CASE k \in {"summary", "print"} -> Tenths(x) [] k = "repr" -> Tenths(x) [] OTHER -> x
Init == v \in -40..40 /\ seen = <<>> /\ views = <<>>
Next == Len(views) < MaxLen /\ \E k \in Views : views' = Append(views, k) /\ seen' = Append(seen, ViewOf(v, k)) /\ UNCHANGED v
Spec == Init /\ [][Next]_vars
Pure == \A i \in 1..Len(views) : seen[i] = ViewOf(v, views[i])
Nearest == \A i \in 1..Len(views) : views[i] \in {"dict", "frame"} \/ ShownAs(Nm(seen[i]) (/) Nm(10), 1, FALSE, Nm(v) (/) Nm(16))
GInit == v = 0 /\ seen = <<>> /\ views = <<>>
GNext == Len(views) < MaxLen /\ \E k \in Views : views' = Append(views, k) /\ UNCHANGED <<v, seen>>
GSpec == GInit /\ [][GNext]_vars
GEmit == Len(views) < MaxLen \/ Emit([scen |-> [views |-> views]])
=============================================================================
