------------------------------ MODULE Lifecycle ------------------------------
(* Every history of an estimator object up to a length; see LifecycleModel. *)
EXTENDS LifecycleModel, Num, TLC
CONSTANTS NPar, NData, MaxLen, Histories
Actions == [op : {"set"}, p : 1..NPar] \cup [op : {"fit"}, d : 1..NData]
           \cup {[op |-> o] : o \in {"setbad", "fitbad", "clone", "copy", "get", "show"}}
VARIABLES st, hist, ans
vars == <<st, hist, ans>>
Init == st = Fresh(1) /\ hist = <<>> /\ ans = <<>>
Do(a) == /\ Len(hist) < MaxLen
         /\ st' = After(st, a) /\ ans' = FitAnswer(st, a)
         /\ hist' = Append(hist, a)
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
View == IF Histories THEN <<hist>> ELSE <<st, ans, Len(hist), IF hist = <<>> THEN <<>> ELSE <<hist[Len(hist)]>>>>
act == hist'[Len(hist')]
(* what a fit answers depends on the parameters in force and the data only, not on anything before *)
HistoryFree == [][act.op = "fit" => ans' = <<st.par, act.d>>]_vars
(* failed actions change nothing *)
FailuresAreHarmless == [][Raises(st, act) => st' = st]_vars
(* changing parameters does not touch the last fit, fitting does not touch the parameters *)
Separate == [][(act.op = "set" => st'.fit = st.fit) /\ (act.op = "fit" => st'.par = st.par)]_vars
Emitted == ~Histories \/ Len(hist) < MaxLen \/ Emit([scen |-> [acts |-> hist]])
=============================================================================
