------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Building and submitting requests to one estimator.  Faults are put into *)
(* a sound request one after another; a submission is refused or answered, *)
(* a refused one leaves the estimator as it was.                           *)
(***************************************************************************)
EXTENDS RequestModel, Num, TLC
CONSTANTS MaxFaults, MaxSubmit
VARIABLES run, req, held, log
vars == <<run, req, held, log>>
Init == run \in Runs /\ req = {} /\ held = "nothing" /\ log = <<>>
AddFault == Cardinality(req) < MaxFaults /\ \E f \in Faults : f \notin req /\ Distinct(req \cup {f}) /\ req' = req \cup {f} /\ UNCHANGED <<run, held, log>>
Submit == /\ Len(log) < MaxSubmit
          /\ LET e == Expect(run, req) IN
             \E out \in (IF e = "refuse" THEN {"raised"} ELSE IF e = "harmless" THEN {"answer"} ELSE IF e = "nonumber" THEN {"raised", "none"} ELSE {"raised", "none", "other"}) :
               /\ log' = Append(log, <<e, out>>) /\ held' = IF out = "raised" THEN held ELSE out
          /\ req' = {} /\ UNCHANGED run
Next == AddFault \/ Submit
Spec == Init /\ [][Next]_vars
(* the classes exclude one another, and a missing column the request names is always refused *)
Classes == \A f \in Faults : (Refuses(run, f) /\ f.kind # "list" /\ f.kind # "empty" => ~Harmless(run, f)) /\ ~(Refuses(run, f) /\ NoNumber(run, f)) /\ ~(Harmless(run, f) /\ NoNumber(run, f))
Named == \A c \in Uses(run) : Refuses(run, [kind |-> "drop", col |-> c])
(* a further fault never turns a refusal into an answer *)
Monotone == \A f \in Faults : Expect(run, req) = "refuse" => Expect(run, req \cup {f}) = "refuse"
HeldIsLastAnswer == LET ok == { i \in 1..Len(log) : log[i][2] # "raised" } IN
                    IF ok = {} THEN held = "nothing" ELSE held = log[CHOOSE i \in ok : \A j \in ok : j <= i][2]
RefusedRaise == \A i \in 1..Len(log) : log[i][1] = "refuse" => log[i][2] = "raised"
---------------------------------------------------------------------------
(* generation: every set of at most two faults, every pair of arguments of a call *)
GInit == run = "did" /\ req = {} /\ held = "nothing" /\ log = <<>>
GNext == AddFault
GSpec == GInit /\ [][GNext]_vars
GEmit == Emit([scen |-> [faults |-> req]]) /\ (req # {} \/ \A c \in Calls : \A s \in ArgSets(c) : ArgDistinct(s) => Emit([scen |-> [call |-> c, args |-> { <<ArgTable[i][2], ArgTable[i][3]>> : i \in s }]]))
=============================================================================
