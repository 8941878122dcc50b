------------------------------- MODULE Backend ------------------------------
(***************************************************************************)
(* A process imports the library once and then calls its routines, each    *)
(* reply of the extension arbitrary.                                       *)
(***************************************************************************)
EXTENDS BackendModel, Num, TLC
CONSTANTS MaxCalls
VARIABLES env, lib, mode, log
vars == <<env, lib, mode, log>>
Init == env \in Envs /\ lib \in Libs /\ mode = "fresh" /\ log = <<>>
Import == mode = "fresh" /\ mode' = Mode(env, lib) /\ UNCHANGED <<env, lib, log>>
Do == mode \in {"python", "fast"} /\ Len(log) < MaxCalls /\ \E c \in CallSet : log' = Append(log, [c |-> c, o |-> Outcome(mode, c)]) /\ UNCHANGED <<env, lib, mode>>
Next == Import \/ Do
Spec == Init /\ [][Next]_vars
Settled == mode # "fresh"
ForcedPython == Asked(env) = "python" => mode \in {"fresh", "python"}
NeverHalf == mode = "fast" => lib = "complete"
RefusedOnlyWhenForced == mode = "error" <=> (Settled /\ Asked(env) = "rust" /\ lib # "complete")
(* the extension answers only with a usable reply, and never a reduced-rank problem *)
Usable(r) == r \in {"ok", "some", "few"}
Entry(i) == log[i]
FastIsUsable == \A i \in 1..Len(log) : log[i].o.by = "fast" => mode = "fast" /\ Usable(log[i].c.reply) /\ log[i].c.rank = "full"
PurePython == mode = "python" => \A i \in 1..Len(log) : log[i].o = Out("python", FALSE, FALSE)
(* giving up on numerical grounds is told and answered *)
GivingUpIsTold == \A i \in 1..Len(log) : mode = "fast" /\ log[i].c.rank = "full" /\ log[i].c.reply \in {"unstable", "singular"} => log[i].o = Out("python", TRUE, FALSE)
(* what happened before makes no difference *)
Memoryless == \A i, j \in 1..Len(log) : log[i].c = log[j].c => log[i].o = log[j].o
(* the mode never changes once chosen *)
Fixed == [][mode # "fresh" => mode' = mode]_vars
---------------------------------------------------------------------------
GInit == env = "auto" /\ lib = "complete" /\ mode = "fast" /\ log = <<>>
GSpec == GInit /\ [][Do]_vars
GEmit == IF log = <<>> THEN \A e \in Envs, l \in Libs : Emit([scen |-> [env |-> e, lib |-> l]])
         ELSE Emit([scen |-> [calls |-> [i \in 1..Len(log) |-> log[i].c]]])
=============================================================================
