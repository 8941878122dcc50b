------------------------------ MODULE PowerSim ------------------------------
(***************************************************************************)
(* Power by simulation, as a state machine.  For every effect in turn,     *)
(* NSim data sets are drawn, each with its own seed; each is fitted, and a *)
(* fit either fails or yields an estimate that rejects or not and whose    *)
(* interval covers the effect or not.  TLC enumerates every behaviour with *)
(* small NSim; they are replayed against the real loop with a scripted     *)
(* estimator.                                                              *)
(***************************************************************************)
EXTENDS Num, Integers, TLC
CONSTANTS NSim, NEff
VARIABLES eff,        \* effect being simulated
          log,        \* outcomes of the current effect, in order
          done,       \* completed effects: their outcome sequences
          state       \* "run", "finished" or "no_result"

Outcome == {"fail", "reject_cover", "reject_miss", "accept_cover", "accept_miss"}
Ok(o) == o # "fail"
Rejects(o) == o \in {"reject_cover", "reject_miss"}
Covers(o) == o \in {"reject_cover", "accept_cover"}
Valid(s) == SelectSeq(s, Ok)

Init == eff = 1 /\ log = <<>> /\ done = <<>> /\ state = "run"
Simulate(o) == /\ state = "run" /\ Len(log) < NSim
               /\ log' = Append(log, o) /\ UNCHANGED <<eff, done, state>>
NextEffect == /\ state = "run" /\ Len(log) = NSim /\ Valid(log) # <<>>
              /\ done' = Append(done, log) /\ log' = <<>>
              /\ IF eff = NEff THEN state' = "finished" /\ eff' = eff ELSE eff' = eff + 1 /\ state' = state
Abort == /\ state = "run" /\ Len(log) = NSim /\ Valid(log) = <<>>
         /\ state' = "no_result" /\ done' = Append(done, log) /\ UNCHANGED <<eff, log>>
Next == (\E o \in Outcome : Simulate(o)) \/ NextEffect \/ Abort
Spec == Init /\ [][Next]_<<eff, log, done, state>>

(* a failed fit is never counted, and a result needs at least one valid fit per effect *)
NeverCountsFailures == \A i \in 1..Len(done) : state = "no_result" \/ Valid(done[i]) # <<>>
StopsAtFirstEmpty == state = "no_result" => (Valid(done[Len(done)]) = <<>> /\ \A i \in 1..Len(done)-1 : Valid(done[i]) # <<>>)
Emitted == state = "run" \/ Emit([scen |-> [end |-> state, runs |-> done]])
=============================================================================
