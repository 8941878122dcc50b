------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Trace validation.  The recorded events (one per line) are consumed in   *)
(* order; for each the specification of the property says which clauses    *)
(* must hold of it.  A property module defines Clauses(ev), a sequence of  *)
(* <<clause name, BOOLEAN, detail>>, and its configuration substitutes it  *)
(* for Verdict.  A failing clause is reported with its name and detail and *)
(* the run goes on, so one rejection does not hide the rest of the trace.  *)
(***************************************************************************)
EXTENDS Num, Integers, TLC, IOUtils
CONSTANT Verdict(_)
VARIABLE pos_, bad_

Trace == LoadTrace(IOEnv.VTRACE)
Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])

TraceInit == pos_ = 1 /\ bad_ = 0
Consume ==
  /\ pos_ =< Len(Trace)
  /\ LET cs == Verdict(Trace[pos_])
         f == Failing(cs)
     IN /\ Emit([ev |-> pos_, n |-> Len(cs), names |-> {cs[i][1] : i \in 1..Len(cs)}, fail |-> f])
        /\ bad_' = bad_ + Len(f)
  /\ pos_' = pos_ + 1
TraceSpec == TraceInit /\ [][Consume]_<<pos_, bad_>>
(* every event was consumed *)
Finished == Emit([done |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)])

---------------------------------------------------------------------------
(* clause constructors *)
C(name, b) == <<name, b, "">>
CD(name, b, detail) == <<name, b, detail>>
Why(ok, got, want) == IF ok THEN "" ELSE <<"got", ShowN(got), "want", ShowN(want)>>
Eq(name, got, want) == LET ok == IsNum(got) /\ SameNum(got, want) IN <<name, ok, Why(ok, got, want)>>
EqAt(name, at, got, want) == LET ok == IsNum(got) /\ SameNum(got, want) IN <<name, ok, IF ok THEN "" ELSE <<at, Why(ok, got, want)>>>>
TolNum(got, want, rt, at) == IsNum(got) /\ ((IsFin(got) /\ IsFin(want) /\ Close(got, want, Nm(rt), Nm(at))) \/ (IsNaN(got) /\ IsNaN(want)) \/ NumEq(got, want))
EqTol(name, got, want, rt, at) == LET ok == TolNum(got, want, rt, at) IN <<name, ok, Why(ok, got, want)>>
(* two recorded observations that must agree whatever they are *)
SameObs(name, a, b) == LET ok == (IsNum(a) /\ IsNum(b) /\ SameNum(a, b)) \/ (~IsNum(a) /\ ~IsNum(b) /\ ToString(a) = ToString(b))
                       IN <<name, ok, IF ok THEN "" ELSE <<ToString(a), ToString(b)>>>>
ForEach(n, f(_)) == Flat([i \in 1..n |-> f(i)])
When(b, cs) == IF b THEN cs ELSE <<>>
=============================================================================
