--------------------------- MODULE P32_Interleave ---------------------------
(* Two real analyses in two threads, preempted in the middle of the library *)
(* code as the schedule says; both must answer what they answer alone.      *)
EXTENDS InterleaveModel, TraceRun
Get(s, k) == s[CHOOSE i \in 1..Len(s) : s[i].k = k]
Same(ev, a, b) == (IsNum(a) /\ IsNum(b) /\ ((IsFin(a) /\ IsFin(b) /\ Close(a, b, Nm("1e-8"), ev.tol)) \/ SameNum(a, b))) \/ (~IsNum(a) /\ ~IsNum(b) /\ ToString(a) = ToString(b))
Clauses(ev) ==
  ForEach(Len(ev.jobs), LAMBDA j :
    LET x == ev.jobs[j] IN
    << CD("same_outcome_as_alone", x.raised = x.raised2, <<x.run, x.raised, x.raised2>>), CD("same_answers_as_alone", KeysOf(x.alone) = KeysOf(x.beside), <<x.run>>), CD("own_data_unchanged", x.pure, x.run) >>
    \o When(KeysOf(x.alone) = KeysOf(x.beside), ForEach(Len(x.alone), LAMBDA i :
         LET a == x.alone[i] b == Get(x.beside, a.k) IN
         << CD("answer_of_" \o a.role \o "_as_alone", Same(x, b.v, a.v), <<x.run, ev.jobs[3 - j].run, a.k, ToString(a.v), ToString(b.v)>>) >>)))
=============================================================================
