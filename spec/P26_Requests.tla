--------------------------- MODULE P26_Requests -----------------------------
(***************************************************************************)
(* Real analyses asked with sound and faulty requests.                     *)
(***************************************************************************)
EXTENDS RequestModel, TraceRun
ArgRow(ev, p) == CHOOSE i \in RowsOf(ev.run) : ArgTable[i][2] = p[1] /\ ArgTable[i][3] = p[2]
Range(s) == { s[i] : i \in 1..Len(s) }
Faulty(ev) == { [kind |-> f[1], col |-> f[2]] : f \in Range(ev.faults) }
Void(x) == x.role \in {"flag", "rank"} \/ (x.role \in {"t", "p"} /\ (~IsFin(x.g) \/ Lt(x.g, Nm("1e-7"))))
SameVal(ev, x, y) == LET rt == IF ev.loose THEN "1e-5" ELSE "1e-7" at == IF ev.loose THEN "1e-6" ELSE "1e-8" IN
                     CASE x.role = "n" -> ToString(x.v) = ToString(y.v)
                       [] x.role = "ci" -> TolNum(y.v[1], x.v[1], rt, at) /\ TolNum(y.v[2], x.v[2], rt, at)
                       [] OTHER -> TolNum(y.v, x.v, rt, at)
Same(ev) == Len(ev.a) = Len(ev.b) /\ \A i \in 1..Len(ev.a) : ev.a[i].k = ev.b[i].k /\ (Void(ev.a[i]) \/ SameVal(ev, ev.a[i], ev.b[i]))
Clauses(ev) ==
  IF ev.form = "args" THEN
    LET e == ArgExpect({ ArgRow(ev, p) : p \in Range(ev.args) }) IN
    << CD("sound_request_is_answered", ev.args # <<>> \/ ev.raised = "", <<ev.run, ev.raised, ev.msg>>),
       CD("inadmissible_arguments_are_refused", e = "answer" \/ ev.raised # "", <<ev.run, ev.args>>),
       CD("admissible_arguments_are_answered", e = "refuse" \/ ev.raised = "", <<ev.run, ev.args, ev.raised, ev.msg>>),
       CD("input_untouched", ev.pure, <<ev.run, ev.args>>) >>
  ELSE
    LET e == Expect(ev.run, Faulty(ev)) IN
    << CD("sound_request_is_answered", ev.raised0 = "", <<ev.run, ev.raised0>>),
       CD("ill_posed_request_is_refused", e # "refuse" \/ ev.raised # "", <<ev.run, ev.faults>>),
       CD("nothing_estimable_gives_no_number", e # "nonumber" \/ ev.raised # "" \/ \A i \in 1..Len(ev.heads) : ~IsFin(ev.heads[i]), <<ev.run, ev.faults, ToString(ev.heads)>>),
       CD("faults_elsewhere_do_not_refuse", e # "harmless" \/ ev.raised = "", <<ev.run, ev.faults, ev.raised, ev.msg>>),
       CD("faults_elsewhere_change_nothing", e # "harmless" \/ ev.raised # "" \/ Same(ev), <<ev.run, ev.faults>>),
       CD("input_untouched", ev.pure, <<ev.run, ev.faults>>) >>
=============================================================================
