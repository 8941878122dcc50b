---------------------------- MODULE P23_Lifecycle ----------------------------
(***************************************************************************)
(* Histories of the real estimator objects against the lifecycle model.    *)
(* The recorder compares every result with those of fresh objects: keys    *)
(* lists the <<configuration, data set>> pairs it equals.                  *)
(***************************************************************************)
EXTENDS LifecycleModel, TraceRun
StateAt(ev) == LET S[k \in 0..Len(ev.acts)] == IF k = 0 THEN Fresh(ev.first) ELSE After(S[k - 1], ev.acts[k]) IN S
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Clauses(ev) ==
  LET S == StateAt(ev) IN
  ForEach(Len(ev.acts), LAMBDA k :
    LET a == ev.acts[k] st == S[k - 1] to == S[k] IN
    (CASE Raises(st, a) -> << CD(a.op \o "_raises", IF a.op = "setbad" THEN a.raised = "ValueError" ELSE IF a.op = "show" THEN a.raised = "RuntimeError" ELSE a.raised # "", <<ev.est, k, a>>) >>
       [] ~Raises(st, a) -> << CD("no_exception_in_" \o a.op, a.raised = "", <<ev.est, k, a>>) >>)
    \o When(a.op = "fit" /\ a.raised = "", << CD("fit_depends_on_parameters_and_data_only", In(<<st.par, a.d>>, a.keys), <<ev.est, k, st.par, a.d, a.keys>>) >>)
    \o When(a.op = "fit" /\ a.raised = "" /\ ev.keeps, << CD("fit_returns_the_stored_result", a.stored, <<ev.est, k>>) >>)
    \o When(a.op \in {"get", "set", "setbad", "clone", "copy", "fitbad", "fit"}, << CD("parameters_in_force", a.par = to.par, <<ev.est, k, a.op, a.par, to.par>>) >>)
    \o When(a.op = "set", << CD("set_params_returns_the_estimator", a.self, <<ev.est, k>>) >>)
    \o When(ev.keeps, << CD("fitted_exactly_after_a_successful_fit", a.fitted = (to.fit # <<>>), <<ev.est, k, a.op, a.fitted>>),
                         CD("last_result_kept", IF to.fit = <<>> THEN a.last = <<>> ELSE In(to.fit, a.last), <<ev.est, k, a.op, to.fit, a.last>>) >>)
    \o When(a.op = "show" /\ a.raised = "" /\ st.fit # <<>>, << CD("summary_is_of_the_last_fit", a.same, <<ev.est, k>>) >>))
  \o << CD("earlier_results_unchanged", ev.kept, ev.est), C("data_unchanged", ev.pure) >>
=============================================================================
