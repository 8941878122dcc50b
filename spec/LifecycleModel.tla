--------------------------- MODULE LifecycleModel ---------------------------
(***************************************************************************)
(* An estimator object: its parameters and what it was last fitted on.     *)
(*   state: [par |-> configuration in force, fit |-> <<>> or the           *)
(*           <<configuration, data set>> of the last successful fit]       *)
(* Actions                                                                 *)
(*   set(p)      set_params to configuration p                             *)
(*   setbad      set_params with an unknown name or a value the            *)
(*               constructor rejects, possibly next to valid ones          *)
(*   fit(d)      fit on data set d       fitbad   a fit that must fail     *)
(*   clone       a new object from get_params     copy  copied or pickled  *)
(*   get         get_params              show     summary of the estimator *)
(***************************************************************************)
EXTENDS Integers, Sequences
Fresh(p) == [par |-> p, fit |-> <<>>]
After(st, a) ==
  CASE a.op = "set" -> [st EXCEPT !.par = a.p]
    [] a.op = "fit" -> [st EXCEPT !.fit = <<st.par, a.d>>]
    [] a.op = "clone" -> Fresh(st.par)
    [] OTHER -> st
(* what the action answers: a fit as <<configuration, data set>>, "raises", or the configuration *)
FitAnswer(st, a) == IF a.op = "fit" THEN <<st.par, a.d>> ELSE <<>>
Raises(st, a) == a.op \in {"setbad", "fitbad"} \/ (a.op = "show" /\ st.fit = <<>>)
=============================================================================
