-------------------------- MODULE P24_Presentation --------------------------
(***************************************************************************)
(* Real analyses of a base data set and of the same data set shown         *)
(* differently (a chain of presentation steps).  Keys are in the labels of *)
(* the base data, so the two lists of outputs must be the same map.        *)
(***************************************************************************)
EXTENDS PresentationModel, TraceRun
Keys(s) == { s[i].k : i \in 1..Len(s) }
Get(s, k) == s[CHOOSE i \in 1..Len(s) : s[i].k = k]
FloatsMayShrink(ev) == Has(ev.chain, {"types"})
RelT(ev) == IF ev.loose \/ FloatsMayShrink(ev) THEN "1e-4" ELSE "1e-7"
(* t and p of an effect that is zero up to rounding say nothing *)
AbsT(ev) == IF ev.loose \/ FloatsMayShrink(ev) THEN "1e-5" ELSE "1e-8"
Drawn(ev, x) == x.rs /\ Has(ev.chain, MovesDraws)
Noise(v) == IsNaN(v) \/ (IsFin(v) /\ Lt(Abs(v), Nm("1e-6")))
Void(x) == x.role = "flag" \/ (x.role \in {"t", "p", "rank", "ci"} /\ (~IsFin(x.g) \/ Noise(x.g)))
SameVal(ev, x, y) == CASE x.role = "n" -> ToString(x.v) = ToString(y.v)
                       [] x.role = "ci" -> TolNum(y.v[1], x.v[1], RelT(ev), AbsT(ev)) /\ TolNum(y.v[2], x.v[2], RelT(ev), AbsT(ev))
                       [] x.role = "rank" /\ ~\A i \in 1..Len(ev.chain) : ev.chain[i] \in Exact -> TolNum(y.v, x.v, RelT(ev), "0.25")
                       (* the root of a variance that is zero up to rounding *)
                       [] x.role = "se" /\ Noise(x.v) -> Noise(y.v)
                       [] OTHER -> TolNum(y.v, x.v, RelT(ev), AbsT(ev))
Name(ev) == IF Len(ev.chain) = 1 THEN ev.chain[1] ELSE "chain"
Clauses(ev) ==
  << CD("input_untouched", ev.pure /\ ev.pure2, ev.run), CD("global_random_state_untouched", ev.global, ev.run),
     CD("same_failure", ev.raised = ev.raised2, <<ev.run, ev.chain, ev.raised, ev.raised2>>) >>
  \o When(ev.raised = "" /\ ev.raised2 = "",
       << CD("same_outputs_under_" \o Name(ev), Keys(ev.a) = Keys(ev.b), <<ev.run, ev.chain, Keys(ev.a) \ Keys(ev.b), Keys(ev.b) \ Keys(ev.a)>>) >>
       \o ForEach(Len(ev.a), LAMBDA i :
            LET x == ev.a[i] IN
            When(x.k \in Keys(ev.b) /\ ~Drawn(ev, x) /\ ~Void(x),
              LET y == Get(ev.b, x.k) IN
              << CD("same_answer_under_" \o Name(ev), SameVal(ev, x, y), <<ev.run, ev.chain, x.k, ToString(x.v), ToString(y.v)>>) >>)))
=============================================================================
