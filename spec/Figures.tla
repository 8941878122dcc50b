------------------------------ MODULE Figures -------------------------------
(***************************************************************************)
(* Results are drawn one after another, on new figures and on axes already *)
(* in use.  A layer, once drawn, shows its own result and stays.           *)
(***************************************************************************)
EXTENDS FigureModel
CONSTANTS MaxCalls, Values
VARIABLES kinds, places, figs, val, shows
vars == <<kinds, places, figs, val, shows>>
Init == kinds = <<>> /\ places = <<>> /\ figs = <<>> /\ val = <<>> /\ shows = <<>>
(* request i draws the result with value v; what layer i shows is fixed then *)
Plot(k, p, v) ==
  /\ Len(kinds) < MaxCalls
  /\ p \in 0..Len(figs)
  /\ CanShare(kinds, figs, p, k)
  /\ kinds' = Append(kinds, k) /\ places' = Append(places, p) /\ val' = Append(val, v)
  /\ figs' = Drawn(figs, p, Len(kinds) + 1)
  /\ shows' = Append(shows, v)
(* a request that cannot be drawn is refused and leaves every figure alone *)
Refuse == Len(kinds) < MaxCalls /\ \E p \in 0..Len(figs) : kinds' = Append(kinds, "bad") /\ places' = Append(places, p) /\ val' = Append(val, 0) /\ shows' = Append(shows, 0) /\ UNCHANGED figs
Next == (\E k \in Kinds, p \in 0..MaxCalls, v \in Values : Plot(k, p, v)) \/ Refuse
Spec == Init /\ [][Next]_vars
Once == \A i \in 1..Len(kinds) : Cardinality({ <<f, j>> \in (1..Len(figs)) \X (1..MaxCalls) : j =< Len(figs[f]) /\ figs[f][j] = i }) = (IF kinds[i] = "bad" THEN 0 ELSE 1)
InOrder == \A f \in 1..Len(figs) : figs[f] # <<>> /\ \A i, j \in 1..Len(figs[f]) : i < j => figs[f][i] < figs[f][j]
Faithful == \A i \in 1..Len(kinds) : shows[i] = val[i]
Apart == \A f \in 1..Len(figs) : (\E i \in 1..Len(figs[f]) : kinds[figs[f][i]] = "bar") => Len(figs[f]) = 1
Stays == [][\A f \in 1..Len(figs) : SubSeq(figs'[f], 1, Len(figs[f])) = figs[f]]_vars
GEmit == Len(kinds) < MaxCalls \/ Emit([scen |-> [kinds |-> kinds, places |-> places]])
=============================================================================
