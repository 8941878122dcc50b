---------------------------- MODULE StaggeredAgg ----------------------------
(* Combinations of group-time effects; m is Model(ev). *)
EXTENDS StaggeredDiD

Keepers(ev, m) == SelectSeq(m, LAMBDA c : c.t >= c.g - ev.a)
BalancedGroups(m, b) == {m[q].g : q \in {q \in 1..Len(m) : m[q].t - m[q].g = b}}
Balanced(ev, m) == IF ~IsNum(ev.bal) THEN m ELSE LET gs == BalancedGroups(m, ev.bal) IN SelectSeq(m, LAMBDA c : c.g \in gs)
EventTimes(ev, m) == LET b == Balanced(ev, m) IN SortedInts({b[q].t - b[q].g : q \in 1..Len(b)})
EventCells(ev, m, e) == SelectSeq(Balanced(ev, m), LAMBDA c : c.t - c.g = e)
GroupCells(ev, m, g) == SelectSeq(m, LAMBDA c : c.g = g /\ c.t >= g - ev.a)

WeightsByTreated(k) == LET tot == SumQ([q \in 1..Len(k) |-> Nm(k[q].nt)]) IN [q \in 1..Len(k) |-> Nm(k[q].nt) (/) tot]
EqualWeights(k) == [q \in 1..Len(k) |-> Rt(1, Len(k))]
CombAtt(k, w) == SumQ([q \in 1..Len(k) |-> w[q] (.) k[q].att])
CombInfl(k, w, i) == SumQ([q \in 1..Len(k) |-> w[q] (.) k[q].infl[i]])
CombVar(ev, k, w) == SumOver(Units(ev), LAMBDA i : Sq(CombInfl(k, w, i)))

(* the overall effect also carries the influence of the estimated cohort shares *)
Used(ev, k) == UNION {TreatedAt(ev, k[q].g, k[q].t) \cup ControlAt(ev, k[q].g, k[q].t) : q \in 1..Len(k)}
OverallInfl(ev, k) ==
  LET us == Used(ev, k)
      n == Cardinality(us)
      w == WeightsByTreated(k)
      share == [q \in 1..Len(k) |-> Rt(Cardinality({i \in Units(ev) : ev.coh[i] = k[q].g}), n)]
      tot == SumQ(share)
      wif(i) == LET d == Force([q \in 1..Len(k) |-> (IF ev.coh[i] = k[q].g THEN One ELSE Zero) (-) share[q]])
                IN SumQ([q \in 1..Len(k) |-> ((d[q] (/) tot) (-) ((SumQ(d) (.) share[q]) (/) Sq(tot))) (.) k[q].att])
  IN Force([i \in Units(ev) |-> IF i \in us THEN CombInfl(k, w, i) (+) (wif(i) (/) Nm(n)) ELSE Zero])
OverallVar(ev, k) == LET f == OverallInfl(ev, k) IN SumOver(Units(ev), LAMBDA i : Sq(f[i]))
=============================================================================
