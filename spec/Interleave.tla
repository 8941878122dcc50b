----------------------------- MODULE Interleave -----------------------------
(* Every schedule of two analyses over N steps: an accumulation, a running  *)
(* maximum and a generator of pseudo-random numbers, each private.          *)
EXTENDS InterleaveModel, TLC
CONSTANTS N, MaxLen
VARIABLES pos, acc, top, gen, sched
vars == <<pos, acc, top, gen, sched>>
Jobs == {1, 2}
Data(j) == IF j = 1 THEN [i \in 1..N |-> 3 * i - 4] ELSE [i \in 1..N |-> 11 - 2 * i]
Rand(g) == (5 * g + 3) % 16
Max(a, b) == IF a < b THEN b ELSE a
Init == /\ pos = [j \in Jobs |-> 0] /\ acc = [j \in Jobs |-> 0] /\ top = [j \in Jobs |-> -99] /\ gen = [j \in Jobs |-> j] /\ sched = <<>>
Step(j) == /\ pos[j] < N
           /\ LET x == Data(j)[pos[j] + 1] IN
              /\ pos' = [pos EXCEPT ![j] = @ + 1] /\ acc' = [acc EXCEPT ![j] = @ + x * (gen[j] + 1)] /\ top' = [top EXCEPT ![j] = Max(@, x)] /\ gen' = [gen EXCEPT ![j] = Rand(@)]
           /\ sched' = Append(sched, j)
Next == \E j \in Jobs : Step(j)
Spec == Init /\ [][Next]_vars
RECURSIVE GenAt(_, _)
GenAt(j, i) == IF i = 0 THEN j ELSE Rand(GenAt(j, i - 1))
RECURSIVE AccAt(_, _)
AccAt(j, i) == IF i = 0 THEN 0 ELSE AccAt(j, i - 1) + Data(j)[i] * (GenAt(j, i - 1) + 1)
(* at every moment each analysis is where it would be had it run alone *)
Isolated == \A j \in Jobs : acc[j] = AccAt(j, pos[j]) /\ gen[j] = GenAt(j, pos[j]) /\ top[j] = (IF pos[j] = 0 THEN -99 ELSE CHOOSE m \in { Data(j)[i] : i \in 1..pos[j] } : \A i \in 1..pos[j] : Data(j)[i] <= m)
GInit == pos = <<0, 0>> /\ acc = <<>> /\ top = <<>> /\ gen = <<>> /\ sched = <<>>
GNext == Len(sched) < MaxLen /\ \E s \in 1..Len(Slices) : sched' = Append(sched, Slices[s]) /\ UNCHANGED <<pos, acc, top, gen>>
GSpec == GInit /\ [][GNext]_vars
GEmit == Len(sched) < 2 \/ Emit([scen |-> [slices |-> sched]])
=============================================================================
