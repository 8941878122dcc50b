---------------------------- MODULE Presentation ----------------------------
(***************************************************************************)
(* A small instance of the presentation model for TLC: observations are    *)
(* records, a shown table is a sequence of records with relabelled units   *)
(* and periods.  Every reachable table still shows the same data set       *)
(* (Recover), whatever the chain of presentation steps.  The generator     *)
(* configuration lists the chains that are replayed on the real analyses.  *)
(***************************************************************************)
EXTENDS PresentationModel, FiniteSets, TLC, Num
CONSTANTS MaxLen
VARIABLES chain, rows, umap, tmap, idx
vars == <<chain, rows, umap, tmap, idx>>
Units == 1..2
Times == 1..2
Obs == { [u |-> u, t |-> t, y |-> 3 * u + t * t * u] : u \in Units, t \in Times }
InitRows == << [u |-> 1, t |-> 1, y |-> 4], [u |-> 1, t |-> 2, y |-> 7], [u |-> 2, t |-> 1, y |-> 8], [u |-> 2, t |-> 2, y |-> 14] >>
Init == chain = <<>> /\ rows = InitRows /\ umap = [u \in Units |-> u] /\ tmap = [t \in Times |-> t] /\ idx = <<0, 1, 2, 3>>
Perm4 == { p \in [1..4 -> 1..4] : \A i, j \in 1..4 : i # j => p[i] # p[j] }
Rows == \E p \in Perm4 : rows' = [i \in 1..4 |-> rows[p[i]]] /\ idx' = [i \in 1..4 |-> idx[p[i]]] /\ UNCHANGED <<umap, tmap>>
Index == \E f \in {<<0, 0, 0, 0>>, <<9, 8, 7, 6>>} : idx' = f /\ UNCHANGED <<rows, umap, tmap>>
Relabel == \E f \in {<<2, 1>>, <<7, 5>>} :
   /\ umap = [u \in Units |-> u]
   /\ umap' = [u \in Units |-> f[u]]
   /\ rows' = [i \in 1..4 |-> [rows[i] EXCEPT !.u = f[rows[i].u]]]
   /\ UNCHANGED <<tmap, idx>>
Shift == \E s \in {10} :
   /\ tmap = [t \in Times |-> t]
   /\ tmap' = [t \in Times |-> t + s]
   /\ rows' = [i \in 1..4 |-> [rows[i] EXCEPT !.t = @ + s]]
   /\ UNCHANGED <<umap, idx>>
Quiet == UNCHANGED <<rows, umap, tmap, idx>>
Do(s) == CASE s = "rows" -> Rows [] s = "index" -> Index [] s = "units" -> Relabel [] s = "times" -> Shift [] OTHER -> Quiet
Next == Len(chain) < MaxLen /\ \E s \in Steps : Do(s) /\ chain' = Append(chain, s)
Spec == Init /\ [][Next]_vars
Inv(m, v) == CHOOSE k \in DOMAIN m : m[k] = v
Recover == { [u |-> Inv(umap, rows[i].u), t |-> Inv(tmap, rows[i].t), y |-> rows[i].y] : i \in 1..4 } = Obs
(* a difference-in-differences of the shown table, computed through the labels: the same for all of them *)
At(u, t) == (CHOOSE i \in 1..4 : rows[i].u = umap[u] /\ rows[i].t = tmap[t])
Effect == (rows[At(2, 2)].y - rows[At(2, 1)].y) - (rows[At(1, 2)].y - rows[At(1, 1)].y)
EffectInvariant == Effect = 3
(* generation: the chains only *)
GInit == chain = <<>> /\ rows = InitRows /\ umap = [u \in Units |-> u] /\ tmap = [t \in Times |-> t] /\ idx = <<0, 1, 2, 3>>
GNext == Len(chain) < MaxLen /\ \E s \in Steps : (\A i \in 1..Len(chain) : chain[i] # s) /\ chain' = Append(chain, s) /\ Quiet
GSpec == GInit /\ [][GNext]_vars
View == <<rows, umap, tmap, idx, Len(chain)>>
GEmit == Len(chain) > 1 => Emit([scen |-> [chain |-> chain]])
=============================================================================
