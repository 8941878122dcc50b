----------------------------- MODULE GenDesigns -----------------------------
(***************************************************************************)
(* Every design matrix with entries 0..MaxEntry, K columns and N rows, up  *)
(* to the order of the rows.  A state is a matrix under construction; the  *)
(* complete ones are the scenarios.                                        *)
(***************************************************************************)
EXTENDS Num, Integers, TLC
CONSTANTS K, N, MaxEntry
VARIABLE rows
Row == [1..K -> 0..MaxEntry]
RECURSIVE Code(_, _)
Code(r, k) == IF k = 0 THEN 0 ELSE Code(r, k - 1) * (MaxEntry + 1) + r[k]
Init == rows = <<>>
AddRow(r) == /\ Len(rows) < N
             /\ (rows # <<>> => Code(rows[Len(rows)], K) =< Code(r, K))
             /\ rows' = Append(rows, r)
Next == \E r \in Row : AddRow(r)
(* a design without any nonzero entry is not a regression *)
Complete == Len(rows) < N \/ rows[N] = [j \in 1..K |-> 0] \/ Emit([scen |-> rows])
Spec == Init /\ [][Next]_rows
=============================================================================
