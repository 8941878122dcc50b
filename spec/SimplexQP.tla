----------------------------- MODULE SimplexQP ------------------------------
(***************************************************************************)
(* Minimise  w'Hw/2 - f'w  over the simplex, exactly: some optimum has a   *)
(* support on which the stationarity conditions have exactly one solution, *)
(* so it is enough to look at every support.                               *)
(***************************************************************************)
EXTENDS Num, Integers

Objective(H, f, w) == Rt(1, 2) (.) Dot(w, MatVec(H, w)) (-) Dot(f, w)
OnSupport(H, f, S) ==
  LET s == SortedInts(S)
      k == Len(s)
      A == [i \in 1..k + 1 |-> [j \in 1..k + 1 |-> IF i =< k /\ j =< k THEN H[s[i]][s[j]] ELSE IF i = k + 1 /\ j = k + 1 THEN Zero ELSE One]]
      b == [i \in 1..k + 1 |-> IF i =< k THEN f[s[i]] ELSE One]
  IN IF RankQ(A) < k + 1 THEN <<>>
     ELSE LET x == Force(SolveQ(A, b))
          IN IF \E i \in 1..k : Lt(x[i], Zero) THEN <<>>
             ELSE [j \in 1..Len(H) |-> IF j \in S THEN LET p == CHOOSE p \in 1..k : s[p] = j IN x[p] ELSE Zero]
SimplexMin(H, f) ==
  LET cand == Force(SelectSeq([q \in 1..Cardinality(SUBSET (1..Len(H)) \ {{}}) |-> OnSupport(H, f, SeqOfSet(SUBSET (1..Len(H)) \ {{}})[q])], LAMBDA w : w # <<>>))
      val == Force([q \in 1..Len(cand) |-> Objective(H, f, cand[q])])
      best == CHOOSE q \in 1..Len(cand) : \A p \in 1..Len(cand) : Le(val[q], val[p])
  IN [w |-> RndV(cand[best]), val |-> val[best]]
=============================================================================
