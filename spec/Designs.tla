------------------------------ MODULE Designs -------------------------------
(***************************************************************************)
(* Design matrices of the regression estimators, and what a regression     *)
(* reports about one focal column.                                         *)
(***************************************************************************)
EXTENDS Inference, Regression

Ones(n) == [i \in 1..n |-> One]
ColMul(a, b) == [i \in 1..Len(a) |-> a[i] (.) b[i]]
(* a design from its columns; focal columns go last *)
FromCols(cols) == RndM(Transp(cols))
IndCol(v, x) == [i \in 1..Len(v) |-> IF v[i] = x THEN One ELSE Zero]
(* indicator columns of an integer factor, lowest level omitted *)
DummyCols(v) == LET lv == SortedInts({v[i] : i \in 1..Len(v)})
                IN [k \in 1..(Len(lv) - 1) |-> IndCol(v, lv[k + 1])]
NLevels(v) == Cardinality({v[i] : i \in 1..Len(v)})

GroupMean(x, g, i) == LET m == {j \in 1..Len(g) : g[j] = g[i]} IN MeanOver(m, LAMBDA j : x[j])
Demean(x, g) == Force([i \in 1..Len(x) |-> x[i] (-) GroupMean(x, g, i)])
RECURSIVE DemeanAll(_, _)
DemeanAll(x, gs) == IF gs = <<>> THEN x ELSE DemeanAll(Demean(x, Head(gs)), Tail(gs))

(* residual of x on unit and period indicators *)
TwoWayResid(x, unit, time) ==
  LET X == FromCols(<<Ones(Len(x))>> \o DummyCols(unit) \o DummyCols(time))
  IN Resid(Cols(X, PivotCols(X)), x)

(* Focal: the last column of the design `cols`.  rank-reduced fit *)
FocalFit(cols, y, vkind, g) ==
  LET X == FromCols(cols)
      pc == PivotCols(X)
      Xr == Force(Cols(X, pc))
      b == Force(Beta(Xr, y))
      u == Force(RndV(VSub(y, Fitted(Xr, b))))
      r == Len(pc)
      V == IF Len(y) > r THEN Force(Vcov(vkind, Xr, u, g)) ELSE <<>>
  IN [identified |-> pc[r] = Len(cols), rank |-> r, coef |-> b[r], resid |-> u,
      var |-> IF Len(y) > r THEN V[r][r] ELSE Nm("nan"), full |-> r = Len(cols), beta |-> b]
=============================================================================
