----------------------------- MODULE Regression -----------------------------
(***************************************************************************)
(* Least squares over the rationals, and the covariance estimators the     *)
(* library documents: HC1, cluster-robust (CR1) and homoskedastic.         *)
(* A design is a sequence of rows.                                         *)
(***************************************************************************)
EXTENDS Num, Integers

NCols(X) == IF X = <<>> THEN 0 ELSE Len(X[1])
Cols(X, ix) == [i \in 1..Len(X) |-> [j \in 1..Len(ix) |-> X[i][ix[j]]]]
Beta(X, y) == RndV(SolveQ(Gram(X), MatVec(Transp(X), y)))
Fitted(X, b) == MatVec(X, b)
VSub(a, b) == [i \in 1..Len(a) |-> a[i] (-) b[i]]
Resid(X, y) == RndV(VSub(y, Fitted(X, Beta(X, y))))
Bread(X) == RndM(InvQ(Gram(X)))
Scale(m, c) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> c (.) m[i][j]]]
Outer(s) == [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> s[i] (.) s[j]]]
(* rows of X weighted by u *)
Scores(X, u) == [i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> X[i][j] (.) u[i]]]
Sandwich(X, meat, c) == RndM(Scale(MatMul(MatMul(Bread(X), meat), Bread(X)), c))
VcovHC1(X, u) ==
  LET n == Len(X) k == NCols(X)
  IN Sandwich(X, Gram(Scores(X, u)), Rt(n, n - k))
ClusterScores(X, u, g) ==
  LET s == Scores(X, u)
      ids == SeqOfSet({g[i] : i \in 1..Len(g)})
      k == NCols(X)
  IN [c \in 1..Len(ids) |-> [j \in 1..k |-> SumQ([i \in 1..Len(X) |-> IF g[i] = ids[c] THEN s[i][j] ELSE Zero])]]
VcovCluster(X, u, g) ==
  LET n == Len(X) k == NCols(X) G == Cardinality({g[i] : i \in 1..Len(g)})
  IN Sandwich(X, Gram(ClusterScores(X, u, g)), Rt(G, G - 1) (.) Rt(n - 1, n - k))
VcovHom(X, u) ==
  LET n == Len(X) k == NCols(X)
  IN RndM(Scale(Bread(X), Dot(u, u) (/) Nm(n - k)))
(* kind: "hc1", "hom" or "cluster" *)
Vcov(kind, X, u, g) ==
  CASE kind = "hc1" -> VcovHC1(X, u)
    [] kind = "hom" -> VcovHom(X, u)
    [] kind = "cluster" -> VcovCluster(X, u, g)
    [] kind = "none" -> Scale(Bread(X), Zero)
Diag(m) == [i \in 1..Len(m) |-> m[i][i]]
RSquared(y, u) ==
  LET tss == SumQ([i \in 1..Len(y) |-> Sq(y[i] (-) MeanQ(y))])
  IN IF NumEq(tss, Zero) THEN Zero ELSE One (-) (Dot(u, u) (/) tss)
AdjRSquared(r2, n, k) == One (-) ((One (-) r2) (.) Rt(n - 1, n - k))
=============================================================================
