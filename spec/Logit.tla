------------------------------- MODULE Logit --------------------------------
(* Maximum-likelihood logistic regression by Newton's method.  ok is FALSE when the iteration does not settle
   (separated data have no finite estimate). *)
EXTENDS Num, Integers
Cols2(X, ix) == [i \in 1..Len(X) |-> [j \in 1..Len(ix) |-> X[i][ix[j]]]]
Sigmoid(z) == One (/) (One (+) ExpN(NegN(z)))
ProbsAt(X, b) == [i \in 1..Len(X) |-> Sigmoid(Dot(X[i], b))]
RECURSIVE Newton(_, _, _, _)
Newton(X, d, b, left) ==
  LET z == Force([i \in 1..Len(X) |-> Rnd(Dot(X[i], b))])
      far == \E i \in 1..Len(z) : Lt(Nm(25), Abs(z[i]))
      p == Force([i \in 1..Len(X) |-> Sigmoid(z[i])])
      W == Force([i \in 1..Len(X) |-> p[i] (.) (One (-) p[i])])
      H == Force([a \in 1..Len(b) |-> [c \in 1..Len(b) |-> Rnd(SumQ([i \in 1..Len(X) |-> (W[i] (.) X[i][a]) (.) X[i][c]]))]])
      g == Force([a \in 1..Len(b) |-> Rnd(SumQ([i \in 1..Len(X) |-> (d[i] (-) p[i]) (.) X[i][a]]))])
      s == SolveQ(H, g)
  IN IF far \/ left = 0 \/ s = <<>> THEN [ok |-> FALSE, p |-> <<>>, b |-> b]
     ELSE LET nb == Force([a \in 1..Len(b) |-> Rnd(b[a] (+) s[a])])
          IN IF Lt(MaxQ([a \in 1..Len(b) |-> Abs(s[a])]), Nm("1e-11")) THEN [ok |-> TRUE, p |-> Force(ProbsAt(X, nb)), b |-> nb]
             ELSE Newton(X, d, nb, left - 1)
LogitFit(X, d) ==
  LET X2 == Force(Cols2(X, PivotCols(X)))
  IN Newton(X2, d, [a \in 1..Len(X2[1]) |-> Zero], 30)
=============================================================================
