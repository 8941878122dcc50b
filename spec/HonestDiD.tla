----------------------------- MODULE HonestDiD ------------------------------
(***************************************************************************)
(* Sensitivity of an event study to violations of parallel trends.         *)
(*                                                                         *)
(* A source is an event study: post-period effects with their covariance,  *)
(* the number of pre-periods and the size of the largest pre-period        *)
(* effect.  A restriction says how far the post-period violation may go.   *)
(* As implemented: the smoothness restriction does not tie the pre-period  *)
(* violations to the estimated ones, and intervals add normal critical     *)
(* values to the end points of the identified set.                         *)
(***************************************************************************)
EXTENDS Inference

Inf == Nm("inf")
Ident(n, f(_)) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN f(i) ELSE Zero]]
RECURSIVE AscN(_)                     \* sequence of records by ascending field e
AscN(s) == IF s = <<>> THEN <<>>
           ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i].e =< s[j].e
                IN <<s[m]>> \o AscN([i \in 1..Len(s)-1 |-> IF i < m THEN s[i] ELSE s[i+1]])

(* --- sources --- *)
(* staggered event study: cells without a standard error or without groups are normalisations *)
Usable(s) == SelectSeq(s.es, LAMBDA e : e.n > 0 /\ IsFin(e.se))
StagPost(s) == SelectSeq(AscN(Usable(s)), LAMBDA e : e.e >= 0)
StagPre(s) == SelectSeq(AscN(Usable(s)), LAMBDA e : e.e < 0)
StagMax(s) == LET p == SelectSeq(s.es, LAMBDA e : e.e < 0 /\ e.n > 0)
              IN IF p = <<>> THEN s.overallse ELSE MaxQ([i \in 1..Len(p) |-> Abs(p[i].eff)])
(* two-group event study: s.block is where the effect of each post period sits among the coefficients
   (<<>> when the model does not say), s.pre the pre-period coefficients it reports *)
MultiSigma(s) ==
  LET m == Len(s.post)
  IN IF s.vcov = <<>> THEN Ident(m, LAMBDA i : Sq(s.post[i].se))
     ELSE IF s.block # <<>> THEN [i \in 1..m |-> [j \in 1..m |-> s.vcov[s.block[i]][s.block[j]]]]
     ELSE s.vcov
Study(s) ==
  IF s.kind = "stag"
  THEN LET p == StagPost(s)
       IN [beta |-> [i \in 1..Len(p) |-> p[i].eff], sigma |-> Ident(Len(p), LAMBDA i : Sq(p[i].se)),
           npre |-> Len(StagPre(s)), maxpre |-> StagMax(s)]
  ELSE [beta |-> [i \in 1..Len(s.post) |-> s.post[i].eff], sigma |-> MultiSigma(s), npre |-> s.npre,
        maxpre |-> IF s.pre = <<>> THEN s.overallse ELSE MaxQ([i \in 1..Len(s.pre) |-> Abs(s.pre[i])])]
Weights(st, l) == IF l # <<>> THEN l ELSE [i \in 1..Len(st.beta) |-> One (/) Nm(Len(st.beta))]
Theta(st, l) == Dot(l, st.beta)
Var(st, l) == Dot(l, MatVec(st.sigma, l))

(* --- how much of l' delta a unit of M buys --- *)
(* second differences: row i is delta_i - 2 delta_(i+1) + delta_(i+2) *)
SecondDiff(T) == [i \in 1..T-2 |-> [j \in 1..T |-> IF j = i \/ j = i + 2 THEN One ELSE IF j = i + 1 THEN Nm(-2) ELSE Zero]]
(* the largest l' delta with all second differences within 1: by duality the 1-norm of the combination of
   second differences that l is, unbounded when it is none *)
SmoothFactor(st, l) ==
  LET T == st.npre + Len(st.beta)
      c == [i \in 1..T |-> IF i =< st.npre THEN Zero ELSE l[i - st.npre]]
      y == IF T < 3 THEN <<>> ELSE SolveQ(Transp(SecondDiff(T)), c)
  IN IF y = <<>> THEN Inf ELSE SumQ([i \in 1..Len(y) |-> Abs(y[i])])
(* post violations within Mbar times the largest pre effect *)
RelFactor(st, l) == st.maxpre (.) SumQ([i \in 1..Len(l) |-> Abs(l[i])])
Factor(st, l, method) ==
  IF method = "smoothness" THEN SmoothFactor(st, l)
  ELSE IF method = "relative_magnitude" THEN RelFactor(st, l)
  ELSE LET a == SmoothFactor(st, l) IN IF IsFin(a) /\ Lt(a, RelFactor(st, l)) THEN a ELSE RelFactor(st, l)
Slack(f, M) == IF IsFin(f) THEN f (.) M ELSE Inf
Minus(a, b) == IF IsFin(b) THEN a (-) b ELSE NegN(Inf)
Plus(a, b) == IF IsFin(b) THEN a (+) b ELSE Inf

(* smallest M at which the interval no longer excludes zero: "never", or a number *)
Breakdown(st, l, method, alpha) ==
  LET gap == Abs(Theta(st, l)) (-) (NormPpf(One (-) (alpha (/) Nm(2))) (.) SqrtPos(Var(st, l)))
      f == Factor(st, l, method)
  IN IF gap \preceq Zero THEN Zero ELSE IF ~IsFin(f) THEN Zero ELSE IF NumEq(f, Zero) THEN Inf ELSE gap (/) f
=============================================================================
