-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic for the estimator specifications.                      *)
(*                                                                         *)
(* A "number" is a rational, NaN, Inf or -Inf.  TLC's integers have 32     *)
(* bits, so TLC evaluates every operator of this module with the Java      *)
(* class tlc2.module.Num (BigInteger rationals); the definitions below are *)
(* the meaning of the operators over the reals.  Recorded floats are       *)
(* converted to the rational they denote, so the only rounding between a   *)
(* log and a verdict is the tolerance written in the specification.        *)
(* NaN absorbs; every comparison with NaN is FALSE.                        *)
(***************************************************************************)
EXTENDS Reals, Sequences, FiniteSets

Nm(a) == a                              \* integer, string or number -> number
Rt(a, b) == a / b                       \* the rational a/b
Add(a, b) == a + b
Sub(a, b) == a - b
Mul(a, b) == a * b
Div(a, b) == a / b                      \* NaN when b = 0
NegN(a) == 0 - a
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Lt(a, b) == a < b
Le(a, b) == a =< b
NumEq(a, b) == a = b
IsFin(a) == a \in Real
IsNaN(a) == a \notin Real
IsNum(a) == a \in Real                  \* is a number (and not a string, "null", ...)
IsInteger(a) == a \in Int
ToInt(a) == a
FloorN(a) == CHOOSE n \in Int : n =< a /\ a < n + 1
CeilN(a) == CHOOSE n \in Int : a =< n /\ n < a + 1
ShowN(a) == a                           \* string for messages
Rnd(a) == a                             \* rounds operands with > 300 bits to 70 decimal digits
RndV(a) == a
RndM(a) == a
Sqrt(a) == CHOOSE r \in Real : r >= 0 /\ r * r = a     \* 70 decimal digits
Close(a, b, rtol, atol) == LET m == IF Abs(a) < Abs(b) THEN Abs(b) ELSE Abs(a)
                           IN Abs(a - b) =< rtol * m + atol
Force(f) == f                           \* evaluates a function value once

RECURSIVE Flat(_)                       \* concatenation of a sequence of sequences
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE SumQ(_)
SumQ(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumQ(Tail(s))
MeanQ(s) == SumQ(s) / Len(s)
Dot(a, b) == SumQ([i \in 1..Len(a) |-> a[i] * b[i]])
MaxQ(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] =< m
MinQ(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m =< s[i]
SortQ(s) == CHOOSE t \in [1..Len(s) -> {s[i] : i \in 1..Len(s)}] :
               \A i \in 1..Len(s)-1 : t[i] =< t[i+1]
VarQ(s, ddof) == SumQ([i \in 1..Len(s) |-> (s[i] - MeanQ(s)) * (s[i] - MeanQ(s))]) / (Len(s) - ddof)

MatVec(a, x) == [i \in 1..Len(a) |-> Dot(a[i], x)]
Transp(a) == IF a = <<>> THEN <<>> ELSE [j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][j]]]
MatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> Dot(a[i], Transp(b)[j])]]
Gram(a) == MatMul(Transp(a), a)
(* some solution of a x = b, <<>> when there is none *)
SolveQ(a, b) == IF \E x \in [1..Len(a[1]) -> Real] : MatVec(a, x) = b
                THEN CHOOSE x \in [1..Len(a[1]) -> Real] : MatVec(a, x) = b ELSE <<>>
InvQ(a) == IF \E m \in [1..Len(a) -> [1..Len(a) -> Real]] :
                MatMul(a, m) = [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> IF i = j THEN 1 ELSE 0]]
           THEN CHOOSE m \in [1..Len(a) -> [1..Len(a) -> Real]] :
                MatMul(a, m) = [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> IF i = j THEN 1 ELSE 0]]
           ELSE <<>>
RankQ(a) == 0                           \* rank of the matrix over the rationals (row reduction)
PivotCols(a) == <<>>                    \* columns that are not combinations of earlier columns

NormSf(z) == 0                          \* P(Z > z), standard normal
TSf(t, df) == 0                         \* P(T > t), Student t
NormPpf(p) == 0                         \* quantiles
TPpf(p, df) == 0
Chi2Sf(x, df) == 0
FSf(x, d1, d2) == 0
NcChi2Sf(x, df, nc) == 0                \* upper tail of the noncentral chi-square
ExpN(a) == 0
LnN(a) == 0

Emit(v) == TRUE                         \* writes v as one line of JSON on TLC's output
LoadTrace(path) == <<>>                 \* the recorded events (newline-delimited JSON)

---------------------------------------------------------------------------
a (+) b == Add(a, b)
a (-) b == Sub(a, b)
a (.) b == Mul(a, b)
a (/) b == Div(a, b)
a \prec b == Lt(a, b)
a \preceq b == Le(a, b)

Zero == Nm(0)
One == Nm(1)
Sq(a) == Mul(a, a)
Near(a, b) == Close(a, b, Nm("1e-7"), Nm("1e-8"))
SameNum(a, b) == IF IsFin(a) /\ IsFin(b) THEN Near(a, b) ELSE (IsNaN(a) /\ IsNaN(b)) \/ NumEq(a, b)
SqrtPos(a) == IF Lt(Zero, a) THEN Sqrt(a) ELSE Zero
(* sequence of f[x] for the elements of a finite set of integers, ascending *)
RECURSIVE SortedInts(_)
SortedInts(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x =< y
                                          IN <<m>> \o SortedInts(S \ {m})
SumOver(S, f(_)) == LET q == SortedInts(S) IN SumQ([i \in 1..Len(q) |-> f(q[i])])
MeanOver(S, f(_)) == Div(SumOver(S, f), Nm(Cardinality(S)))
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
SumSet(S, f(_)) == LET q == SeqOfSet(S) IN SumQ([i \in 1..Len(q) |-> f(q[i])])
=============================================================================
