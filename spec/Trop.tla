-------------------------------- MODULE Trop --------------------------------
(***************************************************************************)
(* Triply robust panel estimator.  Y[t][i], D[t][i] (missing cells: Y NaN, *)
(* D 0).  For every treated cell the untreated outcome is fitted by a      *)
(* weighted two-way model (plus a low-rank matrix) on the untreated cells, *)
(* with weights falling exponentially in time distance and in the distance *)
(* between the units' untreated outcomes.                                  *)
(***************************************************************************)
EXTENDS Designs

NT(Y) == Len(Y)
NI(Y) == Len(Y[1])
Seen(Y, t, i) == IsFin(Y[t][i])
Free(Y, D, t, i) == D[t][i] = 0 /\ Seen(Y, t, i)
TreatedCells(D) == Flat([t \in 1..Len(D) |-> SelectSeq([i \in 1..Len(D[1]) |-> <<t, i>>], LAMBDA c : D[t][c[2]] = 1)])
FreeCells(Y, D) == Flat([t \in 1..Len(D) |-> SelectSeq([i \in 1..Len(D[1]) |-> <<t, i>>], LAMBDA c : Free(Y, D, t, c[2]))])
EverTreated(D) == {i \in 1..Len(D[1]) : \E t \in 1..Len(D) : D[t][i] = 1}
FirstTreated(D) == CHOOSE t \in 1..Len(D) : (\E i \in 1..Len(D[1]) : D[t][i] = 1) /\ \A s \in 1..(t - 1) : \A i \in 1..Len(D[1]) : D[s][i] = 0

(* an infinite penalty is "switched off": uniform weights *)
Lam(l) == IF IsFin(l) THEN l ELSE Zero
ExpW(l, d) == IF NumEq(l, Zero) THEN One ELSE ExpN(NegN(l (.) d))

(* root mean square difference over the other periods in which both are untreated *)
Dist(Y, D, i, j, t) ==
  LET S == {s \in 1..NT(Y) : s # t /\ Free(Y, D, s, i) /\ Free(Y, D, s, j)}
  IN IF S = {} THEN Nm(-1) ELSE LET m == MeanOver(S, LAMBDA s : Sq(Y[s][i] (-) Y[s][j])) IN SqrtPos(m)
CellWeights(Y, D, t, i, lt, lu) ==
  LET tw == Force([s \in 1..NT(Y) |-> ExpW(lt, Nm(IF s < t THEN t - s ELSE s - t))])
      uw == Force([j \in 1..NI(Y) |-> IF j = i THEN One
                                      ELSE IF D[t][j] # 0 THEN Zero
                                      ELSE IF NumEq(lu, Zero) THEN One
                                      ELSE LET d == Dist(Y, D, i, j, t) IN IF Lt(d, Zero) THEN Zero ELSE ExpW(lu, d)])
  IN Force([s \in 1..NT(Y) |-> [j \in 1..NI(Y) |-> IF Free(Y, D, s, j) THEN tw[s] (.) uw[j] ELSE Zero]])
Drop(W, t, i) == [W EXCEPT ![t][i] = Zero]

(* the units and periods linked to unit i through cells with positive weight *)
RECURSIVE Linked(_, _, _)
Linked(W, us, ts) ==
  LET ts2 == {t \in 1..Len(W) : \E i \in us : Lt(Zero, W[t][i])}
      us2 == us \cup {i \in 1..Len(W[1]) : \E t \in ts2 : Lt(Zero, W[t][i])}
  IN IF us2 = us /\ ts2 = ts THEN <<us, ts>> ELSE Linked(W, us2, ts2)
Identified(W, t, i) == LET k == Linked(W, {i}, {}) IN t \in k[2] /\ \E s \in 1..Len(W) : Lt(Zero, W[s][i])

(* weighted two-way fit: <<unit effects, period effects>> of the linked component, first linked period normalised to 0 *)
TwoWayFit(Y, W, i) ==
  LET k == Linked(W, {i}, {})
      us == SortedInts(k[1]) ts == SortedInts(k[2])
      nu == Len(us) nt == Len(ts)
      p == nu + nt - 1
      w(a, b) == W[ts[b]][us[a]]
      y(a, b) == Y[ts[b]][us[a]]
      A == [r \in 1..p |-> [c \in 1..p |->
             IF r =< nu /\ c =< nu THEN (IF r = c THEN SumQ([b \in 1..nt |-> w(r, b)]) ELSE Zero)
             ELSE IF r > nu /\ c > nu THEN (IF r = c THEN SumQ([a \in 1..nu |-> w(a, r - nu + 1)]) ELSE Zero)
             ELSE IF r =< nu THEN w(r, c - nu + 1) ELSE w(c, r - nu + 1)]]
      wy(a, b) == IF NumEq(w(a, b), Zero) THEN Zero ELSE w(a, b) (.) y(a, b)
      v == [r \in 1..p |-> IF r =< nu THEN SumQ([b \in 1..nt |-> wy(r, b)]) ELSE SumQ([a \in 1..nu |-> wy(a, r - nu + 1)])]
      x == Force(RndV(SolveQ(RndM(A), RndV(v))))
  IN [u \in k[1] |-> [t \in k[2] |->
        x[CHOOSE a \in 1..nu : us[a] = u] (+) (IF ts[1] = t THEN Zero ELSE x[nu - 1 + (CHOOSE b \in 1..nt : ts[b] = t)])]]
(* effect of one cell without low-rank part *)
CellEffect(Y, W, t, i) == LET f == TwoWayFit(Y, W, i) IN Y[t][i] (-) f[i][t]

AllIdentified(Y, D, lt, lu) == LET c == TreatedCells(D) IN \A q \in 1..Len(c) : Identified(CellWeights(Y, D, c[q][1], c[q][2], lt, lu), c[q][1], c[q][2])
TwoStepEffects(Y, D, lt, lu) == LET c == TreatedCells(D) IN [q \in 1..Len(c) |-> CellEffect(Y, CellWeights(Y, D, c[q][1], c[q][2], lt, lu), c[q][1], c[q][2])]
TwoStepAtt(Y, D, lt, lu) == MeanQ(TwoStepEffects(Y, D, lt, lu))

(* leave-one-out score: sum of the squared pseudo effects of the given untreated cells *)
LooIdentified(Y, D, cells) == \A q \in 1..Len(cells) : LET t == cells[q][1] i == cells[q][2] IN Identified(Drop(CellWeights(Y, D, t, i, Zero, Zero), t, i), t, i)
TwoStepScore(Y, D, cells, lt, lu) ==
  SumQ([q \in 1..Len(cells) |-> LET t == cells[q][1] i == cells[q][2] IN Sq(CellEffect(Y, Drop(CellWeights(Y, D, t, i, lt, lu), t, i), t, i))])

(* two-stage search over grids (indices), low-rank part switched off; S[a][b] score at the a-th time and b-th unit penalty; zero-based
   columns for "penalty 0" are passed as T0 (scores with unit penalty 0) and U0 (scores with time penalty 0) *)
FirstMin(s) == CHOOSE k \in 1..Len(s) : (\A j \in 1..Len(s) : Le(s[k], s[j])) /\ (\A j \in 1..(k - 1) : Lt(s[k], s[j]))
Cycle(S, a, b, prev, n) ==
  LET RECURSIVE Go(_, _, _, _)
      Go(x, y, pv, m) ==
        IF m = 0 THEN <<x, y>>
        ELSE LET y2 == FirstMin([k \in 1..Len(S[1]) |-> S[x][k]])
                 x2 == FirstMin([k \in 1..Len(S) |-> S[k][y2]])
             IN IF m < 10 /\ Lt(Abs(S[x2][y2] (-) pv), Nm("1e-6")) THEN <<x2, y2>> ELSE Go(x2, y2, S[x2][y2], m - 1)
  IN Go(a, b, prev, n)
Search(S, T0, U0) == Cycle(S, FirstMin(T0), FirstMin(U0), Zero, 10)

(* ---- joint: one effect, weights centred on the treated block *)
JointWeights(Y, D, lt, lu, npost) ==
  LET n == NT(Y)
      center == Nm(n) (-) Rt(npost, 2)
      tr == EverTreated(D)
      avg(t) == MeanOver({i \in tr : Seen(Y, t, i)}, LAMBDA i : Y[t][i])
      hasavg(t) == \E i \in tr : Seen(Y, t, i)
      pre == 1..(n - npost)
      d(j) == LET S == {t \in pre : hasavg(t) /\ Seen(Y, t, j)}
              IN IF S = {} THEN Nm(-1) ELSE SqrtPos(MeanOver(S, LAMBDA t : Sq(avg(t) (-) Y[t][j])))
      tw == Force([t \in 1..n |-> ExpW(lt, Abs(Nm(t - 1) (-) center))])
      uw == Force([j \in 1..NI(Y) |-> LET x == d(j) IN IF Lt(x, Zero) THEN Zero ELSE ExpW(lu, x)])
  IN Force([t \in 1..n |-> [j \in 1..NI(Y) |-> IF Seen(Y, t, j) THEN tw[t] (.) uw[j] ELSE Zero]])
(* <<intercept, unit effects 2.., period effects 2.., effect>>; empty when not unique *)
JointFit(Y, D, W) ==
  LET n == NT(Y) m == NI(Y)
      cells == Flat([t \in 1..n |-> SelectSeq([i \in 1..m |-> <<t, i>>], LAMBDA c : Lt(Zero, W[c[1]][c[2]]))])
      p == m + n
      x(c) == [k \in 1..p |-> IF k = 1 THEN One ELSE IF k =< m THEN (IF c[2] = k THEN One ELSE Zero)
                              ELSE IF k < p THEN (IF c[1] = k - m + 1 THEN One ELSE Zero) ELSE Nm(D[c[1]][c[2]])]
      X == Force([q \in 1..Len(cells) |-> x(cells[q])])
      WX == Force([q \in 1..Len(cells) |-> [k \in 1..p |-> W[cells[q][1]][cells[q][2]] (.) X[q][k]]])
  IN IF Len(cells) < p \/ RankQ(X) < p THEN <<>>
     ELSE Force(RndV(SolveQ(RndM(MatMul(Transp(X), WX)), RndV(MatVec(Transp(WX), [q \in 1..Len(cells) |-> Y[cells[q][1]][cells[q][2]]])))))
HasFit(b) == b # <<>>
JointAt(b, n, m, t, i) == b[1] (+) (IF i = 1 THEN Zero ELSE b[i]) (+) (IF t = 1 THEN Zero ELSE b[m + t - 1])
JointTau(b) == b[Len(b)]
JointScore(Y, D, cells, lt, lu, npost) ==
  LET W == JointWeights(Y, D, lt, lu, npost)
  IN SumQ([q \in 1..Len(cells) |-> LET t == cells[q][1] i == cells[q][2] b == JointFit(Y, D, Drop(W, t, i))
                                   IN Sq(Y[t][i] (-) JointAt(b, NT(Y), NI(Y), t, i))])
JointLooOk(Y, D, cells, npost) ==
  LET W == JointWeights(Y, D, Zero, Zero, npost)
  IN HasFit(JointFit(Y, D, W)) /\ \A q \in 1..Len(cells) : HasFit(JointFit(Y, D, Drop(W, cells[q][1], cells[q][2])))

(* ---- low-rank part: L minimises 1/2 sum w (R - L)^2 + lam |L|_*  iff  G = w o (R - L) satisfies
        |G|_op <= lam and G'L is symmetric, positive semidefinite with square lam^2 L'L *)
RECURSIVE Psd(_, _)
Psd(A, eps) ==      \* A + eps I has non-negative pivots
  IF A = <<>> THEN TRUE
  ELSE LET n == Len(A) d == A[1][1] (+) eps
       IN Lt(Zero, d) /\ Psd(Force([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> Rnd(A[i + 1][j + 1] (-) ((A[i + 1][1] (.) A[1][j + 1]) (/) d))]]), eps)
MaxAbs(A) == MaxQ(Flat([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Abs(A[i][j])]]))
MatNear(A, B, tol) == \A i \in 1..Len(A), j \in 1..Len(A[1]) : Le(Abs(A[i][j] (-) B[i][j]), tol)
LowRankOptimal(G, L, lam, tol) ==
  LET n == Len(G[1])
      GG == Force(RndM(Gram(G)))
      GL == Force(RndM(MatMul(Transp(G), L)))
      LL == Force(RndM(Gram(L)))
      big == Sq(lam) (+) One
      sc == (MaxAbs(LL) (+) One) (.) big
  IN << <<"residual_within_the_penalty", Psd([i \in 1..n |-> [j \in 1..n |-> (IF i = j THEN Sq(lam) ELSE Zero) (-) GG[i][j]]], tol (.) big), "">>,
        <<"low_rank_alignment_symmetric", MatNear(GL, Transp(GL), tol (.) sc), "">>,
        <<"low_rank_alignment_positive", Psd(GL, tol (.) sc), "">>,
        <<"low_rank_shrunk_by_the_penalty", MatNear(MatMul(GL, GL), Scale(LL, Sq(lam)), tol (.) sc (.) big), "">> >>
=============================================================================
