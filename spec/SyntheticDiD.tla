---------------------------- MODULE SyntheticDiD ----------------------------
(***************************************************************************)
(* Synthetic difference-in-differences of an outcome table Y[unit][period].*)
(* co, tt: sequences of control and treated units (a unit may occur twice,   *)
(* as it does in a resample); pre, post: sequences of periods.             *)
(***************************************************************************)
EXTENDS Inference, SimplexQP

MeanAt(Y, us, t) == MeanQ([q \in 1..Len(us) |-> Y[us[q]][t]])
TreatedPath(Y, tt, ps) == [q \in 1..Len(ps) |-> MeanAt(Y, tt, ps[q])]
(* H and f of the unit-weight problem: fit plus lambda times the distance from uniform weights.
   The weights sum to one, so outcomes may be taken net of the controls' mean in each period. *)
Net(Y, co, i, t) == Y[i][t] (-) MeanAt(Y, co, t)
UnitH(Y, co, pre, lam) == LET N == Force([a \in 1..Len(co) |-> [q \in 1..Len(pre) |-> Net(Y, co, co[a], pre[q])]])
      IN [a \in 1..Len(co) |-> [b \in 1..Len(co) |-> Dot(N[a], N[b]) (+) (IF a = b THEN lam ELSE Zero)]]
UnitF(Y, co, tt, pre, lam) == LET m == Force([q \in 1..Len(pre) |-> MeanAt(Y, tt, pre[q]) (-) MeanAt(Y, co, pre[q])])
      IN [a \in 1..Len(co) |-> SumQ([q \in 1..Len(pre) |-> Net(Y, co, co[a], pre[q]) (.) m[q]]) (+) (lam (/) Nm(Len(co)))]
UnitOptimum(Y, co, tt, pre, lam) == IF Len(co) = 1 THEN [w |-> <<One>>, val |-> Zero]
      ELSE SimplexMin(UnitH(Y, co, pre, lam), UnitF(Y, co, tt, pre, lam))
Trace1(H) == SumQ([i \in 1..Len(H) |-> H[i][i]])
(* curvature ratio small enough for the iterative solver to have converged *)
WellConditioned(Y, co, pre, lam) == Len(co) = 1 \/ (Lt(Zero, lam) /\ Le(Trace1(UnitH(Y, co, pre, lam)), Nm(50) (.) lam))
(* time weights as implemented: inverse distance between treated and control paths *)
TimeWeights(Y, co, tt, pre, zeta) ==
  LET n == Len(pre)
      d == Force([q \in 1..n |-> Abs(MeanAt(Y, tt, pre[q]) (-) MeanAt(Y, co, pre[q]))])
      s == IF NumEq(VarQ(d, 0), Zero) THEN Zero ELSE Sqrt(VarQ(d, 0))
      inv == Force([q \in 1..n |-> One (/) (d[q] (+) (zeta (.) s) (+) Nm("1e-10"))])
      tot == SumQ(inv)
  IN IF n = 1 THEN <<One>> ELSE [q \in 1..n |-> inv[q] (/) tot]
PrePost(Y, us, w, pre, post, tw) == \* weighted over us: mean post minus time-weighted pre
  SumQ([q \in 1..Len(us) |-> w[q] (.) (MeanQ([p \in 1..Len(post) |-> Y[us[q]][post[p]]]) (-) Dot(tw, [p \in 1..Len(pre) |-> Y[us[q]][pre[p]]]))])
Equal(us) == [q \in 1..Len(us) |-> Rt(1, Len(us))]
Tau(Y, co, tt, w, pre, post, tw) == PrePost(Y, tt, Equal(tt), pre, post, tw) (-) PrePost(Y, co, w, pre, post, tw)
=============================================================================
