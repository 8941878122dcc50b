-------------------------------- MODULE Power -------------------------------
(***************************************************************************)
(* Analytical power of a difference-in-differences design.                 *)
(***************************************************************************)
EXTENDS TraceRun, Integers

MaxSample == Nm(2147483647)
Design(npre, npost) == IF npre + npost > 2 THEN "panel" ELSE "basic_did"
(* variance of the estimate; a basic design has four independent cells, a panel averages T correlated
   observations of each unit (as implemented) *)
Variance(d) ==
  LET s2 == Sq(d.sigma) T == Nm(d.npre + d.npost)
      inv == (One (/) d.nt) (+) (One (/) d.nc)
  IN IF Design(d.npre, d.npost) = "basic_did" THEN Nm(2) (.) (s2 (.) inv)
     ELSE (s2 (.) inv) (.) ((One (+) ((T (-) One) (.) d.rho)) (/) T)
ZAlpha(d) == NormPpf(One (-) (IF d.alt = "two-sided" THEN d.alpha (/) Nm(2) ELSE d.alpha))
ZSum(d) == ZAlpha(d) (+) NormPpf(d.target)
Cdf(x) == One (-) NormSf(x)
(* probability that the test rejects when the effect is e *)
PowerOf(d, e) ==
  LET se == Sqrt(Variance(d)) z == ZAlpha(d) r == e (/) se
  IN IF d.alt = "two-sided" THEN NormSf(z (-) r) (+) Cdf(NegN(z) (-) r)
     ELSE IF d.alt = "greater" THEN NormSf(z (-) r)
     ELSE Cdf(NegN(z) (-) r)
Mde(d) == ZSum(d) (.) Sqrt(Variance(d))
(* the total size at which the minimum detectable effect is the wanted one: variance scales with 1/N *)
RealN(d, e, frac) == (Variance([d EXCEPT !.nt = frac, !.nc = One (-) frac]) (.) Sq(ZSum(d))) (/) Sq(e)
Required(d, e, frac) ==
  IF NumEq(e, Zero) THEN MaxSample
  ELSE LET n == RealN(d, e, frac) IN IF MaxSample \preceq n THEN MaxSample ELSE IF Lt(n, Nm(4)) THEN Nm(4) ELSE CeilN(n)
(* ceilings of floats: one off is allowed when the real number is within rounding of an integer *)
CeilEq(got, want, real) == NumEq(got, want) \/ (Le(Abs(got (-) want), One) /\ Le(Abs(real (-) (IF Lt(got, want) THEN got ELSE want)), Nm("1e-6")))
=============================================================================
