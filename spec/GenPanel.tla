------------------------------ MODULE GenPanel ------------------------------
(***************************************************************************)
(* Every panel skeleton with U units and T periods up to the order of the  *)
(* units: which periods each unit is observed in, and which adoption class *)
(* it belongs to (0..MaxClass).  States are skeletons under construction.  *)
(***************************************************************************)
EXTENDS Num, Integers, TLC
CONSTANTS U, T, MaxClass, MinObs
VARIABLE units
Pow2(n) == 2 ^ n
Bits(c) == {t \in 1..T : (c \div Pow2(t - 1)) % 2 = 1}
(* a unit is a code: class * 2^T + presence bits *)
Codes == {c \in 1..((MaxClass + 1) * Pow2(T) - 1) : Cardinality(Bits(c % Pow2(T))) >= MinObs}
Init == units = <<>>
AddUnit(c) == /\ Len(units) < U
              /\ (units # <<>> => units[Len(units)] =< c)
              /\ units' = Append(units, c)
Next == \E c \in Codes : AddUnit(c)
Skeleton == [i \in 1..U |-> [cls |-> units[i] \div Pow2(T), at |-> Bits(units[i] % Pow2(T))]]
Complete == Len(units) < U \/ Emit([scen |-> Skeleton])
Spec == Init /\ [][Next]_units
=============================================================================
