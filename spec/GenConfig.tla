------------------------------ MODULE GenConfig -----------------------------
(***************************************************************************)
(* Every combination of K choices, choice k having Sizes[k] alternatives   *)
(* (numbered from 0).  A state is a configuration being decided choice by  *)
(* choice; the complete ones are the scenarios.                            *)
(***************************************************************************)
EXTENDS Num, Integers, TLC
CONSTANT Sizes
VARIABLE cfg
Init == cfg = <<>>
Decide(v) == Len(cfg) < Len(Sizes) /\ v < Sizes[Len(cfg) + 1] /\ cfg' = Append(cfg, v)
Next == \E v \in 0..9 : Decide(v)
Complete == Len(cfg) < Len(Sizes) \/ Emit([scen |-> cfg])
Spec == Init /\ [][Next]_cfg
(* sizes used by the drivers *)
S_honest == <<3, 4, 4, 4, 5>>          \* method, source, weights, grid, M
S_pretrends == <<6, 4, 4, 3, 3>>       \* source, violation, question, alpha, target power
=============================================================================
