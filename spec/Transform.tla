------------------------------ MODULE Transform -----------------------------
(***************************************************************************)
(* Every chain of such operations on a small unbalanced panel: columns     *)
(* written have no group means left, columns not named stay, repeating an  *)
(* operation changes nothing, and taking out unit and period effects       *)
(* forgets whatever group means were taken out before.                     *)
(***************************************************************************)
EXTENDS TransformModel, TLC
CONSTANTS MaxLen
VARIABLES chain
Keys == [unit |-> <<1, 1, 1, 2, 2, 3, 3, 3>>, time |-> <<1, 2, 3, 1, 2, 2, 3, 1>>, region |-> <<1, 1, 1, 2, 2, 1, 1, 1>>]
Y0 == [i \in 1..8 |-> Nm(<<3, 1, -4, 7, 0, 2, 9, -5>>[i])]
X0 == [i \in 1..8 |-> Nm(<<1, 0, 0, 2, 5, -1, 3, 3>>[i])]
Env0 == [n |-> <<"y", "x">>, v |-> <<Y0, X0>>]
Ops == [op : {"group"}, by : {"unit", "time", "region"}, vars : {<<"y">>, <<"y", "x">>}, inplace : BOOLEAN, suffix : {"", "_dm"}]
       \cup [op : {"within"}, by : {"unit"}, vars : {<<"y">>, <<"y", "x">>}, inplace : BOOLEAN, suffix : {"", "_dm"}]
Init == chain = <<>>
Next == Len(chain) < MaxLen /\ \E o \in Ops : chain' = Append(chain, o)
Spec == Init /\ [][Next]_chain
Before == Fold(Keys, SubSeq(chain, 1, Len(chain) - 1), Env0, 1)
Laws == chain = <<>> \/
  LET o == chain[Len(chain)] b == Before a == Step(Keys, o, b) tg == { Target(o, o.vars[i]) : i \in 1..Len(o.vars) } IN
  /\ \A c \in tg : IF o.op = "within" THEN NetOf(ColOf(a, c), Keys.unit) /\ NetOf(ColOf(a, c), Keys.time) ELSE NetOf(ColOf(a, c), Keys[o.by])
  /\ \A c \in NameSet(b) \ tg : SameCol(ColOf(a, c), ColOf(b, c))
  /\ NameSet(a) = NameSet(b) \cup tg
  /\ \A c \in tg : SameCol(Net(Keys, o, ColOf(a, c)), ColOf(a, c))
  /\ o.op = "within" => SameCol(ColOf(a, Target(o, "y")), Net(Keys, o, Y0))
GEmit == chain = <<>> \/ Emit([scen |-> [chain |-> chain]])
=============================================================================
