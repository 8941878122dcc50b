--------------------------- MODULE TransformModel ---------------------------
(***************************************************************************)
(* Columns of a table taken net of the means of one factor ("group") or of *)
(* unit and period effects ("within").  A table is a sequence of column    *)
(* names n and their values v; keys names the factors.  An operation       *)
(* writes over the named columns or beside them (name plus suffix), in the *)
(* table it is given or in a copy.                                         *)
(***************************************************************************)
EXTENDS Num, Integers
MeanAcross(x, g, i) == LET m == {j \in 1..Len(g) : g[j] = g[i]} IN MeanOver(m, LAMBDA j : x[j])
NetOfGroup(x, g) == Force([i \in 1..Len(x) |-> x[i] (-) MeanAcross(x, g, i)])
LevelCols(v) == LET lv == SortedInts({v[i] : i \in 1..Len(v)}) IN [k \in 1..Len(lv) |-> [i \in 1..Len(v) |-> IF v[i] = lv[k] THEN One ELSE Zero]]
(* what is left of x after least squares on unit and period indicators *)
NetOfBoth(x, unit, time) ==
  LET D == Transp(LevelCols(unit) \o LevelCols(time))
      pc == PivotCols(D)
      A == Force([i \in 1..Len(x) |-> [k \in 1..Len(pc) |-> D[i][pc[k]]]])
      f == Force(MatVec(A, SolveQ(Gram(A), MatVec(Transp(A), x))))
  IN Force([i \in 1..Len(x) |-> x[i] (-) f[i]])
NameSet(env) == { env.n[i] : i \in 1..Len(env.n) }
ColOf(env, c) == env.v[CHOOSE i \in 1..Len(env.n) : env.n[i] = c]
Put(env, c, x) == IF c \in NameSet(env) THEN [env EXCEPT !.v = [i \in 1..Len(env.n) |-> IF env.n[i] = c THEN x ELSE env.v[i]]]
                  ELSE [n |-> Append(env.n, c), v |-> Append(env.v, x)]
Target(op, c) == IF op.op = "within" /\ op.inplace THEN c ELSE c \o op.suffix
Net(keys, op, x) == IF op.op = "within" THEN NetOfBoth(x, keys.unit, keys.time) ELSE NetOfGroup(x, keys[op.by])
RECURSIVE PutAll(_, _, _, _, _)
PutAll(keys, op, env, acc, i) == IF i > Len(op.vars) THEN acc
  ELSE PutAll(keys, op, env, Put(acc, Target(op, op.vars[i]), Net(keys, op, ColOf(env, op.vars[i]))), i + 1)
Step(keys, op, env) == PutAll(keys, op, env, env, 1)
RECURSIVE Fold(_, _, _, _)
Fold(keys, ops, env, i) == IF i > Len(ops) THEN env ELSE Fold(keys, ops, Step(keys, ops[i], env), i + 1)
(* what the caller's own table holds afterwards *)
Callers(op, before, after) == IF op.inplace THEN after ELSE before
NetOf(x, g) == \A i \in 1..Len(x) : Close(MeanAcross(x, g, i), Zero, Zero, Nm("1e-30"))
SameCol(a, b) == \A i \in 1..Len(a) : Close(a[i], b[i], Nm("1e-30"), Nm("1e-30"))
=============================================================================
