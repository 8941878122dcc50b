---------------------------- MODULE FigureModel -----------------------------
(***************************************************************************)
(* What a figure shows.  A request draws one layer, computed from the      *)
(* result and the options alone, either on a new figure or on axes that    *)
(* already carry other layers, which it leaves as they were.               *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC
Kinds == {"es", "group", "sens", "honest", "scatter", "bar", "power", "pre"}
(* figs: the axes, each the sequence of the requests drawn on it; place 0: a new figure *)
Drawn(figs, place, i) == IF place = 0 THEN Append(figs, <<i>>) ELSE [figs EXCEPT ![place] = Append(@, i)]
(* the axes a request answers with *)
Answer(figs, place) == IF place = 0 THEN Len(figs) + 1 ELSE place
(* a bar chart has categories on its axis, so it shares axes with no other chart *)
CanShare(kinds, figs, place, k) == IF place = 0 THEN TRUE ELSE k # "bar" /\ (\A j \in 1..Len(figs[place]) : kinds[figs[place][j]] # "bar")

---------------------------------------------------------------------------
(* event-study charts: rows [p, k, e, s, n], k orders the periods *)
RowAt(rows, p) == rows[CHOOSE i \in 1..Len(rows) : rows[i].p = p]
InRows(rows, p) == \E i \in 1..Len(rows) : rows[i].p = p
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x
(* the reference of an aggregated event study that names none: the period no cohort identifies, else the one before treatment *)
Implied(rows) == LET z == { i \in 1..Len(rows) : rows[i].n = 0 } IN IF z = {} THEN "-1" ELSE rows[CHOOSE i \in z : \A j \in z : i =< j].p
(* measured against a reference the user names (and that has an effect): it is the zero point and has no uncertainty *)
Shift(rows, ref) == IF InRows(rows, ref) /\ IsFin(RowAt(rows, ref).e) THEN RowAt(rows, ref).e ELSE Zero
Normalised(rows, ref) == InRows(rows, ref) /\ IsFin(RowAt(rows, ref).e)
Shown(rows, order) == SelectSeq(order, LAMBDA p : InRows(rows, p) /\ ~IsNaN(RowAt(rows, p).e))
(* the value of a curve through the points (x, y), in any order, between them *)
Between(xs, v) == (\E i \in 1..Len(xs) : Le(xs[i], v)) /\ (\E i \in 1..Len(xs) : Le(v, xs[i]))
OnCurve(xs, ys, v) ==
  LET at == { i \in 1..Len(xs) : NumEq(xs[i], v) }
      lo == { i \in 1..Len(xs) : Le(xs[i], v) }
      hi == { i \in 1..Len(xs) : Le(v, xs[i]) }
      a == CHOOSE i \in lo : \A j \in lo : Le(xs[j], xs[i])
      b == CHOOSE i \in hi : \A j \in hi : Le(xs[i], xs[j])
  IN IF at # {} THEN ys[CHOOSE i \in at : TRUE] ELSE ys[a] (+) (((v (-) xs[a]) (/) (xs[b] (-) xs[a])) (.) (ys[b] (-) ys[a]))
=============================================================================
