------------------------- MODULE PresentationModel --------------------------
(***************************************************************************)
(* What a data set is and what is merely how it is shown.  A data set is   *)
(* a set of observations; a shown table adds the order of its rows, an     *)
(* index, the order and names of its columns (and columns nobody asked     *)
(* for), the labels of units and periods and the storage types.  Analyses  *)
(* are functions of the data set, so every chain of changes of the         *)
(* presentation leaves their answers alone; only answers that depend on    *)
(* random draws may follow the order in which units appear.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
Steps == {"again", "rows", "index", "columns", "names", "units", "times", "types"}
(* the steps that may change which unit a random draw hits *)
MovesDraws == {"rows", "units", "times"}
Exact == {"again", "index", "columns", "names"}
Has(ch, S) == \E i \in 1..Len(ch) : ch[i] \in S
=============================================================================
