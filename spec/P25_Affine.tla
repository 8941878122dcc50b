----------------------------- MODULE P25_Affine -----------------------------
(* Real analyses of a data set and of the same data in other units and     *)
(* origins; the answers must be those AffineModel derives from the base's. *)
EXTENDS AffineModel, TraceRun
Keys(s) == { s[i].k : i \in 1..Len(s) }
Get(s, k) == s[CHOOSE i \in 1..Len(s) : s[i].k = k]
RelT(ev) == IF ev.loose THEN "2e-4" ELSE "1e-6"
Void(x) == x.role = "flag" \/ (x.role \in {"t", "p", "rank"} /\ (~IsFin(x.g) \/ Lt(x.g, Nm("1e-7"))))
(* numbers that move with the outcome are compared at its scale, the others absolutely *)
AbsT(ev, r) == IF r \in {"eff", "se", "ci"} THEN ev.tol ELSE IF r = "rank" THEN Nm("0.25") ELSE IF r = "flag" THEN Nm(2) ELSE IF r = "var" THEN ev.tol (.) ev.size ELSE IF ev.loose THEN Nm("1e-5") ELSE Nm("1e-8")
Matches(ev, r, got, want) == IsNum(got) /\ ((IsFin(got) /\ IsFin(want) /\ Close(got, want, Nm(RelT(ev)), AbsT(ev, r))) \/ (~IsFin(got) /\ ~IsFin(want) /\ ToString(got) = ToString(want)))
Last(ev) == ev.chain[Len(ev.chain)].s
Name(ev) == IF Len(ev.chain) = 1 THEN ev.chain[1].s ELSE "chain"
Clauses(ev) ==
  << CD("same_failure", ev.raised = ev.raised2, <<ev.run, ev.raised, ev.raised2>>) >>
  \o When(ev.raised = "" /\ ev.raised2 = "",
       << CD("same_outputs_under_" \o Name(ev), Keys(ev.a) = Keys(ev.b), <<ev.run, Keys(ev.a) \ Keys(ev.b), Keys(ev.b) \ Keys(ev.a)>>) >>
       \o ForEach(Len(ev.a), LAMBDA i :
            LET x == ev.a[i] IN
            When(x.k \in Keys(ev.b) /\ ~Void(x),
              IF x.role = "n" THEN << CD("labels_and_counts_under_" \o Name(ev), ToString(x.v) = ToString(Get(ev.b, x.k).v), <<ev.run, x.k, ToString(x.v), ToString(Get(ev.b, x.k).v)>>) >>
              ELSE LET want == ActAll(ev.chain, 1, Item(x)) got == Item(Get(ev.b, x.k)) IN
                   When(want.r # "?", << CD("answer_follows_" \o Name(ev), Matches(ev, x.role, got.v, want.v) /\ (x.role # "ci" \/ Matches(ev, x.role, got.w, want.w)),
                                            <<ev.run, x.k, x.role, "base", ToString(x.v), "want", ShowN(want.v), ShowN(want.w), "got", ShowN(got.v), ShowN(got.w)>>) >>))))
=============================================================================
