------------------------------ MODULE P31_Sample ----------------------------
(* Real analyses of a data set and of larger samples made of it; what the  *)
(* added units and periods are not about must not change.                  *)
EXTENDS SampleModel, TraceRun
Keys(s) == { s[i].k : i \in 1..Len(s) }
Get(s, k) == s[CHOOSE i \in 1..Len(s) : s[i].k = k]
RelT(ev) == IF ev.loose THEN "2e-4" ELSE "1e-6"
AbsT(ev, r) == IF r \in {"eff", "mid", "se"} THEN ev.tol ELSE IF ev.loose THEN Nm("1e-5") ELSE Nm("1e-8")
Agree(ev, r, got, want) == IsNum(got) /\ ((IsFin(got) /\ IsFin(want) /\ Close(got, want, Nm(RelT(ev)), AbsT(ev, r))) \/ (~IsFin(got) /\ ~IsFin(want)))
Name(ev) == IF Len(ev.chain) = 1 THEN ev.chain[1].s ELSE "chain"
OnlyCopies(ev) == \A i \in 1..Len(ev.chain) : ev.chain[i].s = "copy"
F(ev, j, k) == Nm(Curve[j]) (.) Sq(Get(ev.s[j], k).v)
CurveClauses(ev) ==
  LET ks == [i \in 1..Len(ev.s[3]) |-> ev.s[3][i]] IN
  << CD("answers_samples_of_any_size", ev.raised = "" => ev.raised2 = "", <<ev.run, ev.raised2>>) >>
  \o When(ev.raised = "" /\ ev.raised2 = "", ForEach(Len(ks), LAMBDA i :
       LET x == ks[i] IN
       When(x.k \in Keys(ev.s[1]) /\ x.k \in Keys(ev.s[2]),
         When(x.role = "count", << CD("counts_proportional_to_size", \A j \in 1..2 : NumEq(Get(ev.s[j], x.k).v (.) Nm(Curve[3]), x.v (.) Nm(Curve[j])), <<ev.run, x.k, ShowN(Get(ev.s[1], x.k).v), ShowN(x.v)>>) >>)
         \o When(x.role \in {"eff", "w", "r2", "mid"},
              << CD("answers_do_not_drift_with_size", \A j \in 1..2 : Agree(ev, x.role, Get(ev.s[j], x.k).v, x.v), <<ev.run, x.k, ShowN(Get(ev.s[1], x.k).v), ShowN(Get(ev.s[2], x.k).v), ShowN(x.v)>>) >>)
         \o When(x.role = "se" /\ IsFin(x.v) /\ Lt(ev.tol, x.v),
              << CD("variance_settles_as_the_sample_grows", IsFin(Get(ev.s[1], x.k).v) /\ IsFin(Get(ev.s[2], x.k).v) /\ OnLine(F(ev, 1, x.k), F(ev, 2, x.k), F(ev, 3, x.k), Nm("5e-4")),
                    <<ev.run, x.k, ShowN(Get(ev.s[1], x.k).v), ShowN(Get(ev.s[2], x.k).v), ShowN(x.v)>>) >>))))
GrowClauses(ev) ==
  LET m == Copies(ev.chain, 1) IN
  << CD("answers_the_larger_sample", ev.raised = "" => ev.raised2 = "", <<ev.run, ev.raised, ev.raised2>>) >>
  \o When(ev.raised = "" /\ ev.raised2 = "",
       << CD("nothing_lost_under_" \o Name(ev), \A i \in 1..Len(ev.a) : (ev.a[i].cell \/ OnlyCopies(ev)) => ev.a[i].k \in Keys(ev.b), <<ev.run, Keys(ev.a) \ Keys(ev.b)>>) >>
       \o ForEach(Len(ev.a), LAMBDA i :
            LET x == ev.a[i] IN
            When(x.k \in Keys(ev.b),
              LET y == Get(ev.b, x.k) IN
              When(x.role = "same" /\ VouchAll(ev.chain, x), << CD("labels_kept_under_" \o Name(ev), ToString(y.v) = ToString(x.v), <<ev.run, x.k, ToString(x.v), ToString(y.v)>>) >>)
              \o When(x.role = "count" /\ OnlyCopies(ev), << CD("counts_multiply_under_" \o Name(ev), NumEq(y.v, Nm(m) (.) x.v), <<ev.run, x.k, ShowN(x.v), ShowN(y.v)>>) >>)
              \o When(x.role \in {"eff", "w", "r2", "mid", "se"} /\ VouchAll(ev.chain, x),
                   << CD("answer_unchanged_under_" \o Name(ev), Agree(ev, x.role, y.v, x.v), <<ev.run, x.k, x.role, ShowN(x.v), ShowN(y.v)>>) >>)
              (* m times the data: the variance falls by m, up to corrections for small samples, which favour the larger sample *)
              \o When(x.role = "se" /\ OnlyCopies(ev) /\ IsFin(x.v) /\ Lt(ev.tol, x.v),
                   << CD("standard_error_shrinks_with_copies", IsFin(y.v) /\ Le(Nm(m) (.) Sq(y.v), (Sq(x.v) (.) Nm(ev.slack)) (+) Sq(ev.tol)) /\ Le(Sq(x.v) (.) Nm("0.2"), Nm(m) (.) Sq(y.v)),
                         <<ev.run, x.k, ShowN(x.v), ShowN(y.v), m>>) >>))))
Clauses(ev) == IF ev.kind = "curve" THEN CurveClauses(ev) ELSE GrowClauses(ev)
=============================================================================
