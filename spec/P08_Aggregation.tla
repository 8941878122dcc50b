--------------------------- MODULE P08_Aggregation --------------------------
(***************************************************************************)
(* How group-time effects are combined, and the variance of a combination  *)
(* from the summed influence of each unit.                                 *)
(***************************************************************************)
EXTENDS StaggeredAgg

CheckOne(name, at, r, est, var, alpha) ==
  << EqAt(name, at, r.eff, est) >>
  \o (IF Lt(Nm("1e-16"), var) THEN << EqAt(name \o "_se", at, r.se, Sqrt(var)) >>
      ELSE << CD(name \o "_se_zero", ~IsFin(r.se) \/ Lt(r.se, Nm("1e-7")), <<at, ShowN(r.se)>>) >>)
  \o Coherent(name, r.eff, r.se, r.tst, r.p, r.lo, r.hi, "null", alpha)
  \o When(IsFin(r.se) /\ NumEq(r.se, Zero), << C(name \o "_undefined_without_spread", IsNaN(r.tst) /\ IsNaN(r.p)) >>)

OverallClauses(ev, m) ==
  LET k == Keepers(ev, m) r == ev.res.o
  IN IF k = <<>> THEN << C("overall_nan_without_post_periods", IsNaN(r.eff) /\ IsNaN(r.se) /\ IsNaN(r.tst) /\ IsNaN(r.p) /\ IsNaN(r.lo) /\ IsNaN(r.hi)), C("no_post_warning", ev.warnedpost) >>
     ELSE CheckOne("overall", "overall", r, CombAtt(k, WeightsByTreated(k)), OverallVar(ev, k), ev.alpha)

EventClauses(ev, m) ==
  LET ts == EventTimes(ev, m)
      ref == -1 - ev.a
      hasRef == ev.base = "universal" /\ ts # <<>> /\ ~(\E q \in 1..Len(ts) : ts[q] = ref)
      es == ev.res.es
      want == {ts[q] : q \in 1..Len(ts)} \cup (IF hasRef THEN {ref} ELSE {})
      at(e) == es[CHOOSE q \in 1..Len(es) : es[q].e = e]
  IN << CD("event_times", {es[q].e : q \in 1..Len(es)} = want /\ Len(es) = Cardinality(want), <<{es[q].e : q \in 1..Len(es)}, want>>) >>
     \o When({es[q].e : q \in 1..Len(es)} = want,
          ForEach(Len(ts), LAMBDA q :
            LET k == EventCells(ev, m, ts[q]) w == WeightsByTreated(k)
            IN << CD("event_n_groups", at(ts[q]).n = Len(k), <<ts[q], at(ts[q]).n>>) >>
               \o CheckOne("event", ts[q], at(ts[q]), CombAtt(k, w), CombVar(ev, k, w), ev.alpha))
          \o When(hasRef, LET r == at(ref) IN << C("universal_reference_normalised", NumEq(r.eff, Zero) /\ IsNaN(r.se) /\ IsNaN(r.tst) /\ IsNaN(r.p) /\ IsNaN(r.lo) /\ IsNaN(r.hi) /\ r.n = 0) >>))

GroupClauses(ev, m) ==
  LET gs == SelectSeq(Cohorts(ev), LAMBDA g : GroupCells(ev, m, g) # <<>>)
      gr == ev.res.grp
      at(g) == gr[CHOOSE q \in 1..Len(gr) : gr[q].g = g]
  IN << CD("groups_with_post_periods", [q \in 1..Len(gr) |-> gr[q].g] = gs, <<[q \in 1..Len(gr) |-> gr[q].g], gs>>) >>
     \o When([q \in 1..Len(gr) |-> gr[q].g] = gs, ForEach(Len(gs), LAMBDA q :
          LET k == GroupCells(ev, m, gs[q]) w == EqualWeights(k)
          IN << CD("group_n_periods", at(gs[q]).n = Len(k), <<gs[q], at(gs[q]).n>>) >>
             \o CheckOne("group", gs[q], at(gs[q]), CombAtt(k, w), CombVar(ev, k, w), ev.alpha)))

Clauses(ev) ==
  IF ev.raised # "" THEN << CD("raised_only_when_nothing_identified", ev.raised = "ValueError" /\ (Cells(ev) = <<>> \/ \A i \in Units(ev) : ev.coh[i] # 0), ev.msg) >>
  ELSE LET m == Model(ev)
       IN OverallClauses(ev, m)
          \o << C("event_study_iff_requested", ev.res.hases = (ev.agg \in {"event_study", "all"})),
                C("groups_iff_requested", ev.res.hasgrp = (ev.agg \in {"group", "all"})) >>
          \o When(ev.agg \in {"event_study", "all"} /\ ev.res.hases, EventClauses(ev, m))
          \o When(ev.agg \in {"group", "all"} /\ ev.res.hasgrp, GroupClauses(ev, m))
=============================================================================
