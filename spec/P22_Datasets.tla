---------------------------- MODULE P22_Datasets ----------------------------
(***************************************************************************)
(* Histories of the real dataset loaders are checked step by step against  *)
(* the cache state machine; loaded tables against the documented columns.  *)
(***************************************************************************)
EXTENDS DatasetModel, Sampling, TraceRun

Names == {"card_krueger", "castle_doctrine", "divorce_laws", "mpdta"}
Start == [server |-> [d \in Names |-> 1], cache |-> [d \in Names |-> NoCopy]]
Step(st, a) == [server |-> ServerAfter(st.server, a), cache |-> CacheAfter(st.server, st.cache, a)]
StateAt(ev) == LET S[k \in 0..Len(ev.acts)] == IF k = 0 THEN Start ELSE Step(S[k - 1], ev.acts[k]) IN S

HistoryClauses(ev) ==
  LET S == StateAt(ev) IN
  ForEach(Len(ev.acts), LAMBDA k :
    LET a == ev.acts[k] st == S[k - 1]
        kind == IF a.op # "load" THEN a.op ELSE IF ~Fetches(st.cache, a) THEN "from_cache" ELSE IF a.net # "ok" THEN "download_fails" ELSE IF a.disk = "ok" THEN "download" ELSE "download_write_" \o a.disk
    IN << CD("answer_" \o kind, a.ans \in Answers(st.server, st.cache, a), <<k, a, a.ans, Answers(st.server, st.cache, a)>>) >>
       \o When(a.op = "load" /\ a.disk # "crash",
               << CD("network_only_when_needed", a.opens = 0 <=> ~Fetches(st.cache, a), <<k, a.opens>>),
                  CD("download_has_a_time_limit", a.timed, k) >>))
  \o << C("global_random_state_untouched", ev.rngkept) >>

B(b) == IF b THEN One ELSE Zero
Ix(s) == 1..Len(s)
Has(m, k) == k \in DOMAIN m
(* first year with the law, 0 without *)
FirstYear(raw, i) ==
  LET ys == {raw.year[j] : j \in {j \in Ix(raw.year) : raw.state[j] = raw.state[i] /\ NumEq(raw.unilateral[j], One)}}
  IN IF ys = {} THEN 0 ELSE CHOOSE y \in ys : \A z \in ys : y =< z
InForce(ft, y) == IF ft > 0 /\ y >= ft THEN 1 ELSE 0
AllEq(name, n, got, want(_)) == << C(name, Len(got) = n /\ \A i \in 1..n : LET w == want(i) IN IF IsNum(w) THEN IsNum(got[i]) /\ SameNum(got[i], w) ELSE ~IsNum(got[i]) /\ got[i] = w) >>

RecodeClauses(ev) ==
  LET raw == ev.raw out == ev.out n == ev.n
      given(k) == IF Has(raw, k) THEN AllEq("given_column_kept", n, out[k], LAMBDA i : raw[k][i]) ELSE <<>>
  IN << C("cached_copy_gives_the_same_table", ev.same), C("named_loader_is_the_same", ev.named), C("no_other_columns_changed", ev.restkept) >>
     \o CASE ev.ds = "card_krueger" ->
               AllEq("store_id", n, out.store_id, LAMBDA i : raw.sheet[i])
               \o (IF Has(raw, "state") THEN given("state") ELSE AllEq("state_from_nj", n, out.state, LAMBDA i : IF NumEq(raw.nj[i], One) THEN "NJ" ELSE "PA"))
               \o (IF Has(raw, "treated") THEN given("treated") ELSE AllEq("treated_is_new_jersey", n, out.treated, LAMBDA i : B(out.state[i] = "NJ")))
               \o (IF Has(raw, "emp_change") THEN given("emp_change") ELSE AllEq("employment_change", n, out.emp_change, LAMBDA i : raw.emp_post[i] (-) raw.emp_pre[i]))
          [] ev.ds = "castle_doctrine" ->
               When(Has(raw, "sid"), AllEq("state_id", n, out.state_id, LAMBDA i : raw.sid[i]))
               \o (IF Has(raw, "first_treat") THEN given("first_treat") ELSE AllEq("first_treat_is_effective_year", n, out.first_treat, LAMBDA i : IF IsNaN(raw.effyear[i]) THEN Zero ELSE raw.effyear[i]))
               \o AllEq("cohort", n, out.cohort, LAMBDA i : out.first_treat[i])
               \o (IF Has(raw, "cdl") THEN AllEq("treated_is_cdl", n, out.treated, LAMBDA i : raw.cdl[i])
                   ELSE AllEq("treated_from_adoption", n, out.treated, LAMBDA i : B(Lt(Zero, out.first_treat[i]) /\ Le(out.first_treat[i], Nm(raw.year[i])))))
          [] ev.ds = "divorce_laws" ->
               When(Has(raw, "stfips"), AllEq("state_id", n, out.state_id, LAMBDA i : raw.stfips[i]))
               \o (IF Has(raw, "first_treat") THEN given("first_treat") ELSE AllEq("first_treat_is_first_year_in_force", n, out.first_treat, LAMBDA i : Nm(FirstYear(raw, i))))
               \o AllEq("cohort", n, out.cohort, LAMBDA i : out.first_treat[i])
               \o (IF Has(raw, "unilateral") THEN AllEq("treated_is_unilateral", n, out.treated, LAMBDA i : raw.unilateral[i])
                   ELSE AllEq("treated_from_adoption", n, out.treated, LAMBDA i : B(Lt(Zero, out.first_treat[i]) /\ Le(out.first_treat[i], Nm(raw.year[i])))))
          [] ev.ds = "mpdta" ->
               AllEq("first_treat", n, out.first_treat, LAMBDA i : IF Has(raw, "first_treat") THEN raw.first_treat[i] ELSE raw["first.treat"][i])
               \o AllEq("cohort", n, out.cohort, LAMBDA i : out.first_treat[i])

(* panels: balanced, adoption fixed within unit, treatment from adoption on *)
PanelClauses(ev) ==
  LET n == Len(ev.unit)
      us == {ev.unit[i] : i \in 1..n} ys == {ev.year[i] : i \in 1..n}
      prs == {<<ev.unit[i], ev.year[i]>> : i \in 1..n}
      fts == {<<ev.unit[i], ev.ft[i]>> : i \in 1..n}
  IN << C("one_row_per_unit_and_year", Cardinality(prs) = n /\ n = Cardinality(us) * Cardinality(ys)),
        C("adoption_fixed_within_unit", Cardinality(fts) = Cardinality(us)),
        C("cohort_is_adoption", ev.cohort = ev.ft),
        C("has_never_treated_and_treated", {ev.ft[i] : i \in 1..n} \cap {0} # {} /\ \E i \in 1..n : ev.ft[i] > 0),
        CD("years", ys = ev.first..ev.last_, <<ev.first, ev.last_>>) >>
     \o When(ev.ds # "mpdta", << C("treated_from_adoption_on", \A i \in 1..n : ev.treated[i] = InForce(ev.ft[i], ev.year[i])) >>)
     \o When(ev.ds = "mpdta", << C("treat_marks_ever_treated", \A i \in 1..n : ev.treated[i] = IF ev.ft[i] > 0 THEN 1 ELSE 0), C("five_hundred_counties", Cardinality(us) = 500) >>)
BuiltinClauses(ev) ==
  << C("documented_columns", ev.columns), C("built_in_data_are_fixed", ev.fixed), C("global_random_state_untouched", ev.rngkept) >>
  \o IF ev.ds = "card_krueger"
     THEN << C("one_row_per_store", Cardinality({ev.unit[i] : i \in Ix(ev.unit)}) = Len(ev.unit)),
             C("treated_is_new_jersey", \A i \in Ix(ev.unit) : ev.treated[i] = IF ev.state[i] = "NJ" THEN 1 ELSE 0),
             C("employment_change", \A i \in Ix(ev.unit) : SameNum(ev.change[i], ev.post[i] (-) ev.pre[i])) >>
     ELSE PanelClauses(ev)

Clauses(ev) ==
  CASE ev.kind = "history" -> HistoryClauses(ev)
    [] ev.kind = "names" -> << C("every_listed_dataset_loads", ev.listed = ev.known), C("unknown_name_rejected", ev.unknown = "ValueError") >>
    [] ev.raised # "" -> << CD("no_exception", FALSE, <<ev.ds, ev.msg>>) >>
    [] ev.kind = "recode" -> RecodeClauses(ev)
    [] ev.kind = "builtin" -> BuiltinClauses(ev)
=============================================================================
