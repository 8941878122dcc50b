----------------------------- MODULE P18_Placebo -----------------------------
(***************************************************************************)
(* Placebo diagnostics: a difference-in-differences on data where no       *)
(* effect can exist, a permutation test and a leave-one-out test.          *)
(***************************************************************************)
EXTENDS Designs, Sampling

N(ev) == Len(ev.y)
Periods(ev) == SortedInts({ev.per[i] : i \in 1..N(ev)})
Posts(ev) == IF ev.posts # <<>> THEN {ev.posts[k] : k \in 1..Len(ev.posts)}
             ELSE LET p == Periods(ev) IN {p[k] : k \in ((Len(p) \div 2) + 1)..Len(p)}
Units(ev) == {ev.unit[i] : i \in 1..N(ev)}
Rows(ev, Keep(_)) == SelectSeq([i \in 1..N(ev) |-> i], Keep)
Flag(b) == IF b THEN One ELSE Zero
Varies(ix, P(_)) == (\E k \in 1..Len(ix) : P(ix[k])) /\ (\E k \in 1..Len(ix) : ~P(ix[k]))

(* the 2x2 fit on rows ix: treated D(i), post P(i) *)
Fit(ev, ix, D(_), P(_), vkind) ==
  LET d == [k \in 1..Len(ix) |-> Flag(D(ix[k]))]
      t == [k \in 1..Len(ix) |-> Flag(P(ix[k]))]
  IN FocalFit(<<Ones(Len(ix)), d, t, ColMul(d, t)>>, [k \in 1..Len(ix) |-> ev.y[ix[k]]], vkind, IF vkind = "cluster" THEN [k \in 1..Len(ix) |-> ev.g[ix[k]]] ELSE <<>>)
(* a fit is possible when both indicators vary and a degree of freedom is left *)
CanFit(ix, D(_), P(_)) == Len(ix) > 4 /\ Varies(ix, D) /\ Varies(ix, P)

FitClauses(ev, name, ix, D(_), P(_)) ==
  LET F == Force(Fit(ev, ix, D, P, ev.vkind))
      r == ev.res
  IN << C(name \o ".n_obs", r.nobs = Len(ix)) >>
     \o IF F.identified
        THEN << Eq(name \o ".effect", r.effect, F.coef) >> \o When(Lt(Nm("1e-16"), F.var), << Eq(name \o ".se", r.se, Sqrt(F.var)) >>)
             \o Coherent(name, r.effect, r.se, r.t, r.p, r.lo, r.hi, Nm(Len(ix) - F.rank), ev.alpha)
        (* which of the collinear columns is dropped (with a warning) is not settled here *)
        ELSE << C(name \o ".inestimable_without_se", IsNaN(r.effect) => IsNaN(r.se) /\ IsNaN(r.p)) >>
OrigClauses(ev, name, ix, D(_), P(_)) ==
  LET F == Force(Fit(ev, ix, D, P, ev.vkind))
  IN IF F.identified THEN << Eq(name \o ".original", ev.res.orig, F.coef) >> \o When(Lt(Nm("1e-16"), F.var), << Eq(name \o ".original_se", ev.res.origse, Sqrt(F.var)) >>)
     ELSE <<>>
Sig(ev) == << C("significant_iff_p_below_alpha", ev.res.sig = (IsFin(ev.res.p) /\ Lt(ev.res.p, ev.alpha))), C("alpha_echoed", NumEq(ev.res.alpha, ev.alpha)) >>

Treated(ev, i) == NumEq(ev.d[i], One)

TimingClauses(ev) ==
  LET pre == Rows(ev, LAMBDA i : ev.per[i] \notin Posts(ev))
      all == Rows(ev, LAMBDA i : TRUE)
      D(i) == Treated(ev, i)
      FakePost(i) == ev.per[i] >= ev.fake
      RealPost(i) == ev.per[i] \in Posts(ev)
  IN IF ev.fake \in Posts(ev) THEN << CD("fake_period_after_treatment_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF ~Varies(pre, D) \/ ~Varies(pre, FakePost) \/ ~Varies(all, D) \/ ~Varies(all, RealPost) THEN << CD("no_contrast_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF ~CanFit(pre, D, FakePost) \/ ~CanFit(all, D, RealPost) THEN << C("saturated_design", TRUE) >>
     ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
     ELSE FitClauses(ev, "timing", pre, D, FakePost) \o OrigClauses(ev, "timing", all, D, RealPost) \o Sig(ev)
          \o << C("fake_period_echoed", ev.res.fakeperiod) >>

GroupClauses(ev) ==
  LET all == Rows(ev, LAMBDA i : TRUE)
      Fake == {ev.fakeunits[k] : k \in 1..Len(ev.fakeunits)}
      D(i) == ev.unit[i] \in Fake
      RealPost(i) == ev.per[i] \in Posts(ev)
  IN IF ev.fakeunits = <<>> THEN << CD("empty_fake_group_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF ~Varies(all, D) \/ ~Varies(all, RealPost) THEN << CD("no_contrast_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF ~CanFit(all, D, RealPost) THEN << C("saturated_design", TRUE) >>
     ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
     ELSE FitClauses(ev, "group", all, D, RealPost) \o Sig(ev) \o << C("fake_group_echoed", ev.res.fakegroup) >>

(* --- permutation: every assignment of as many units as are treated --- *)
IsPost(ev, i) == NumEq(ev.post[i], One)
TreatedUnits(ev) == {ev.unit[i] : i \in {j \in 1..N(ev) : Treated(ev, j)}}
Assignments(ev) == {S \in SUBSET Units(ev) : Cardinality(S) = Cardinality(TreatedUnits(ev))}
EffectOf(ev, S) ==
  LET all == [i \in 1..N(ev) |-> i]
      D(i) == ev.unit[i] \in S
      P(i) == IsPost(ev, i)
  IN IF ~CanFit(all, D, P) THEN Nm("nan") ELSE LET F == Fit(ev, all, D, P, "none") IN IF F.identified THEN F.coef ELSE Nm("nan")
Tie == Nm("1e-9")
PermClauses(ev) ==
  LET all == [i \in 1..N(ev) |-> i]
      D(i) == Treated(ev, i)
      P(i) == IsPost(ev, i)
  IN IF ~Varies(all, D) \/ ~Varies(all, P) THEN << CD("no_contrast_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF ~CanFit(all, D, P) THEN << C("saturated_design", TRUE) >>
     ELSE
     LET as == SeqOfSet(Assignments(ev))
         vals == Force([k \in 1..Len(as) |-> EffectOf(ev, as[k])])
         good == SelectSeq(vals, LAMBDA v : IsFin(v))
         r == ev.res
     IN IF good = <<>> THEN << CD("no_valid_permutation_raises", ev.raised = "RuntimeError", ev.raised) >>
        ELSE IF ev.raised = "RuntimeError" THEN << C("raises_only_when_all_can_fail", Len(good) < Len(vals) /\ ev.b =< 3) >>
        ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
        ELSE
        LET dr == ev.res.draws m == Len(dr)
            orig == EffectOf(ev, TreatedUnits(ev))
            a == Abs(orig)
            (* exchanging the groups gives the same effect with the other sign, and counts *)
            geLo == CountIf(dr, LAMBDA v : Le(a (-) Nm("1e-12"), Abs(v)))
            geHi == CountIf(dr, LAMBDA v : Le(a (-) Nm("1e-7"), Abs(v)))
            floor == One (/) Nm(m + 1)
            mx(x, y) == IF Lt(x, y) THEN y ELSE x
            sd == IF m > 1 THEN SqrtPos(VarQ(dr, 1)) ELSE Nm("nan")
            near(v, w) == Close(v, w, Nm("1e-9"), Nm("1e-9"))
        IN << C("draws_counted", r.nperm = m /\ m =< ev.b /\ (Len(good) = Len(vals) => m = ev.b)),
              C("failures_warned", ev.warned = Lt(Nm("0.1"), Nm(ev.b - m) (/) Nm(ev.b))),
              C("same_seed_same_result", ev.again), C("n_obs", r.nobs = N(ev)) >>
           \o When(Len(good) = Len(vals), ForEach(m, LAMBDA k : << CD("draw_is_an_assignment_effect", \E j \in 1..Len(good) : near(good[j], dr[k]), <<k, ShowN(dr[k])>>) >>))
           (* every assignment is as likely as any other *)
           \o When(Len(good) = Len(vals) /\ m >= 10 * Len(vals), ForEach(Len(vals), LAMBDA j :
                LET q == Nm(CountIf(vals, LAMBDA v : near(v, vals[j]))) (/) Nm(Len(vals))
                    c == Nm(CountIf(dr, LAMBDA v : near(v, vals[j])))
                    e == Nm(m) (.) q
                IN << CD("assignments_equally_likely", Le(Sq(c (-) e), Nm(36) (.) (e (.) (One (-) q)) (+) Nm("1e-9")), <<ShowN(c), ShowN(e)>>) >>))
           \o OrigClauses(ev, "perm", all, D, P)
           \o IF IsFin(orig)
              THEN << CD("perm_p_is_share_at_least_as_extreme", Le(mx(Nm(geLo) (/) Nm(m), floor) (-) Tie, r.p) /\ Le(r.p, mx(Nm(geHi) (/) Nm(m), floor) (+) Tie), <<ShowN(r.p), geLo, geHi, m>>) >>
                   \o When(IsFin(sd) /\ Lt(Nm("1e-9"), sd), << Eq("perm_t", r.t, orig (/) sd) >>)
              ELSE << CD("perm_p_undefined_without_an_effect", IsNaN(r.orig) => IsNaN(r.p), ShowN(r.p)) >>
           \o << Eq("perm_effect_is_mean_of_draws", r.effect, MeanQ(dr)) >>
           \o When(IsFin(sd), << Eq("perm_se_is_sd_of_draws", r.se, sd) >>)
           \o << Eq("perm_ci_lo", r.lo, Quantile(dr, ev.alpha (/) Nm(2))), Eq("perm_ci_hi", r.hi, Quantile(dr, One (-) (ev.alpha (/) Nm(2)))) >>
           \o Sig(ev)

(* --- leave one treated unit out --- *)
WithoutClauses(ev) ==
  LET all == [i \in 1..N(ev) |-> i]
      D(i) == Treated(ev, i)
      P(i) == IsPost(ev, i)
      r == ev.res
      tu == SortedInts(TreatedUnits(ev))
      Eff(u) == LET ix == Rows(ev, LAMBDA i : ev.unit[i] # u)
                IN IF ~CanFit(ix, D, P) THEN Nm("nan") ELSE LET F == Fit(ev, ix, D, P, "none") IN IF F.identified THEN F.coef ELSE Nm("nan")
  IN IF ~Varies(all, D) \/ ~Varies(all, P) THEN << CD("no_contrast_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF ~CanFit(all, D, P) THEN << C("saturated_design", TRUE) >>
     ELSE
     LET used == IF Len(tu) = 1 THEN <<>> ELSE tu
         effs == Force([k \in 1..Len(used) |-> Eff(used[k])])
         good == SelectSeq(effs, LAMBDA v : IsFin(v))
         tight == \E u \in TreatedUnits(ev) : Len(Rows(ev, LAMBDA i : ev.unit[i] # u)) =< 4
     IN IF tight THEN << C("saturated_design", TRUE) >>
        ELSE IF good = <<>> THEN << CD("no_valid_omission_raises", ev.raised = "RuntimeError", ev.raised) >>
        ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
        ELSE << CD("each_treated_unit_omitted_once", r.lo_units = used, r.lo_units), C("n_obs", r.nobs = N(ev)), C("failures_warned", ev.warned = (Len(good) < Len(effs))) >>
             \o When(Len(r.lo_units) = Len(used), ForEach(Len(used), LAMBDA k : << EqAt("effect_without_unit", used[k], r.lo_effects[k], effs[k]) >>))
             \o OrigClauses(ev, "loo", all, D, P)
             \o << Eq("loo_mean", r.effect, MeanQ(good)) >>
             \o When(Len(good) > 1, LET sd == SqrtPos(VarQ(good, 1)) IN
                  << Eq("loo_sd", r.se, sd) >> \o Coherent("loo", r.effect, r.se, r.t, r.p, r.lo, r.hi, Nm(Len(good) - 1), ev.alpha))
             \o Sig(ev)

AllClauses(ev) ==
  << CD("every_test_reported_once", ev.keys = ev.want, <<ev.keys, ev.want>>) >>
  \o ForEach(Len(ev.entries), LAMBDA k :
       << CD("entry_is_the_single_test", ev.entries[k].same, ev.entries[k].key), CD("entry_keeps_the_error", ev.entries[k].direct = ev.entries[k].error, ev.entries[k].key) >>)

Clauses(ev) ==
  CASE ev.kind = "timing" -> TimingClauses(ev)
    [] ev.kind = "group" -> GroupClauses(ev)
    [] ev.kind = "perm" -> PermClauses(ev)
    [] ev.kind = "loo" -> WithoutClauses(ev)
    [] ev.kind = "all" -> AllClauses(ev)
    [] ev.kind = "args" -> << CD("bad_request_rejected", ev.raised = "ValueError", <<ev.what, ev.raised>>) >>
=============================================================================
