--------------------------- MODULE P05_Inference ----------------------------
(***************************************************************************)
(* The estimates of one analysis looked at under a history of significance *)
(* levels (see Significance): one statement per estimate, the same at      *)
(* every level except for the interval and the verdict.                    *)
(***************************************************************************)
EXTENDS ReportModel, Inference
Normal == {"cs.reg", "cs.reg.nyt", "cs.dr.cov", "cs.ipw", "cs.ipw.cov", "cs.reg.cov", "cs.ant", "cs.bal", "sa", "sa.cov", "sa.cluster", "sa.ant", "sdid.boot"}
Student == {"did", "did.cov", "did.hom", "did.cluster", "did.fe", "did.absorb", "twfe", "twfe.cov", "twfe.cluster", "mp", "mp.cov", "mp.cluster", "mp.fe", "mp.absorb", "td.reg", "td.ipw", "td.dr",
            "td.dr.nocov", "td.reg.hom", "trop", "trop.dim", "trop.joint", "trop.joint.nn", "placebo.timing", "placebo.group", "placebo.loo"}
Analytic(ev) == ev.run \in Normal \cup Student
OwnT(ev) == ev.run \notin {"did.wild", "twfe.wild", "placebo.perm"}         \* the t-statistic is estimate / standard error
Tiny == Nm("1e-9")
Solid(e) == IsFin(e.eff) /\ IsFin(e.se) /\ Lt(Tiny, e.se)
NoNumber(x) == IsNum(x) /\ ~IsFin(x)
Sane(e) == << CD("standard_error_not_negative", ~IsFin(e.se) \/ Le(Zero, e.se), e.k),
              CD("p_is_a_probability", ~IsFin(e.p) \/ (Le(Zero, e.p) /\ Le(e.p, One)), <<e.k, ShowN(e.p)>>),
              CD("interval_ordered", ~IsFin(e.lo) \/ ~IsFin(e.hi) \/ Le(e.lo, e.hi), <<e.k, ShowN(e.lo), ShowN(e.hi)>>),
              CD("no_inference_without_a_standard_error", (IsFin(e.eff) /\ IsFin(e.se)) \/ (NoNumber(e.t) /\ NoNumber(e.p) /\ NoNumber(e.lo) /\ NoNumber(e.hi)), <<e.k, ShowN(e.eff), ShowN(e.se), ShowN(e.t), ShowN(e.p), ShowN(e.lo)>>) >>
VerdictOf(e, alpha) ==
  << CD("significant_iff_p_below_the_level", e.sig = "-" \/ (e.sig = "True") = Below(e.p, IF e.at = "0.05" THEN Nm("0.05") ELSE alpha), <<e.k, e.sig, ShowN(e.p), ShowN(alpha)>>),
     CD("stars_of_p", e.stars = "-" \/ e.stars = Stars(e.p), <<e.k, e.stars, ShowN(e.p)>>) >>
Edge(e, alpha) == Le(Abs(e.p (-) alpha), Nm("1e-9"))
Statement(ev, e, alpha, df) ==
  When(OwnT(ev) /\ Solid(e), << EqTol("t_is_estimate_over_se", e.t, TStat(e.eff, e.se), "1e-6", "1e-9") >>)
  \o When(Analytic(ev) /\ Solid(e), Coherent("inference", e.eff, e.se, e.t, e.p, e.lo, e.hi, IF df = 0 THEN "null" ELSE Nm(df), alpha)
       \o << CD("p_below_the_level_iff_interval_excludes_zero", Edge(e, alpha) \/ Below(e.p, alpha) = Excludes(e.lo, e.hi), <<e.k, ShowN(e.p), ShowN(e.lo), ShowN(e.hi)>>) >>)
Dist(ev, i) == LET df == ev.dfs[i] IN
  IF df = -1 THEN <<>> ELSE
  << CD("one_reference_distribution", IF ev.run \in Normal THEN df = 0 ELSE IF ev.run \in Student THEN df > 0 /\ df < ev.n ELSE TRUE, <<ev.run, df, ev.n>>),
     CD("the_same_at_every_level", ev.run \notin Student \/ \A j \in 1..Len(ev.dfs) : ev.dfs[j] = -1 \/ ev.dfs[j] = df, <<ev.run, ev.dfs>>) >>
AlikeNum(x, y) == (IsFin(x) /\ IsFin(y) /\ Close(x, y, Nm("1e-9"), Nm("1e-12"))) \/ (~IsFin(x) /\ ~IsFin(y))
Levels(ev) ==
  ForEach(Len(ev.alphas), LAMBDA i : IF i = 1 THEN <<>> ELSE
    << CD("same_estimates_at_every_level", ev.raised[i] = ev.raised[1] /\ [k \in 1..Len(ev.shots[i]) |-> ev.shots[i][k].k] = [k \in 1..Len(ev.shots[1]) |-> ev.shots[1][k].k], <<ev.run, ev.raised>>) >>
    \o When(Len(ev.shots[i]) = Len(ev.shots[1]), ForEach(Len(ev.shots[1]), LAMBDA k :
         LET a == ev.shots[1][k] b == ev.shots[i][k]
             tol == Nm("1e-9") (.) (IF IsFin(a.hi) /\ IsFin(a.lo) THEN One (+) (Abs(a.hi) (+) Abs(a.lo)) ELSE One) IN
         << CD("level_leaves_estimate_se_t_p", AlikeNum(a.eff, b.eff) /\ AlikeNum(a.se, b.se) /\ AlikeNum(a.t, b.t) /\ AlikeNum(a.p, b.p), <<ev.run, a.k>>),
            CD("smaller_level_wider_interval", (IsFin(a.lo) /\ IsFin(a.hi)) = (IsFin(b.lo) /\ IsFin(b.hi))
                 /\ ((~IsFin(a.lo) \/ ~IsFin(a.hi)) \/ (IF Lt(ev.alphas[1], ev.alphas[i]) THEN Contains(a.lo, a.hi, b.lo, b.hi, tol) ELSE Contains(b.lo, b.hi, a.lo, a.hi, tol))), <<ev.run, a.k, ShowN(a.lo), ShowN(a.hi), ShowN(b.lo), ShowN(b.hi)>>) >>)))
Est(ev) == ForEach(Len(ev.alphas), LAMBDA i : Dist(ev, i) \o ForEach(Len(ev.shots[i]), LAMBDA k :
              LET e == ev.shots[i][k] IN Sane(e) \o VerdictOf(e, ev.alphas[i]) \o Statement(ev, e, ev.alphas[i], ev.dfs[i]))) \o Levels(ev)
(* robust intervals of sensitivity analyses *)
Honest(ev) == ForEach(Len(ev.alphas), LAMBDA i : ForEach(Len(ev.shots[i]), LAMBDA k :
    LET e == ev.shots[i][k] f == ev.shots[1][k] IN
    << CD("interval_contains_the_identified_set", ~IsFin(e.lo) \/ ~IsFin(e.lb) \/ (Le(e.lo, e.lb (+) Tiny) /\ Le(e.ub, e.hi (+) Tiny)), <<k, ShowN(e.lo), ShowN(e.lb)>>),
       CD("verdict_is_interval_excludes_zero", (e.sig = "True") = ((IsFin(e.lo) /\ Lt(Zero, e.lo)) \/ (IsFin(e.hi) /\ Lt(e.hi, Zero))) /\ e.stars = (IF e.sig = "True" THEN "*" ELSE ""), <<k, e.sig, ShowN(e.lo), ShowN(e.hi)>>),
       CD("widths", ~IsFin(e.lo) \/ ~IsFin(e.hi) \/ ~IsFin(e.lb) \/ (Close(e.width, e.ub (-) e.lb, Nm("1e-9"), Nm("1e-12")) /\ Close(e.ciwidth, e.hi (-) e.lo, Nm("1e-9"), Nm("1e-12"))), k),
       CD("level_leaves_the_identified_set", AlikeNum(e.lb, f.lb) /\ AlikeNum(e.ub, f.ub) /\ AlikeNum(e.eff, f.eff) /\ AlikeNum(e.se, f.se), k),
       CD("smaller_level_wider_interval", i = 1 \/ ~IsFin(e.lo) \/ ~IsFin(f.lo) \/ ~IsFin(e.hi) \/ ~IsFin(f.hi)
            \/ (IF Lt(ev.alphas[1], ev.alphas[i]) THEN Contains(f.lo, f.hi, e.lo, e.hi, Tiny) ELSE Contains(e.lo, e.hi, f.lo, f.hi, Tiny)), k) >>))
(* power of pre-trend tests: a stricter level has the larger critical value and detects less *)
Pre(ev) == ForEach(Len(ev.alphas), LAMBDA i : ForEach(Len(ev.shots[i]), LAMBDA k :
    LET e == ev.shots[i][k] f == ev.shots[1][k] stricter == Lt(ev.alphas[i], ev.alphas[1]) IN
    << CD("adequate_iff_power_reaches_the_target", (e.ok = "True") = (IsFin(e.power) /\ Le(e.target, e.power)), <<k, e.ok, ShowN(e.power), ShowN(e.target)>>),
       CD("informative_iff_mdv_below_twice_the_largest_se", (e.inf = "True") = ((IsFin(e.mdv) /\ Lt(e.mdv, Nm(2) (.) e.maxse))), <<k, e.inf, ShowN(e.mdv), ShowN(e.maxse)>>),
       CD("level_leaves_the_number_of_pre_periods", e.n = f.n, k),
       CD("stricter_level_larger_critical_value", i = 1 \/ ev.alphas[i] = ev.alphas[1] \/ stricter = Lt(f.crit, e.crit), <<k, ShowN(e.crit), ShowN(f.crit)>>),
       CD("stricter_level_detects_less", i = 1 \/ ~IsFin(e.mdv) \/ ~IsFin(f.mdv) \/ ev.alphas[i] = ev.alphas[1]
             \/ (IF stricter THEN Le(f.mdv, e.mdv (.) Nm("1.0001")) ELSE Le(e.mdv, f.mdv (.) Nm("1.0001"))), <<k, ShowN(e.mdv), ShowN(f.mdv)>>) >>))
Clauses(ev) == << CD("level_kept_with_the_result", \A i \in 1..Len(ev.alphas) : Lt(Zero, ev.alphas[i]), ev.run) >>
  \o (CASE ev.kind = "est" -> Est(ev) [] ev.kind = "honest" -> Honest(ev) [] OTHER -> Pre(ev))
=============================================================================
