---------------------------- MODULE P15_HonestDiD ----------------------------
(***************************************************************************)
(* Robust bounds, intervals and breakdown values.                          *)
(***************************************************************************)
EXTENDS HonestDiD

(* the robust result r for restriction parameter M *)
Bounds(name, ev, st, l, M, r) ==
  LET f == Factor(st, l, ev.method)
      se == SqrtPos(Var(st, l))
      z == NormPpf(One (-) (ev.alpha (/) Nm(2)))
      lb == Minus(Theta(st, l), Slack(f, M))
      ub == Plus(Theta(st, l), Slack(f, M))
  IN << EqAt(name \o "_lb", <<ev.method, ShowN(M)>>, r.lb, lb), EqAt(name \o "_ub", <<ev.method, ShowN(M)>>, r.ub, ub),
        EqAt(name \o "_ci_lb", <<ev.method, ShowN(M)>>, r.cilb, IF IsFin(lb) THEN lb (-) (z (.) se) ELSE lb),
        EqAt(name \o "_ci_ub", <<ev.method, ShowN(M)>>, r.ciub, IF IsFin(ub) THEN ub (+) (z (.) se) ELSE ub) >>

Excludes(r) == Lt(Zero, r.cilb) \/ Lt(r.ciub, Zero)

FitClauses(ev) ==
  LET st == Force(Study(ev.src)) l == Weights(st, ev.lvec) r == ev.res
  IN << Eq("original_estimate", r.est, Theta(st, l)), Eq("original_se", r.se, SqrtPos(Var(st, l))) >>
     \o Bounds("fit", ev, st, l, ev.M, r)
     \o << C("significant_iff_interval_excludes_zero", r.sig = Excludes(r)), C("star_iff_significant", r.star = r.sig),
           C("parameters_reported", NumEq(r.M, ev.M) /\ r.method = ev.method /\ NumEq(r.alpha, ev.alpha)),
           C("shorthand_agrees", r.short) >>
     \o When(IsFin(r.lb), << Eq("set_width", r.width, r.ub (-) r.lb), Eq("ci_width", r.ciwidth, r.ciub (-) r.cilb) >>)
     \o << C("interval_contains_set", r.cilb \preceq r.lb /\ r.ub \preceq r.ciub), C("set_contains_estimate_near", ~IsFin(r.lb) \/ (Le(r.lb, r.est (+) Nm("1e-9")) /\ Le(r.est (-) Nm("1e-9"), r.ub))) >>

(* a bisection result: within the given distance of the exact value, from a bracket that does not pass over it *)
SensClauses(ev) ==
  LET st == Force(Study(ev.src)) l == Weights(st, ev.lvec)
      s == ev.sens
      n == Len(ev.grid)
      top == MaxQ(ev.grid)
      b == Breakdown(st, l, ev.method, ev.alpha)
      clear(x) == Lt(Nm("1e-6"), Abs(b (-) x)) \/ NumEq(b, Zero)
  IN << C("one_row_per_M", Len(s.rows) = n), Eq("sens_estimate", s.est, Theta(st, l)), Eq("sens_se", s.se, SqrtPos(Var(st, l))) >>
     \o When(Len(s.rows) = n,
          ForEach(n, LAMBDA i : Bounds("sens", ev, st, l, ev.grid[i], s.rows[i])
             \o << C("row_M", NumEq(s.rows[i].M, ev.grid[i])), C("row_significance", s.rows[i].sig = Excludes(s.rows[i])) >>)
          (* more violation never narrows the interval *)
          \o ForEach(n, LAMBDA i : ForEach(n, LAMBDA j : When(ev.grid[i] \preceq ev.grid[j],
               << C("monotone_in_M", Le(s.rows[j].cilb, s.rows[i].cilb (+) Nm("1e-9")) /\ Le(s.rows[i].ciub, s.rows[j].ciub (+) Nm("1e-9"))) >>))))
     \o (IF ~IsFin(b) \/ Lt(top, b)
         THEN When(IF IsFin(b) THEN clear(top) ELSE TRUE, << CD("no_breakdown_on_grid", ~IsNum(s.brk), <<ShowN(b), ShowN(top)>>), C("has_breakdown", ~s.has), C("repr_shows_none", s.repr = "None") >>)
         ELSE When(clear(top) /\ (NumEq(b, Zero) \/ Lt(Nm("1e-6"), b)),
              << CD("breakdown_on_grid", IsNum(s.brk), ShowN(b)), C("has_breakdown", s.has), C("repr_shows_value", s.repr # "None") >>
              \o When(IsNum(s.brk), << EqTol("breakdown_value", s.brk, b, "1e-6", "3e-5") >>)))

(* there is none only if no violation, however large, makes the interval reach zero *)
DirectClauses(ev) ==
  LET st == Force(Study(ev.src)) l == Weights(st, ev.lvec)
      b == Breakdown(st, l, ev.method, ev.alpha)
      near(x) == IsFin(b) /\ ~Lt(Nm("1e-6"), Abs(b (-) x))
  IN IF ~IsFin(b) THEN << CD("direct_none_when_always_robust", ~IsNum(ev.direct.brk), ShowN(b)) >>
     ELSE When(Lt(b, Nm("1e9")) /\ (NumEq(b, Zero) \/ ~near(Zero)),
          << CD("direct_exists", IsNum(ev.direct.brk), ShowN(b)) >>
          \o When(IsNum(ev.direct.brk), << CD("direct_within_tolerance", Le(Abs(ev.direct.brk (-) b), ev.direct.tol), <<ShowN(ev.direct.brk), ShowN(b)>>) >>))

(* pre-trends on a line and no curvature allowed: the violation after treatment continues the line *)
PinnedLine(ev) ==
  LET pre == StagPre(ev.src) post == StagPost(ev.src) p == Len(pre)
      slope == (pre[p].eff (-) pre[p-1].eff) (/) Nm(pre[p].e - pre[p-1].e)
      tau == MeanQ([i \in 1..Len(post) |-> post[i].eff (-) (pre[p].eff (+) (slope (.) Nm(post[i].e - pre[p].e)))])
  IN << Eq("smoothness_continues_the_pre_trend", ev.res.lb, tau), Eq("smoothness_continues_the_pre_trend", ev.res.ub, tau) >>

Clauses(ev) ==
  IF ev.kind = "claim" THEN PinnedLine(ev)
  ELSE IF ev.kind = "args" THEN << CD("bad_arguments_rejected", ev.raised \in {"ValueError", "TypeError"}, <<ev.what, ev.raised>>) >>
  ELSE LET st == Force(Study(ev.src))
           l == Weights(st, ev.lvec)
           badM == Lt(ev.M, Zero) \/ \E i \in 1..Len(ev.grid) : Lt(ev.grid[i], Zero)
           nopost == st.beta = <<>>
           badl == ev.lvec # <<>> /\ Len(ev.lvec) # Len(st.beta)
           noeff == ev.src.kind = "stag" /\ ~ev.src.has
       IN IF badM \/ nopost \/ badl \/ noeff
          THEN << CD("unusable_input_rejected", ev.raised = "ValueError", <<ev.raised, badM, nopost, badl, noeff>>) >>
          ELSE LET bad == \E i \in 1..Len(st.beta) : ~IsFin(st.beta[i])
                   var == IF bad THEN Nm("nan") ELSE Var(st, l)
               IN IF bad \/ ~IsFin(var)
                  THEN When(ev.raised = "", << C("undefined_is_not_significant", ~ev.res.sig) >>)
                  ELSE IF ~Lt(Nm("1e-16"), var)
                  THEN When(ev.method # "relative_magnitude" /\ NumEq(var, Zero), << CD("zero_se_rejected", ev.raised = "ValueError", ev.msg) >>)
                  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
                  ELSE IF ev.kind = "fit" THEN FitClauses(ev)
                  ELSE IF ev.kind = "sens" THEN SensClauses(ev)
                  ELSE DirectClauses(ev)
=============================================================================
