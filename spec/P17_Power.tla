------------------------------ MODULE P17_Power ------------------------------
(***************************************************************************)
(* Analytical power, minimum detectable effect and sample size are one     *)
(* relation; simulated power counts what the simulated fits did.           *)
(***************************************************************************)
EXTENDS Power, Sampling

P0(name, ev, e, got) == EqTol(name, got, PowerOf(ev.d, e), "1e-7", "1e-9")
Echo(ev, r) == C("design_echoed", r.design = Design(ev.d.npre, ev.d.npost) /\ r.alt = ev.d.alt /\ NumEq(r.alpha, ev.d.alpha) /\ NumEq(r.sigma, ev.d.sigma) /\ NumEq(r.rho, ev.d.rho))

PowerClauses(ev) ==
  LET r == ev.res frac == ev.d.nt (/) (ev.d.nt (+) ev.d.nc)
  IN << P0("power", ev, ev.effect, r.power), Eq("power_mde", r.mde, Mde(ev.d)), Echo(ev, r), C("effect_echoed", NumEq(r.effect, ev.effect)),
        CD("power_required_n", CeilEq(r.n, Required(ev.d, ev.effect, frac), IF NumEq(ev.effect, Zero) THEN Zero ELSE RealN(ev.d, ev.effect, frac)), <<ShowN(r.n), ShowN(Required(ev.d, ev.effect, frac))>>),
        SameObs("shorthand_power", ev.short, IF ev.isshort THEN r.power ELSE ev.short) >>

(* the minimum detectable effect is detected with exactly the target power (one-sided part) *)
MdeClauses(ev) ==
  LET r == ev.res z == ZAlpha(ev.d)
  IN << Eq("mde", r.mde, Mde(ev.d)), Echo(ev, r), Eq("mde_power_is_target", r.power, ev.d.target), Eq("mde_n", r.n, ev.d.nt (+) ev.d.nc),
        EqTol("mde_reaches_target", NormSf(z (-) (r.mde (/) Sqrt(Variance(ev.d)))), ev.d.target, "1e-7", "1e-9"),
        SameObs("shorthand_mde", ev.short, IF ev.isshort THEN r.mde ELSE ev.short) >>

SizeClauses(ev) ==
  LET r == ev.res
      want == Required(ev.d, ev.effect, ev.frac)
      real == IF NumEq(ev.effect, Zero) THEN Zero ELSE RealN(ev.d, ev.effect, ev.frac)
      nt == LET k == CeilN(want (.) ev.frac) IN IF Lt(k, Nm(2)) THEN Nm(2) ELSE k
      nc == LET k == want (-) nt IN IF Lt(k, Nm(2)) THEN Nm(2) ELSE k
      d2 == [ev.d EXCEPT !.nt = r.nt, !.nc = r.nc]
      exact == NumEq(r.nt, nt) /\ NumEq(r.nc, nc)
  IN << Echo(ev, r), C("size_is_sum", NumEq(r.n, r.nt (+) r.nc)),
        CD("size_total", NumEq(r.n, nt (+) nc) \/ CeilEq(r.n, want, real), <<ShowN(r.n), ShowN(want), ShowN(real)>>),
        CD("size_allocation", exact \/ (Le(Abs(r.nt (-) nt), One) /\ Le(Abs(r.nc (-) nc), One) /\ Le(Abs(real (-) FloorN(real (+) Nm("1e-6"))), Nm("2e-6"))) \/ (Le(Abs(r.nt (-) nt), One) /\ ~Le(Nm("1e-6"), Abs((want (.) ev.frac) (-) FloorN((want (.) ev.frac) (+) Nm("1e-9"))))), <<ShowN(r.nt), ShowN(nt)>>),
        Eq("size_mde", r.mde, Mde(d2)),
        SameObs("shorthand_size", ev.short, IF ev.isshort THEN r.n ELSE ev.short) >>
     (* with an allocation that is not cut off the size found does detect the effect *)
     \o When(Lt(Nm(200), want) /\ Lt(want, Nm(1000000)) /\ Le(Nm("0.2"), ev.frac) /\ Le(ev.frac, Nm("0.8")) /\ Lt(Zero, ZSum(ev.d)),
          << CD("size_detects_effect", Le(r.mde, Abs(ev.effect) (.) Nm("1.02")) /\ Le(Abs(ev.effect) (.) Nm("0.97"), r.mde), <<ShowN(r.mde), ShowN(ev.effect)>>) >>)

CurveClauses(ev) ==
  LET r == ev.res k == Len(r.x)
  IN (IF ev.grid # <<>> THEN << C("curve_grid", k = Len(ev.grid) /\ \A i \in 1..k : NumEq(r.x[i], ev.grid[i])) >>
      ELSE IF ev.what = "effects" THEN << CD("curve_default_grid", k = 50 /\ \A i \in 1..k : Near(r.x[i], (Nm("2.5") (.) Mde(ev.d)) (.) (Nm(i - 1) (/) Nm(49))), k) >> ELSE <<>>)
     \o ForEach(k, LAMBDA i :
          IF ev.what = "effects" THEN << EqTol("curve_power", r.p[i], PowerOf(ev.d, r.x[i]), "1e-7", "1e-9") >>
          ELSE LET tr == LET q == FloorN(r.x[i] (.) ev.frac) IN IF Lt(q, Nm(2)) THEN Nm(2) ELSE q
                   co == LET q == r.x[i] (-) tr IN IF Lt(q, Nm(2)) THEN Nm(2) ELSE q
               IN << EqTol("size_curve_power", r.p[i], PowerOf([ev.d EXCEPT !.nt = tr, !.nc = co], ev.effect), "1e-7", "1e-9") >>)
     (* more units of both groups never lose power (for effects in the direction tested) *)
     \o When(ev.what = "sizes" /\ (ev.d.alt = "two-sided" \/ (ev.d.alt = "greater" /\ Lt(Zero, ev.effect))),
          ForEach(k, LAMBDA i : When(i > 1 /\ Lt(r.x[i-1], r.x[i]) /\ NumEq(ev.frac, Nm("0.5")), << C("power_grows_with_size", Le(r.p[i-1], r.p[i] (+) Nm("1e-9"))) >>)))

(* --- simulation --- *)
Primary(ev) ==
  LET n == Len(ev.effects) hit == SelectSeq([i \in 1..n |-> i], LAMBDA i : Close(ev.effects[i], ev.trueeff, Nm("1e-5"), Nm("1e-8")))
  IN IF n = 1 THEN 1 ELSE IF hit # <<>> THEN hit[1] ELSE n
Good(run) == SelectSeq(run, LAMBDA o : o.ok)
Rejecting(ev, run) == SelectSeq(Good(run), LAMBDA o : IsFin(o.p) /\ Lt(o.p, ev.alpha))
Share(a, b) == Nm(Len(a)) (/) Nm(Len(b))
Empty(ev) == {i \in 1..Len(ev.runs) : Good(ev.runs[i]) = <<>>}
SimClauses(ev) ==
  LET n == Len(ev.effects) r == ev.res
      lenok == \A i \in 1..Len(ev.runs) : Len(ev.runs[i]) = ev.nsim
  IN IF Empty(ev) # {}
     THEN << CD("sim_without_valid_fit_raises", ev.raised = "RuntimeError", ev.raised) >>
     ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
     ELSE
     LET k == Primary(ev)
         g == Good(ev.runs[k])
         est == [i \in 1..Len(g) |-> g[i].att]
         tr == ev.effects[k]
         pw == Share(Rejecting(ev, ev.runs[k]), g)
         se == SqrtPos((pw (.) (One (-) pw)) (/) Nm(Len(g)))
         z == NormPpf(Nm("0.975"))
         finite == \A i \in 1..Len(g) : IsFin(g[i].att) /\ IsFin(g[i].se)
         sd == IF Len(g) > 1 THEN SqrtPos(VarQ(est, 1)) ELSE Nm("nan")
         covered == SelectSeq(g, LAMBDA o : IsFin(o.lo) /\ IsFin(o.hi) /\ Le(o.lo, tr) /\ Le(tr, o.hi))
         manyfail == \E i \in 1..n : Lt(Nm("0.1"), Share(SelectSeq(ev.runs[i], LAMBDA o : ~o.ok), ev.runs[i]))
     IN << CD("sim_count", lenok /\ Len(ev.runs) = n, Len(ev.runs)),
           C("sim_powers_len", Len(r.powers) = n), C("sim_effects_echoed", Len(r.effects) = n /\ \A i \in 1..n : NumEq(r.effects[i], ev.effects[i])),
           Eq("sim_power", r.power, pw), Eq("sim_rejection_rate", r.rate, pw), EqTol("sim_power_se", r.powerse, se, "1e-7", "1e-9"),
           EqTol("sim_ci_lo", r.lo, IF Lt(pw (-) (z (.) se), Zero) THEN Zero ELSE pw (-) (z (.) se), "1e-7", "1e-9"),
           EqTol("sim_ci_hi", r.hi, IF Lt(One, pw (+) (z (.) se)) THEN One ELSE pw (+) (z (.) se), "1e-7", "1e-9"),
           C("sim_n_valid", r.n = Len(g)), Eq("sim_true_effect", r.trueeff, tr), Eq("sim_coverage", r.coverage, Share(covered, g)),
           C("sim_failures_warned", ev.warned = manyfail), C("sim_estimator", r.estimator = ev.estimator) >>
        \o When(finite, << Eq("sim_mean_estimate", r.mean, MeanQ(est)), EqTol("sim_sd", r.sd, sd, "1e-7", "1e-9"), Eq("sim_mean_se", r.meanse, MeanQ([i \in 1..Len(g) |-> g[i].se])),
             EqTol("sim_bias", r.bias, MeanQ(est) (-) tr, "1e-7", "1e-9") >>
             \o When(Len(g) > 1, << EqTol("sim_rmse", r.rmse, SqrtPos(Sq(MeanQ(est) (-) tr) (+) Sq(sd)), "1e-6", "1e-9") >>))
        \o When(Len(r.powers) = n, ForEach(n, LAMBDA i : << EqAt("sim_power_by_effect", i, r.powers[i], Share(Rejecting(ev, ev.runs[i]), Good(ev.runs[i]))) >>))
        \o << C("sim_records", Len(r.recs) = Len(g)) >>
        \o When(Len(r.recs) = Len(g), ForEach(Len(g), LAMBDA i : << SameObs("sim_record_estimate", r.recs[i].att, g[i].att), SameObs("sim_record_p", r.recs[i].p, g[i].p), C("sim_record_rejected", r.recs[i].rej = (IsFin(g[i].p) /\ Lt(g[i].p, ev.alpha))) >>))
        (* every data set is drawn with its own seed and exactly the requested parameters *)
        \o << C("sim_draws", Len(ev.draws) = n * ev.nsim), C("sim_seeds_differ", Cardinality({ToString(ev.draws[i].seed) : i \in 1..Len(ev.draws)}) = Len(ev.draws)) >>
        \o ForEach(Len(ev.draws), LAMBDA i : << CD("sim_draw_parameters", ev.draws[i].same /\ NumEq(ev.draws[i].effect, ev.effects[((i - 1) \div ev.nsim) + 1]), i) >>)
        \o << C("sim_seed_reproduces", ev.again) >>

Clauses(ev) ==
  IF ev.kind = "args" THEN << CD("bad_arguments_rejected", ev.raised = "ValueError", <<ev.what, ev.raised>>) >>
  ELSE IF ev.kind = "sim" THEN SimClauses(ev)
  ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
  ELSE IF ev.kind = "power" THEN PowerClauses(ev)
  ELSE IF ev.kind = "mde" THEN MdeClauses(ev)
  ELSE IF ev.kind = "size" THEN SizeClauses(ev)
  ELSE CurveClauses(ev)
=============================================================================
