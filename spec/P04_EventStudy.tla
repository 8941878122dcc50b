--------------------------- MODULE P04_EventStudy ---------------------------
(***************************************************************************)
(* Multi-period difference-in-differences: one effect per post period.     *)
(***************************************************************************)
EXTENDS Designs

Periods(ev) == SortedInts({ev.per[i] : i \in 1..Len(ev.per)})
(* which periods are post: the caller's, or the later half *)
Post(ev) == IF ev.post # <<>> THEN ev.post
            ELSE LET ps == Periods(ev) m == Len(ps) \div 2 IN SubSeq(ps, m + 1, Len(ps))
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Pre(ev) == LET po == Post(ev) IN SelectSeq(Periods(ev), LAMBDA p : ~InSeq(p, po))
Reference(ev) == IF IsNum(ev.ref) THEN ev.ref ELSE Pre(ev)[1]
NAbsorbed(ev) == SumQ([k \in 1..Len(ev.absorb) |-> Nm(NLevels(ev.absorb[k]) - 1)])
Wd(ev, x) == DemeanAll(x, ev.absorb)

BaseCols(ev) ==
  LET nr == SelectSeq(Periods(ev), LAMBDA p : p # Reference(ev))
  IN <<Ones(Len(ev.y)), ev.d>> \o [k \in 1..Len(nr) |-> IndCol(ev.per, nr[k])]
     \o [k \in 1..Len(ev.cov) |-> Wd(ev, ev.cov[k])] \o Flat([k \in 1..Len(ev.fe) |-> DummyCols(ev.fe[k])])
Inter(ev, p) == ColMul(ev.d, IndCol(ev.per, p))
(* all columns, the effect of period number q of Post last *)
ColsFor(ev, q) ==
  LET po == Post(ev)
      others == SelectSeq([k \in 1..Len(po) |-> k], LAMBDA k : k # q)
  IN BaseCols(ev) \o [k \in 1..Len(others) |-> Inter(ev, po[others[k]])] \o <<Inter(ev, po[q])>>
AllCols(ev) == LET po == Post(ev) IN BaseCols(ev) \o [k \in 1..Len(po) |-> Inter(ev, po[k])]

(* the design with every effect column kept last: point estimates and covariance of all effects *)
Whole(ev, y) ==
  LET cols == AllCols(ev)
      X == FromCols(cols)
      pc == PivotCols(X)
      Xr == Force(Cols(X, pc))
      u == Force(Resid(Xr, y))
      m == Len(Post(ev))
      r == Len(pc)
      k == Len(cols)
      ok == r >= m /\ \A q \in 1..m : pc[r - m + q] = k - m + q
      V == IF Len(y) > r THEN Force(Vcov(ev.vkind, Xr, u, ev.g)) ELSE <<>>
      b == Force(Beta(Xr, y))
  IN [ok |-> ok, rank |-> r, resid |-> u, all |-> IF r = k THEN b ELSE <<>>,
      eff |-> IF ok THEN [q \in 1..m |-> b[r - m + q]] ELSE <<>>,
      V |-> IF ok /\ Len(y) > r THEN [p \in 1..m |-> [q \in 1..m |-> V[r - m + p][r - m + q]]] ELSE <<>>]

(* the regressors as the coefficient table names them, in the order of AllCols *)
Names(ev) ==
  LET nr == SelectSeq(Periods(ev), LAMBDA p : p # Reference(ev))
      po == Post(ev)
      lev(k) == SortedInts({ev.fe[k][i] : i \in 1..Len(ev.fe[k])})
  IN <<"const", "D">> \o [k \in 1..Len(nr) |-> "period_" \o ToString(nr[k])] \o [k \in 1..Len(ev.cov) |-> "x" \o ToString(k - 1)]
     \o Flat([k \in 1..Len(ev.fe) |-> [j \in 1..(Len(lev(k)) - 1) |-> ev.fename[k] \o "_" \o ToString(lev(k)[j + 1])]])
     \o [k \in 1..Len(po) |-> "D:period_" \o ToString(po[k])]

Mean2(ev, d, p) == MeanOver({i \in 1..Len(ev.y) : NumEq(ev.d[i], Nm(d)) /\ InSeq(ev.per[i], p)}, LAMBDA i : ev.y[i])

Clauses(ev) ==
  LET unusable == Len(Periods(ev)) < 2 \/ Post(ev) = <<>> \/ Pre(ev) = <<>> \/ (\E k \in 1..Len(ev.post) : ~InSeq(ev.post[k], Periods(ev)))
             \/ (IsNum(ev.ref) /\ ~InSeq(ev.ref, Periods(ev)))
             \/ Cardinality({ToInt(ev.d[i]) : i \in 1..Len(ev.d)}) < 2
      r == ev.res
  IN IF unusable THEN << CD("unusable_periods_rejected", ev.raised = "ValueError", ev.raised) >>
     ELSE IF ev.raised # "" /\ Len(ev.y) =< Len(AllCols(ev))
     THEN << CD("saturated_design_rejected", ev.raised \in {"ValueError", "ZeroDivisionError"}, ev.raised) >>
     ELSE IF ev.raised # "" THEN << CD("no_exception", FALSE, ev.msg) >>
     ELSE
     LET y == Force(Wd(ev, ev.y))
         w == Force(Whole(ev, y))
         po == Post(ev)
         m == Len(po)
         n == Len(y)
         df == Nm(n - w.rank) (-) NAbsorbed(ev)
         pe(q) == r.eff[q]
         avg == MeanQ(w.eff)
         avgvar == SumQ([q \in 1..m |-> SumQ(w.V[q])]) (/) Nm(m * m)
     IN << C("post_periods", r.post = po), C("pre_periods", r.pre = Pre(ev)), C("one_effect_per_post_period", r.periods = po),
           Eq("n_obs", r.nobs, n), Eq("n_treated", r.ntr, SumQ(ev.d)), Eq("n_control", r.nco, Nm(n) (-) SumQ(ev.d)),
           Eq("r_squared", r.r2, RSquared(y, w.resid)) >>
        \o ForEach(n, LAMBDA i : << EqAt("resid", i, r.resid[i], w.resid[i]) >>)
        \o (LET nm == Names(ev) IN
             << CD("every_regressor_has_a_coefficient", {r.coefs[k].n : k \in 1..Len(r.coefs)} = {nm[k] : k \in 1..Len(nm)}, [k \in 1..Len(r.coefs) |-> r.coefs[k].n]) >>
             \o When(w.all # <<>>, ForEach(Len(r.coefs), LAMBDA k :
                  When(\E j \in 1..Len(nm) : nm[j] = r.coefs[k].n,
                       << EqAt("coefficient", r.coefs[k].n, r.coefs[k].v, w.all[CHOOSE j \in 1..Len(nm) : nm[j] = r.coefs[k].n]) >>))))
        \o When(w.ok /\ n > w.rank,
             ForEach(m, LAMBDA q :
               << EqAt("effect", po[q], pe(q).eff, w.eff[q]) >>
               \o When(Lt(Nm("1e-16"), w.V[q][q]), << EqAt("effect_se_" \o ev.vkind, po[q], pe(q).se, Sqrt(w.V[q][q])) >>)
               \o When(Lt(Zero, df), Coherent("effect", pe(q).eff, pe(q).se, pe(q).t, pe(q).p, pe(q).lo, pe(q).hi, df, ev.alpha)))
             \o << Eq("avg_is_mean_of_effects", r.avg, avg) >>
             \o When(Lt(Nm("1e-16"), avgvar), << Eq("avg_se_uses_covariances", r.avgse, Sqrt(avgvar)) >>)
             \o When(Lt(Zero, df), Coherent("avg", r.avg, r.avgse, r.avgt, r.avgp, r.avglo, r.avghi, df, ev.alpha)))
        \o When(~w.ok /\ \E q \in 1..m : IsNaN(pe(q).eff),
             << C("avg_nan_if_any_effect_unidentified", IsNaN(r.avg) /\ IsNaN(r.avgse) /\ IsNaN(r.avgp) /\ IsNaN(r.avglo) /\ IsNaN(r.avghi)) >>)
        (* without other regressors the effect is a difference of mean changes against the pooled pre periods *)
        \o When(ev.cov = <<>> /\ ev.fe = <<>> /\ ev.absorb = <<>> /\ Len(Pre(ev)) = 1 /\ Reference(ev) = Pre(ev)[1] /\ w.ok,
             ForEach(m, LAMBDA q : << EqAt("effect_is_difference_of_mean_changes", po[q], pe(q).eff,
                  (Mean2(ev, 1, <<po[q]>>) (-) Mean2(ev, 1, Pre(ev))) (-) (Mean2(ev, 0, <<po[q]>>) (-) Mean2(ev, 0, Pre(ev)))) >>))
=============================================================================
