---------------------------- MODULE P29_Figures -----------------------------
(***************************************************************************)
(* A figure shows the numbers of the analysis it was drawn from: what was  *)
(* read back from the axes after every request of a sequence against the   *)
(* layer the specification computes from the result and the options.       *)
(***************************************************************************)
EXTENDS TraceRun, FigureModel, ReportModel
Z(alpha) == NormPpf(One (-) (Nm(alpha) (/) Nm(2)))
SameX(a, b) == SameNum(a, b)
(* two bags: every wanted mark drawn, every drawn mark wanted, as often *)
Bag(want, got, same(_, _)) ==
  /\ Len(want) = Len(got)
  /\ \A i \in 1..Len(want) : \E j \in 1..Len(got) : same(want[i], got[j])
  /\ \A j \in 1..Len(got) : \E i \in 1..Len(want) : same(want[i], got[j])
BagC(name, want, got, same(_, _)) == LET ok == Bag(want, got, same) IN CD(name, ok, IF ok THEN "" ELSE <<"drawn", ToString(got), "wanted", ToString(want)>>)
SamePt(a, b) == SameNum(a.x, b.x) /\ SameNum(a.y, b.y) /\ a.hollow = b.hollow
SameSeg(a, b) == SameNum(a.x, b.x) /\ SameNum(a.lo, b.lo) /\ SameNum(a.hi, b.hi)
SamePair(a, b) == SameNum(a[1], b[1]) /\ SameNum(a[2], b[2])
SamePath(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SamePair(a[i], b[i])
Pt(x, y, h) == [x |-> x, y |-> y, hollow |-> h]
Seg(x, lo, hi) == [x |-> x, lo |-> lo, hi |-> hi]
Says(texts, s, vs) == \E i \in 1..Len(texts) : /\ texts[i].s = s /\ Len(texts[i].v) = Len(vs)
                                              /\ \A j \in 1..Len(vs) : ShownAs(texts[i].v[j].x, texts[i].v[j].dp, texts[i].v[j].pct, vs[j])
SaysC(name, texts, s, vs) == LET ok == Says(texts, s, vs) IN CD(name, ok, IF ok THEN "" ELSE <<ToString(texts), s, ToString(vs)>>)
Opt(b, s) == IF b THEN s ELSE <<>>
Map(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
None == <<>>
---------------------------------------------------------------------------
(* event studies *)
Order(q) == IF q.has_periods THEN q.periods
            ELSE CASE q.src = "mp" -> q.post
                   [] q.src = "df" -> Map(q.rows, LAMBDA r : r.p)
                   [] OTHER -> [i \in 1..Len(q.rows) |-> q.rows[CHOOSE j \in 1..Len(q.rows) : q.rows[j].k = i - 1].p]
Aggregated(q) == q.src \in {"cs", "sa"}
Ref(q) == IF q.ref # "null" THEN q.ref ELSE IF Aggregated(q) THEN Implied(q.rows) ELSE "null"
EsClauses(q, a) ==
  LET named == q.ref # "null"
      zero == IF named THEN Shift(q.rows, q.ref) ELSE Zero
      free == named /\ Normalised(q.rows, q.ref)
      show == Shown(q.rows, Order(q))
      z == Z(q.alpha)
      ref == Ref(q)
      n == Len(show)
      E(i) == RowAt(q.rows, show[i]).e (-) zero
      S(i) == RowAt(q.rows, show[i]).s
      withbar == SelectSeq([i \in 1..n |-> i], LAMBDA i : IsFin(S(i)) /\ ~(free /\ show[i] = q.ref))
      pre == IF Aggregated(q) /\ ~q.has_pre THEN SelectSeq(Order(q), LAMBDA p : InRows(q.rows, p) /\ RowAt(q.rows, p).neg) ELSE q.pre
      dark == { i \in 1..n : InSeq(pre, show[i]) }
      at == { i \in 1..n : show[i] = ref }
  IN << BagC("points_at_the_effects", [i \in 1..n |-> Pt(Nm(i - 1), E(i), show[i] = ref)], a.pts, SamePt),
        BagC("bars_at_the_intervals", Map(withbar, LAMBDA i : Seg(Nm(i - 1), E(i) (-) (z (.) S(i)), E(i) (+) (z (.) S(i)))), a.seg, SameSeg),
        BagC("zero_line", Opt(q.zero, <<Zero>>), a.hl, SameX),
        BagC("reference_line", Opt(q.refline /\ at # {}, <<Nm((CHOOSE i \in 1..(n + 1) : i \in at \/ (at = {} /\ i = n + 1)) - 1)>>), a.vl, SameX),
        BagC("shaded_before_treatment", Opt(q.shade /\ dark # {}, <<<<Nm((CHOOSE i \in 1..(n + 1) : (dark = {} /\ i = n + 1) \/ (i \in dark /\ \A j \in dark : i =< j)) - 1) (-) Nm("0.5"),
                                                                     Nm((CHOOSE i \in 1..(n + 1) : (dark = {} /\ i = n + 1) \/ (i \in dark /\ \A j \in dark : j =< i)) - 1) (+) Nm("0.5")>>>>), a.span, SamePair),
        CD("periods_on_the_axis", Len(a.ticks) = n /\ \A i \in 1..n : NumEq(a.ticks[i].x, Nm(i - 1)) /\ a.ticks[i].l = show[i], <<ToString(a.ticks), ToString(show)>>) >>
---------------------------------------------------------------------------
RECURSIVE SortCells(_)
SortCells(s) == IF s = <<>> THEN <<>> ELSE LET i == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : Le(s[i].t, s[j].t) IN <<s[i]>> \o SortCells([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
GroupClauses(q, a) ==
  LET z == Z(q.alpha)
      gs == SelectSeq(q.groups, LAMBDA g : \E i \in 1..Len(q.cells) : q.cells[i].g = g)
      Cells(g) == SortCells(SelectSeq(q.cells, LAMBDA c : c.g = g))
      all == Flat(Map(gs, LAMBDA g : Cells(g)))
      fin == SelectSeq(all, LAMBDA c : IsFin(c.e))
      bars == SelectSeq(fin, LAMBDA c : IsFin(c.s))
      Path(g) == Map(Cells(g), LAMBDA c : <<c.t, c.e>>)
      long == SelectSeq(gs, LAMBDA g : Len(Cells(g)) > 1)
  IN << BagC("points_at_the_effects", Map(fin, LAMBDA c : Pt(c.t, c.e, FALSE)), a.pts, SamePt),
        BagC("bars_at_the_intervals", Map(bars, LAMBDA c : Seg(c.t, c.e (-) (z (.) c.s), c.e (+) (z (.) c.s))), a.seg, SameSeg),
        BagC("cohort_paths", Map(long, Path), Map(a.line, LAMBDA l : l.xy), SamePath),
        BagC("zero_line", <<Zero>>, a.hl, SameX) >>
     \o ForEach(Len(gs), LAMBDA i : << SaysC("cohort_named", a.legend, "Cohort @", <<Nm(gs[i])>>) >>)
---------------------------------------------------------------------------
SensClauses(q, a) ==
  LET n == Len(q.M)
      V == Flat(a.poly)
      AtM(i) == { k \in 1..Len(V) : NumEq(V[k][1], q.M[i]) }
      Lo(i) == MinQ([j \in 1..Cardinality(AtM(i)) |-> V[SortedInts(AtM(i))[j]][2]])
      Hi(i) == MaxQ([j \in 1..Cardinality(AtM(i)) |-> V[SortedInts(AtM(i))[j]][2]])
      sound == \A i \in 1..n : IsFin(q.bounds[i][1]) /\ IsFin(q.bounds[i][2])
  IN << BagC("estimate_and_zero_lines", <<q.orig, Zero>>, a.hl, SameX),
        CD("band_is_the_identified_set", IF ~q.show[1] THEN a.poly = None ELSE sound => \A i \in 1..n : AtM(i) # {} /\ SameNum(Lo(i), q.bounds[i][1]) /\ SameNum(Hi(i), q.bounds[i][2]), <<ToString(a.poly), ToString(q.bounds)>>),
        BagC("robust_interval_lines", Opt(q.show[2] /\ n > 1, << [i \in 1..n |-> <<q.M[i], q.cis[i][1]>>], [i \in 1..n |-> <<q.M[i], q.cis[i][2]>>] >>), Map(a.line, LAMBDA l : l.xy), SamePath),
        BagC("breakdown_line", Opt(q.show[3], q.breakdown), a.vl, SameX) >>
     \o When(q.show[3] /\ q.breakdown # None, << SaysC("breakdown_named", a.legend, "Breakdown (M=@)", q.breakdown) >>)
---------------------------------------------------------------------------
HonestClauses(q, a) ==
  LET z == Z(q.alpha)
      n == Len(q.rows)
      ix == SelectSeq([i \in 1..n |-> i], LAMBDA i : IsFin(q.rows[i].e))
      std == SelectSeq(ix, LAMBDA i : IsFin(q.rows[i].s))
      rob == SelectSeq(ix, LAMBDA i : IsFin(q.rows[i].lo) /\ IsFin(q.rows[i].hi))
  IN << BagC("points_at_the_effects", Map(ix, LAMBDA i : Pt(Nm(i - 1), q.rows[i].e, q.rows[i].p = q.ref)), a.pts, SamePt),
        BagC("both_intervals", Map(std, LAMBDA i : Seg(Nm(i - 1), q.rows[i].e (-) (z (.) q.rows[i].s), q.rows[i].e (+) (z (.) q.rows[i].s))) \o Map(rob, LAMBDA i : Seg(Nm(i - 1), q.rows[i].lo, q.rows[i].hi)), a.seg, SameSeg),
        BagC("zero_line", <<Zero>>, a.hl, SameX),
        CD("periods_on_the_axis", Len(a.ticks) = n /\ \A i \in 1..n : NumEq(a.ticks[i].x, Nm(i - 1)) /\ a.ticks[i].l = q.rows[i].p, ToString(a.ticks)),
        SaysC("restriction_named", a.legend, "Honest CI (M=@)", <<q.M>>) >>
---------------------------------------------------------------------------
TypeName(t) == CASE t = "treated_vs_never" -> "Treated vs Never-treated" [] t = "earlier_vs_later" -> "Earlier vs Later treated" [] OTHER -> "Later vs Earlier (forbidden)"
ScatterClauses(q, a) ==
  LET types == SelectSeq(q.types, LAMBDA t : \E i \in 1..Len(q.comps) : q.comps[i].t = t.t)
      avgs == SelectSeq(types, LAMBDA t : t.a # None)
  IN << BagC("points_at_the_comparisons", Map(q.comps, LAMBDA c : [x |-> c.e, y |-> c.w, lab |-> TypeName(c.t)]), a.pts, LAMBDA u, v : SameNum(u.x, v.x) /\ SameNum(u.y, v.y) /\ u.lab = v.lab),
        BagC("average_and_twfe_lines", Opt(q.avg, Map(avgs, LAMBDA t : t.a[1])) \o Opt(q.line, <<q.twfe>>) \o <<Zero>>, a.vl, SameX) >>
     \o When(q.line, << SaysC("twfe_named", a.legend, "TWFE = @", <<q.twfe>>) >>)
BarClauses(q, a) ==
  LET big == SelectSeq(q.types, LAMBDA t : Lt(Nm("0.01"), t.w))
      named == SelectSeq(big, LAMBDA t : t.a # None)
  IN << BagC("bars_at_the_weights", [i \in 1..3 |-> <<Nm(i - 1), q.types[i].w>>], Map(a.bar, LAMBDA b : <<b.x, b.h>>), SamePair),
        SaysC("twfe_named", a.text, "TWFE = @", <<q.twfe>>),
        CD("one_label_per_shown_number", Len(a.text) = 1 + Len(big) + Len(named), ToString(a.text)) >>
     \o ForEach(Len(big), LAMBDA i : << SaysC("weight_named", a.text, "@", <<big[i].w>>) >>)
     \o ForEach(Len(named), LAMBDA i : << SaysC("effect_named", a.text, "beta = @", named[i].a) >>)
---------------------------------------------------------------------------
CurveClauses(q, a) ==
  LET n == Len(q.xs)
      on == q.vline /\ q.v # None
  IN << BagC("curve_as_computed", Opt(n > 1, << [i \in 1..n |-> <<q.xs[i], q.ps[i]>>] >>), Map(a.line, LAMBDA l : l.xy), SamePath),
        BagC("target_line", Opt(q.tline, <<q.target>>), a.hl, SameX),
        BagC("detectable_line", Opt(on, q.v), a.vl, SameX),
        BagC("detectable_point_on_the_curve", IF on /\ n > 0 /\ q.marked THEN (IF Between(q.xs, q.v[1]) THEN << Pt(q.v[1], OnCurve(q.xs, q.ps, q.v[1]), FALSE) >> ELSE <<>>) ELSE <<>>, a.pts, SamePt) >>
     \o When(on, << SaysC("detectable_named", a.legend, IF q.name = "MDE" THEN "MDE = @" ELSE "MDV = @", q.v) >>)
     \o When(q.tline, << SaysC("target_named", a.legend, "Target power (@)", <<q.target>>) >>)
---------------------------------------------------------------------------
LayerClauses(c) ==
  CASE c.kind = "es" -> EsClauses(c.inp, c.art) [] c.kind = "group" -> GroupClauses(c.inp, c.art) [] c.kind = "sens" -> SensClauses(c.inp, c.art) [] c.kind = "honest" -> HonestClauses(c.inp, c.art)
    [] c.kind = "scatter" -> ScatterClauses(c.inp, c.art) [] c.kind = "bar" -> BarClauses(c.inp, c.art) [] OTHER -> CurveClauses(c.inp, c.art)
(* nothing to draw: every effect chosen is missing *)
Empty(c) == c.kind = "es" /\ Shown(c.inp.rows, Order(c.inp)) = <<>>
Refused(c) == c.kind = "bad" \/ Empty(c)
RECURSIVE FigsAfter(_, _)
FigsAfter(calls, i) == IF i = 0 THEN <<>> ELSE LET f == FigsAfter(calls, i - 1) IN IF Refused(calls[i]) THEN f ELSE Drawn(f, calls[i].place, i)
CallClauses(ev, i) ==
  LET c == ev.calls[i]
      before == FigsAfter(ev.calls, i - 1)
  IN << CD("input_left_alone", c.same, c.kind), CD("earlier_layers_stay", c.kept, c.kind),
        CD("drawn_where_asked", \A k \in 1..Len(c.extra) : ~Refused(c) /\ c.extra[k] = c.place, <<c.kind, ToString(c.extra)>>) >>
     \o (IF Refused(c) THEN << CD("unusable_input_refused", c.raised \in {"ValueError", "TypeError"}, <<c.kind, c.raised, ToString(c.inp)>>) >>
         ELSE << CD("drawn", c.raised = "", <<c.kind, c.raised>>) >>
              \o When(c.raised = "", << CD("answers_with_its_axes", c.ret = Answer(before, c.place), <<c.ret, c.place>>), CD("shown_when_asked", c.shows = (IF c.show THEN 1 ELSE 0), <<c.shows>>) >>
                      \o When(c.custom, << CD("texts_as_given", c.art.labels[1] = "Some title" /\ c.art.labels[3] = (IF c.kind = "none" THEN "" ELSE "Y of it"), ToString(c.art.labels)) >>)
                      \o LayerClauses(c)))
(* the event is judged while its axes are as the model has them *)
Clauses(ev) == ForEach(Len(ev.calls), LAMBDA i : CallClauses(ev, i))
=============================================================================
