------------------------------ MODULE Outputs ------------------------------
(* Recording: per-step values are gathered into periods by (nested)         *)
(* aggregators, kept by recorders, written to files and summarised.          *)
(* Time is counted in hours (DayNo * 24 + hour).  A value with its period is  *)
(* <<start, length, value>>.                                                *)
EXTENDS Calendar

St(p) == p[1]
Ln(p) == p[2]
Vl(p) == p[3]
En(p) == p[1] + p[2]

(* ---- aggregation functions over period values -------------------------- *)
RECURSIVE ProdTo(_, _)
ProdTo(s, n) == IF n = 0 THEN S ELSE Mul(ProdTo(s, n - 1), s[n])
AggPlain(f, vs) ==            \* unweighted
  CASE f.f = "Sum" -> SumSeq(vs)
    [] f.f = "Mean" -> DivR(SumSeq(vs), Len(vs))
    [] f.f = "Min" -> MinSeq(vs)
    [] f.f = "Max" -> MaxSeq(vs)
    [] f.f = "Product" -> ProdTo(vs, Len(vs))
    [] f.f = "CountNonZero" -> S * Cardinality({i \in Idx(vs) : vs[i] # 0})
    [] f.f = "AnyNonZero" -> IF \E i \in Idx(vs) : Abs(vs[i]) > f.tol THEN S ELSE 0
Values(ps) == [i \in Idx(ps) |-> Vl(ps[i])]
AggPeriods(f, ps) ==          \* means are weighted with the lengths
  IF f.f = "Mean"
  THEN LET u == IF \A i \in Idx(ps) : Ln(ps[i]) % 24 = 0 THEN 24 ELSE 1      \* whole days or hours
           W(p) == (Ln(p) \div u) * Vl(p)
           L(p) == Ln(p) \div u
       IN DivR(SumOver(W, ps), SumOver(L, ps))
  ELSE AggPlain(f, Values(ps))

(* ---- periods ----------------------------------------------------------- *)
DayOf(h) == h \div 24
FirstOfMonth(h) == LET d == DateOf(DayOf(h)) IN DayNo(d.y, d.mo, 1) * 24
NextPeriod(fq, h) ==
  LET d == DateOf(DayOf(h)) IN
  CASE fq.k = "M" -> LET n == NextMonth(d) IN DayNo(n.y, n.mo, 1) * 24
    [] fq.k = "A" -> DayNo(d.y + 1, 1, 1) * 24
    [] fq.k = "D" -> h + (24 * fq.n)
    [] OTHER -> INF
(* is h in the period that was opened by a value beginning at s?             *)
SamePeriod(fq, s, h) ==
  LET a == DateOf(DayOf(s)) b == DateOf(DayOf(h)) IN
  CASE fq.k = "M" -> a.y = b.y /\ a.mo = b.mo
    [] fq.k = "A" -> a.y = b.y
    [] fq.k = "D" -> s <= h /\ h < s + (24 * fq.n)
    [] OTHER -> TRUE
(* the parts of a value on either side of the period boundaries it crosses   *)
RECURSIVE Pieces(_, _)
Pieces(fq, p) == LET n == NextPeriod(fq, St(p)) IN
  IF n >= En(p) THEN <<p>>
  ELSE <<<<St(p), n - St(p), Vl(p)>>>> \o Pieces(fq, <<n, En(p) - n, Vl(p)>>)

Close1(f, open, end) == <<St(open[1]), end - St(open[1]), AggPeriods(f, open)>>

(* ---- one aggregator level: [out, open] --------------------------------- *)
Push(lv, r, p) ==      \* r = [out, open], p a piece
  IF r.open = <<>> \/ SamePeriod(lv.fq, St(r.open[1]), St(p)) THEN [r EXCEPT !.open = Append(@, p)]
  ELSE [out |-> Append(r.out, Close1(lv.f, r.open, St(p))), open |-> <<p>>]
RECURSIVE PushAll(_, _, _)
PushAll(lv, r, ps) == IF ps = <<>> THEN r ELSE PushAll(lv, Push(lv, r, Head(ps)), Tail(ps))
RECURSIVE FeedAll(_, _, _)
FeedAll(lv, r, vs) == IF vs = <<>> THEN r ELSE FeedAll(lv, PushAll(lv, r, Pieces(lv.fq, Head(vs))), Tail(vs))

(* ---- nested levels; level 1 is the innermost, which sees the steps ------ *)
(* opens: the open period of every level; returns [out, opens]               *)
RECURSIVE Feed(_, _, _, _)
Feed(lvs, opens, k, vs) ==       \* values vs arrive at level k
  IF k > Len(lvs) THEN [out |-> vs, opens |-> opens]
  ELSE LET r == FeedAll(lvs[k], [out |-> <<>>, open |-> opens[k]], vs) IN
       Feed(lvs, [opens EXCEPT ![k] = r.open], k + 1, r.out)
(* the end of the run: every level closes what is open, from the innermost   *)
RECURSIVE Flush(_, _, _, _)
Flush(lvs, opens, k, vs) ==
  IF k > Len(lvs) THEN vs
  ELSE LET r == FeedAll(lvs[k], [out |-> <<>>, open |-> opens[k]], vs)
           last == IF r.open = <<>> THEN <<>> ELSE <<Close1(lvs[k].f, r.open, En(r.open[Len(r.open)]))>>
       IN Flush(lvs, opens, k + 1, r.out \o last)

(* the beginning of the last value in the outermost level when the run ends   *)
RECURSIVE LastOpen(_, _, _, _)
LastOpen(lvs, opens, k, vs) ==
  LET r == FeedAll(lvs[k], [out |-> <<>>, open |-> opens[k]], vs) IN
  IF k = Len(lvs) THEN r.open
  ELSE LastOpen(lvs, opens, k + 1, r.out \o (IF r.open = <<>> THEN <<>> ELSE <<Close1(lvs[k].f, r.open, En(r.open[Len(r.open)]))>>))
LastStart(lvs, opens) == LET o == LastOpen(lvs, opens, 1, <<>>) IN IF o = <<>> THEN -1 ELSE St(o[Len(o)])

Opens0(lvs) == [k \in Idx(lvs) |-> <<>>]

(* ---- summary of recorded rows ------------------------------------------ *)
(* rows[s][k] = [ts, te, v] with v a value per metric; a = [metric, time,     *)
(* scenario, order]; a missing function is [f |-> ""]; NAN = undefined        *)
One(f, vs) == IF Len(vs) = 1 THEN vs[1] ELSE IF f.f = "" \/ NAN \in {vs[i] : i \in Idx(vs)} THEN NAN ELSE AggPlain(f, vs)
OneT(f, ps) == IF Len(ps) = 1 THEN Vl(ps[1]) ELSE IF f.f = "" \/ NAN \in {Vl(ps[i]) : i \in Idx(ps)} THEN NAN ELSE AggPeriods(f, ps)
Summary(a, rows) ==
  LET OfScen(rs) ==
        IF a.order = "MetricTimeScenario"
        THEN OneT(a.time, [k \in Idx(rs) |-> <<rs[k].ts, rs[k].te - rs[k].ts, One(a.metric, rs[k].v)>>])
        ELSE One(a.metric, [m \in Idx(rs[1].v) |-> OneT(a.time, [k \in Idx(rs) |-> <<rs[k].ts, rs[k].te - rs[k].ts, rs[k].v[m]>>])])
  IN One(a.scenario, [s \in Idx(rows) |-> OfScen(rows[s])])
=============================================================================
