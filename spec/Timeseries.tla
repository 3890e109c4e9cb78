----------------------------- MODULE Timeseries -----------------------------
(* Time series inputs. A series is a set of dated rows (given in the order of *)
(* their dates; t counts minutes from the model's start) with one value per   *)
(* column. The model walks through its time-steps with a cursor into the rows. *)
(*   a step takes the mean of the rows dated within it; when the rows are      *)
(*   further apart than the steps are long it takes the last row dated at or   *)
(*   before its start                                                          *)
EXTENDS Num, TLC

Kept(se, steps) == {i \in Idx(se.rows) : se.rows[i].t >= steps[1].t}
Least(A) == CHOOSE x \in A : \A y \in A : x <= y
(* distance of the rows: of the first two from the start on                     *)
Gap(se, steps) ==
  LET n == Len(se.rows) K == Kept(se, steps) IN
  IF n < 2 THEN 0
  ELSE IF K # {} /\ Least(K) < n THEN se.rows[Least(K) + 1].t - se.rows[Least(K)].t
  ELSE se.rows[n].t - se.rows[n - 1].t
Even(se, steps) ==
  LET K == Kept(se, steps) IN K # {} /\ \A i \in K : i > Least(K) => se.rows[i].t - se.rows[i - 1].t = Gap(se, steps)
Coarse(se, steps) == steps[1].d < Gap(se, steps)

(* the rows that make up the value of step k; p is the number of rows dated     *)
(* before it                                                                    *)
Within(se, steps, k, p) == {i \in (p + 1)..Len(se.rows) : se.rows[i].t < steps[k].t + steps[k].d}
Passed(se, steps, k, p) == p + Cardinality(Within(se, steps, k, p))
Used(se, steps, k, p) ==
  IF ~Coarse(se, steps) THEN Within(se, steps, k, p)
  ELSE IF p < Len(se.rows) /\ se.rows[p + 1].t = steps[k].t THEN {p + 1}
  ELSE IF p > 0 THEN {p} ELSE {}
Holes(se, rows, col) == \E i \in rows : se.rows[i].v[col] = NAN
ValueOf(se, rows, col) == DivR(SumSet(LAMBDA i : se.rows[i].v[col], rows), Cardinality(rows))

(* does the series certainly cover the simulated period; does it certainly not? *)
EndOf(steps) == steps[Len(steps)].t + steps[Len(steps)].d
Covers(se, steps) ==
  LET K == Kept(se, steps) last == se.rows[Len(se.rows)].t IN
  /\ ~se.bad /\ Cardinality(K) >= 2 /\ Even(se, steps)
  /\ se.rows[Least(K)].t = steps[1].t
  /\ last + Gap(se, steps) >= EndOf(steps)
  /\ Coarse(se, steps) => last >= steps[Len(steps)].t
Lacking(se, steps, k, p) ==
  \/ Used(se, steps, k, p) = {}
  \/ Coarse(se, steps) /\ \A i \in Used(se, steps, k, p) : se.rows[i].t + Gap(se, steps) <= steps[k].t

(* a reference: which column a scenario (its position in every group) reads     *)
Bad(c, r) ==
  LET se == c.series[r.s] IN
  \/ r.s = 0
  \/ r.by = "col" /\ r.col = 0
  \/ r.by = "one" /\ Len(se.cols) # 1
  \/ r.by = "scen" /\ r.g = 0
  \/ r.by = "scen" /\ \E s \in Idx(c.scens) : c.scens[s][r.g] > Len(se.cols)
Spare(c, r) == r.s # 0 /\ r.by = "scen" /\ r.g # 0 /\ Len(c.series[r.s].cols) # c.sizes[r.g]
Col(c, r, s) == CASE r.by = "col" -> r.col [] r.by = "one" -> 1 [] r.by = "scen" -> c.scens[s][r.g]
ColsOf(c, r) == IF r.by = "scen" THEN Idx(c.series[r.s].cols) ELSE {Col(c, r, 1)}
(* a missing value in a column that is used                                      *)
Missing(c, r) == ~Bad(c, r) /\ \E col \in ColsOf(c, r) : \E i \in Idx(c.series[r.s].rows) : c.series[r.s].rows[i].v[col] = NAN
MustMiss(c, r) == /\ ~Bad(c, r) /\ Gap(c.series[r.s], c.steps) = c.steps[1].d
                  /\ \E i \in Kept(c.series[r.s], c.steps) :
                       /\ c.series[r.s].rows[i].t < EndOf(c.steps)
                       /\ \E s \in Idx(c.scens) : c.series[r.s].rows[i].v[Col(c, r, s)] = NAN
=============================================================================
