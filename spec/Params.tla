------------------------------- MODULE Params -------------------------------
(* What each kind of parameter reports on a time-step.                       *)
(* Def(..) is the set of permitted readings, each <<value, tolerance>>; it   *)
(* has more than one element only where a reading within rounding of a       *)
(* discontinuity leaves the choice open. <<NAN, 0>> stands for "undefined":   *)
(* the run has to stop.  p.ex says that the inputs are exact, so that        *)
(* comparisons are never open.                                              *)
(* Memory of a parameter: h, the past inputs (oldest first), and x, a latch. *)
EXTENDS Allocation, Calendar

ParMem0(c, p) == [h |-> <<>>, x |-> 0]

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Undef == {<<NAN, 0>>}

(* ---- comparisons ------------------------------------------------------ *)
Cmp(pred, x, y, ex) ==
  LET near == ~ex /\ Abs(x - y) <= 1 IN
  IF near THEN BOOLEAN ELSE
  {CASE pred = "LT" -> x < y [] pred = "GT" -> x > y [] pred = "LE" -> x <= y [] pred = "GE" -> x >= y [] pred = "EQ" -> x = y}
(* positions at which the first of the comparisons can hold                  *)
RECURSIVE FirstPos(_, _, _, _, _)
FirstPos(pred, x, ys, ex, i) ==
  IF i > Len(ys) THEN {i}
  ELSE LET b == Cmp(pred, x, ys[i], ex) IN
       (IF TRUE \in b THEN {i} ELSE {}) \cup (IF FALSE \in b THEN FirstPos(pred, x, ys, ex, i + 1) ELSE {})

(* ---- aggregation ------------------------------------------------------ *)
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN S ELSE Mul(ProdTo(f, n - 1), f[n])
ProdBut(f, i) == ProdTo([j \in 1..(Len(f) - 1) |-> Abs(IF j < i THEN f[j] ELSE f[j + 1])], Len(f) - 1)
Count(f, lim) == Cardinality({i \in Idx(f) : Abs(f[i]) > lim})
Agg(fn, f, tz, ex) ==
  CASE fn = "Sum"  -> {<<SumSeq(f), Len(f)>>}
    [] fn = "Mean" -> {<<IF f = <<>> THEN 0 ELSE DivR(SumSeq(f), Len(f)), 2>>}
    [] fn = "Min"  -> {<<MinSeq(f), 1>>}
    [] fn = "Max"  -> {<<MaxSeq(f), 1>>}
    [] fn = "Product" -> {<<ProdTo(f, Len(f)), 2 + Len(f) + (SumTo([i \in Idx(f) |-> ProdBut(f, i)], Len(f)) \div S)>>}
    [] fn = "CountNonZero" -> {<<S * n, 0>> : n \in IF ex THEN {Count(f, 0)} ELSE Count(f, 0)..Len(f)}
    [] fn = "AnyNonZero" -> IF ex THEN {<<IF Count(f, tz) > 0 THEN S ELSE 0, 0>>}
                            ELSE {<<S, 0>> : z \in {1} \cap (IF Count(f, tz - 1) > 0 THEN {1} ELSE {})} \cup {<<0, 0>> : z \in {1} \cap (IF Count(f, tz + 1) = 0 THEN {1} ELSE {})}
    [] fn = "Any" -> {<<IF Count(f, 0) > 0 THEN S ELSE 0, 0>>}
    [] fn = "All" -> {<<IF Count(f, 0) = Len(f) THEN S ELSE 0, 0>>}

(* ---- interpolation ---------------------------------------------------- *)
Interp(x, lo, hi, vlo, vhi, ex) ==
  LET mid == IF x <= lo THEN vlo ELSE IF x >= hi THEN vhi ELSE vlo + MulDiv(vhi - vlo, x - lo, hi - lo)
      tol == IF hi > lo THEN 2 + DivR(2 * Abs(vhi - vlo), hi - lo) ELSE 1
  IN {<<mid, tol>>} \cup (IF ~ex /\ Abs(x - lo) <= 1 /\ hi - lo <= 2 THEN {<<vlo, 1>>, <<vhi, 1>>} ELSE {})

(* ---- control curves --------------------------------------------------- *)
CcInterp(x, ccs, vs, i, ex) ==       \* zone i of Len(ccs) + 1
  LET n == Len(ccs)
      hi == IF i = 1 THEN S ELSE ccs[i - 1]
      lo == IF i > n THEN 0 ELSE ccs[i] IN
  IF i + 1 > Len(vs) THEN Undef ELSE Interp(x, lo, hi, vs[i + 1], vs[i], ex)
CcPiece(x, ccs, pairs, i, mn, mx, ex) ==
  LET n == Len(ccs)
      hi == IF i = 1 THEN mx ELSE ccs[i - 1]
      lo == IF i > n THEN mn ELSE ccs[i]
      k == IF i > n THEN Len(pairs) ELSE i IN
  IF k > Len(pairs) \/ k = 0 THEN Undef ELSE Interp(x, lo, hi, pairs[k][2], pairs[k][1], ex)

(* ---- profiles --------------------------------------------------------- *)
MonthProfile(v, ip, d) ==
  LET min == Minutes(d) dim == DaysInMonth(d.mo, d.y) nm == NextMonth(d) pm == PrevMonth(d)
      Lin(a, b, num, den) == {<<a + MulDiv(b - a, num, den), 2>>} IN
  CASE ip = "none" -> {<<v[d.mo], 0>>}
    [] ip = "First" -> Lin(v[d.mo], v[nm.mo], ((d.d - 1) * 1440) + min, dim * 1440)
    [] ip = "Last" /\ d.d < dim -> Lin(v[pm.mo], v[d.mo], (d.d * 1440) + min, dim * 1440)
    [] ip = "Last" /\ d.d = dim -> Lin(v[d.mo], v[nm.mo], min, DaysInMonth(nm.mo, nm.y) * 1440)
(* weeks of seven places; the 53rd week of a 52-week profile repeats the 52nd *)
WeekProfile(v, ip, d) ==
  LET n == Len(v) w == YearPlace(d) \div 7 num == ((YearPlace(d) % 7) * 1440) + Minutes(d)
      V(k) == v[Clamp(k, 0, n - 1) + 1]
      next == IF w >= n - 1 THEN v[1] ELSE V(w + 1)
      prev == IF w = 0 THEN v[n] ELSE V(w - 1) IN
  CASE ip = "none" -> {<<V(w), 0>>}
    [] ip = "First" -> {<<V(w) + MulDiv(next - V(w), num, 10080), 2>>}
    [] ip = "Last" -> {<<prev + MulDiv(V(w) - prev, num, 10080), 2>>}
Drawdown(p, d) ==
  LET ri == YearPlace([mo |-> p.mo, d |-> p.d]) + 1
      di == YearPlace(d) + 1
      y0 == IF di >= ri THEN d.y ELSE d.y - 1            \* year of the last reset
      N == DaysInYear(IF ri > 60 THEN y0 + 1 ELSE y0)    \* length of the period
      k == IF di >= ri THEN di - ri ELSE di - ri + 366 - (IF ~Leap(d.y) /\ di > 60 THEN 1 ELSE 0)
  IN {<<S - MulDiv(S, (N - p.res) * k, N * N), 1>>}
DayProfile(v, d) == {<<IF Len(v) = 366 THEN v[YearPlace(d) + 1]
                       ELSE v[IF YearPlace(d) >= 59 THEN YearPlace(d) ELSE YearPlace(d) + 1], 0>>}
(* radial-basis profiles repeat every 365 days and pass through their points; *)
(* 29 February repeats the 28th. With the linear function the profile is the  *)
(* straight line between neighbouring points.                                *)
RbfPlace(d) == IF YearPlace(d) >= 59 THEN YearPlace(d) - 1 ELSE YearPlace(d)
RbfProfile(p, d) ==
  LET x == RbfPlace(d)
      pts == UNION {{<<p.xs[i] + o, p.v[i]>> : o \in {-365, 0, 365}} : i \in Idx(p.xs)}
      at == {q \in pts : q[1] = x}
      L == CHOOSE q \in {z \in pts : z[1] <= x} : \A z \in pts : z[1] <= x => z[1] <= q[1]
      R == CHOOSE q \in {z \in pts : z[1] >= x} : \A z \in pts : z[1] >= x => z[1] >= q[1] IN
  IF at # {} THEN {<<(CHOOSE q \in at : TRUE)[2], 2>>}
  ELSE IF p.fn = "Linear" THEN {<<L[2] + MulDiv(R[2] - L[2], x - L[1], R[1] - L[1]), 2>>}
  ELSE {}

RECURSIVE Pow(_, _, _, _)
Pow(v, num, den, n) == IF n = 0 THEN v ELSE Pow(MulDiv(v, num, den), num, den, n - 1)
Discount(rate, n) ==
  IF n >= 0 THEN {<<DivR(Pow(1000000000, S, S + rate, n), 1000000), 2>>}
  ELSE {<<DivR(Pow(1000000, S + rate, S, -n), 1000), 3>>}

RECURSIVE Horner(_, _, _)
Horner(cs, x, i) == IF i > Len(cs) THEN 0 ELSE cs[i] + Mul(x, Horner(cs, x, i + 1))
RECURSIVE Slope(_, _, _)
Slope(cs, x, i) == IF i > Len(cs) THEN 0 ELSE ((i - 1) * Abs(cs[i])) + Mul(x, Slope(cs, x, i + 1))

(* table of points; outside: an error, or the end values                     *)
Table(x, xp, fp, err, ex) ==
  LET n == Len(xp) IN
  IF \E i \in 1..(n - 1) : xp[i] >= xp[i + 1] /\ \A j \in 1..i : j = i \/ xp[j + 1] < x THEN IF x < xp[1] /\ ~err THEN {<<fp[1], 1>>} ELSE Undef
  ELSE IF x < xp[1] THEN IF err THEN Undef ELSE {<<fp[1], 1>>}
  ELSE IF \A j \in 2..n : x > xp[j] THEN IF err THEN Undef ELSE {<<fp[n], 1>>}
  ELSE LET i == CHOOSE j \in 1..(n - 1) : xp[j] <= x /\ x <= xp[j + 1] /\ \A k \in 1..(j - 1) : xp[k + 1] < x IN
       Interp(x, xp[i], xp[i + 1], fp[i], fp[i + 1], ex)

(* head on a turbine: water level above it, or its own elevation without a level *)
TurbineHead(p, r) == IF p.we.k = "none" THEN Max2(p.el, 0) ELSE Max2(Val(p.we, r) - p.el, 0)

(* ---- the definitions -------------------------------------------------- *)
Def(c, s, p, m, r, t) ==
  LET d == c.times[t]
      V(x) == Val(x, r)
      Vs(xs) == [i \in Idx(xs) |-> Val(xs[i], r)]
      sc == c.scens[s].idx IN
  CASE p.k = "arr" -> {<<p.v[Clamp(t + p.off, 1, Len(p.v))], 0>>}
    [] p.k = "arr2" -> {<<p.v[Clamp(t + p.off, 1, Len(p.v))][sc[p.g]], 0>>}
    [] p.k = "strict" -> IF t <= Len(p.v) THEN {<<p.v[t], 0>>} ELSE Undef
    [] p.k = "const" -> {<<p.v, 0>>}
    [] p.k = "cscen" -> {<<p.v[sc[p.g]], 0>>}
    [] p.k = "agg" -> Agg(p.f, Vs(p.ms), p.tz, p.ex)
    [] p.k = "div" -> LET y == V(p.y) q == MulDiv(V(p.x), S, y) IN
         IF y = 0 THEN Undef ELSE {<<q, 2 + DivR(S + Abs(q), Abs(y))>>}
    [] p.k = "diff" -> LET q == V(p.x) - V(p.y)
                           l == IF p.lo.k = "none" THEN q ELSE Max2(q, V(p.lo))
                       IN {<<IF p.hi.k = "none" THEN l ELSE Min2(l, V(p.hi)), 2>>}
    [] p.k = "between" -> LET u == IF p.hi.k = "none" THEN S ELSE V(p.hi) l == IF p.lo.k = "none" THEN 0 ELSE V(p.lo) IN
         {<<Mul(V(p.x), u - l), 2 + (Abs(V(p.x)) \div S) + (Abs(u - l) \div S)>>}
    [] p.k = "app" -> LET u == Clamp(V(p.y), 0, S) x == V(p.x) IN
         {<<IF p.part = "lower" THEN Mul(x, u) ELSE Mul(x, S - u), 3 + (Abs(x) \div S)>>}
    [] p.k = "max" -> {<<Max2(V(p.x), p.v), 1>>}
    [] p.k = "min" -> {<<Min2(V(p.x), p.v), 1>>}
    [] p.k = "neg" -> {<<-V(p.x), 1>>}
    [] p.k = "nmax" -> {<<Max2(-V(p.x), p.v), 1>>}
    [] p.k = "nmin" -> {<<Min2(-V(p.x), p.v), 1>>}
    [] p.k = "off" -> {<<V(p.x) + p.v, 1>>}
    [] p.k = "poly" -> LET x == Mul(V(p.x), p.sc) + p.of IN
         {<<Horner(p.cs, x, 1), 3 + Len(p.cs) + MulDiv(Slope(p.cs, Abs(x), 1), 2 + (Abs(p.sc) \div S), S)
              + (Horner([i \in Idx(p.cs) |-> S], Abs(x), 1) \div S)>>}
    [] p.k = "table" -> Table(V(p.x), Vs(p.xp), Vs(p.fp), p.err, p.ex)
    [] p.k = "pick" -> LET i == (V(p.x) \div S) + 1 IN IF i \in Idx(p.ms) THEN {<<V(p.ms[i]), 1>>} ELSE Undef
    [] p.k = "disc" -> Discount(V(p.x), d.y - p.base)
    \* history
    [] p.k = "delay" -> {<<IF Len(m.h) < p.n THEN p.v ELSE m.h[Len(m.h) + 1 - p.n], 1>>}
    [] p.k = "roll" -> IF Len(m.h) < p.mn THEN {<<p.v, 0>>}
                       ELSE LET k == Min2(p.n, Len(m.h)) IN
                            Agg(p.f, [i \in 1..k |-> m.h[Len(m.h) - k + i]], p.tz, p.ex)
    \* switches
    [] p.k = "thr" -> IF p.ratchet /\ m.x = 1 THEN {<<S, 0>>}
                      ELSE {<<IF z THEN S ELSE 0, 0>> : z \in Cmp(p.pred, V(p.x), V(p.y), p.ex)}
    [] p.k = "mthr" -> {<<S * (IF p.ratchet THEN Max2(i - 1, m.x) ELSE i - 1), 0>> : i \in FirstPos(p.pred, V(p.x), Vs(p.ms), p.ex, 1)}
    [] p.k = "switch" -> {<<IF V(p.x) > 0 \/ (m.x = 1 /\ V(p.y) > 0) THEN S ELSE 0, 0>>}
    \* control curves
    [] p.k = "cc" -> {IF i <= Len(p.ccs) THEN (IF i <= Len(p.vs) THEN <<V(p.vs[i]), 1>> ELSE <<NAN, 0>>)
                      ELSE IF p.vs = <<>> THEN <<NAN, 0>> ELSE <<V(p.vs[Len(p.vs)]), 1>>
                      : i \in FirstPos("GE", V(p.x), Vs(p.ccs), p.ex, 1)}
    [] p.k = "cci" -> {<<S * (i - 1), 0>> : i \in FirstPos("GE", V(p.x), Vs(p.ccs), p.ex, 1)}
    [] p.k = "ccint" -> UNION {CcInterp(V(p.x), Vs(p.ccs), Vs(p.vs), i, p.ex) : i \in FirstPos("GE", V(p.x), Vs(p.ccs), p.ex, 1)}
    [] p.k = "ccpw" -> UNION {CcPiece(V(p.x), Vs(p.ccs), p.pairs, i, p.lo, p.hi, p.ex) : i \in FirstPos("GE", V(p.x), Vs(p.ccs), p.ex, 1)}
    \* profiles
    [] p.k = "daily" -> DayProfile(p.v, d)
    [] p.k = "diurnal" -> {<<p.v[d.h + 1], 0>>}
    [] p.k = "monthly" -> MonthProfile(p.v, p.ip, d)
    [] p.k = "weekly" -> WeekProfile(p.v, p.ip, d)
    [] p.k = "drawdown" -> Drawdown(p, d)
    [] p.k = "rbf" -> RbfProfile(p, d)
    \* Muskingum routing with D = 2K(1-X) + 1, scaled by D:
    \*   D * out - (1 - 2KX) * in = (1 + 2KX) * in' + (2K(1-X) - 1) * out'
    \* a steady start makes the first outflow equal to the first inflow
    [] p.k = "mkD" -> {<<IF p.steady /\ t = 1 THEN S ELSE S + (2 * Mul(V(p.x), S - V(p.y))), 2>>}
    [] p.k = "mkC" -> {<<IF p.steady /\ t = 1 THEN -S ELSE (2 * Mul(V(p.x), V(p.y))) - S, 2>>}
    [] p.k = "mkR" -> LET i0 == IF t = 1 THEN p.i0 ELSE V(p.inp) o0 == IF t = 1 THEN p.o0 ELSE V(p.out)
                          k1 == S + (2 * Mul(V(p.x), V(p.y))) k2 == (2 * Mul(V(p.x), S - V(p.y))) - S IN
         {<<IF p.steady /\ t = 1 THEN 0 ELSE Mul(k1, i0) + Mul(k2, o0), 3 + ((Abs(k1) + Abs(k2) + Abs(i0) + Abs(o0)) \div S)>>}
    \* hydropower: power = flow * head * kc
    [] p.k = "hydk" -> LET hd == TurbineHead(p, r) IN {<<IF hd <= p.mh THEN 0 ELSE Mul(p.kc, hd), 2 + (p.kc \div S)>>}
    [] p.k = "hydq" -> LET hd == TurbineHead(p, r) q == IF hd <= p.mh THEN 0 ELSE MulDiv(MulDiv(V(p.x), S, hd), S, p.kc) IN
         {<<q, 3 + DivR(S, p.kc) + DivR(MulDiv(q, 2, 1), IF hd <= 0 THEN 1 ELSE hd)>>}
    \* a hydropower target: the flow that gives the target (in 1/ks), within its bounds, and the power of a flow
    [] p.k = "hydt" ->
         LET hd == TurbineHead(p, r)
             q == MulDiv(MulDiv(V(p.x) * p.ks, S, hd), S, p.kc)
             u == IF p.hi.k = "none" THEN q ELSE Min2(q, V(p.hi))
             l == IF p.lo.k = "none" THEN u ELSE Max2(u, V(p.lo))
             run == IF hd <= 0 \/ l < 0 THEN Undef ELSE {<<l, IF l = q THEN 3 + DivR(2 * S, p.kc) + DivR(2 * Abs(q), hd) ELSE 2>>} IN
         IF p.ex THEN (IF hd <= p.mh THEN {<<0, 0>>} ELSE run)
         ELSE (IF hd <= p.mh + 2 THEN {<<0, 0>>} ELSE {}) \cup (IF hd >= p.mh - 2 /\ hd > 0 THEN run ELSE {})
    [] p.k = "hydp" ->
         LET hd == TurbineHead(p, r) x == V(p.x)
             w == DivR(Mul(Mul(p.kc, hd), x), p.ks)
             run == {<<w, 3 + ((Mul(p.kc, hd) + Mul(p.kc, Abs(x)) + Abs(x)) \div (S * p.ks))>>} IN
         (IF hd <= p.mh + (IF p.ex THEN 0 ELSE 2) THEN {<<0, 0>>} ELSE {})
         \cup (IF hd > p.mh - (IF p.ex THEN 0 ELSE 2) THEN run ELSE {})
    [] p.k = "deficit" -> {<<Max2(0, Val(c.nodes[p.i].mx, r) - (IF c.nodes[p.i].k = "out" THEN r.nin[p.i] ELSE r.nout[p.i])), c.tol>>}

PTag(p) ==
  CASE p.k \in {"delay", "roll"} -> "P15"
    [] p.k \in {"thr", "mthr", "switch"} -> "P16"
    [] p.k \in {"cc", "cci", "ccint", "ccpw", "app", "between"} -> "P17"
    [] p.k \in {"daily", "diurnal", "monthly", "weekly", "drawdown", "rbf"} -> "P18"
    [] p.k \in {"mkD", "mkC", "mkR"} -> "P28"
    [] p.k = "deficit" -> "P29"
    [] OTHER -> "P19"

(* an empty definition permits any reading                                   *)
Permits(def, v) == def = {} \/ \E x \in def : x[1] # NAN /\ Close(v, x[1], x[2])

(* inputs of arithmetic parameters that are parameters themselves            *)
ParRefs(p) ==
  IF p.k = "agg" THEN {p.ms[i].i : i \in {j \in Idx(p.ms) : p.ms[j].k = "par"}}
  ELSE IF p.k \in {"neg", "off", "max", "min", "nmax", "nmin", "poly"} THEN (IF p.x.k = "par" THEN {p.x.i} ELSE {})
  ELSE IF p.k \in {"diff", "div"} THEN {p.x.i : z \in {1} \cap (IF p.x.k = "par" THEN {1} ELSE {})} \cup {p.y.i : z \in {1} \cap (IF p.y.k = "par" THEN {1} ELSE {})}
  ELSE {}
(* the reading is what the definition gives for a value of an earlier step   *)
Stale(c, s, p, m, r, t, v, prev) ==
  \E refs \in (SUBSET ParRefs(p)) \ {{}} :
     LET old == [r EXCEPT !.par = [i \in Idx(r.par) |-> IF i \in refs THEN (IF t = 1 THEN 0 ELSE prev.par[i]) ELSE r.par[i]]] IN
     Permits(Def(c, s, p, m, old, t), v)

ParBeforeV(c, s, mem, prev, b, t) ==
  UNION {
    LET p == c.pars[i] def == Def(c, s, p, mem[i], b, t) IN
    IF Permits(def, b.par[i]) THEN {}
    ELSE {<<PTag(p), "value of a parameter", <<p.k, i>>, def, b.par[i]>>}
         \cup (IF Stale(c, s, p, mem[i], b, t, b.par[i], prev)
                THEN {<<"P13", "a parameter used a value of an earlier step", <<p.k, i>>, def, b.par[i]>>} ELSE {})
    : i \in {j \in Idx(c.pars) : c.pars[j].ph \in {"b", "ab"}} }

ParAfterV(c, s, mem, b, a, t) ==
  UNION {
    LET p == c.pars[i] IN
    IF p.ph = "b"
      THEN IF a.par[i] = b.par[i] THEN {} ELSE {<<"P14", "a value computed before the allocation stays", <<p.k, i>>, b.par[i], a.par[i]>>}
    ELSE LET def == Def(c, s, p, mem[i], a, t) IN
         IF Permits(def, a.par[i]) THEN {} ELSE {<<PTag(p), "value of a parameter after the allocation", <<p.k, i>>, def, a.par[i]>>}
    : i \in {j \in Idx(c.pars) : c.pars[j].ph \in {"b", "ab", "a"}} }

(* does any parameter have to stop the run on step t (values of the leaves   *)
(* are known without looking at the run)                                    *)
RECURSIVE Ev(_, _, _, _)
Ev(c, s, i, t) ==
  LET refs == {j \in 1..(i - 1) : TRUE}
      r == [par |-> [j \in Idx(c.pars) |-> IF j < i THEN Ev(c, s, j, t) ELSE NAN]]
      def == Def(c, s, c.pars[i], ParMem0(c, c.pars[i]), r, t)
  IN IF def = {} THEN NAN ELSE (CHOOSE x \in def : TRUE)[1]
Undefined(c, t) == \E s \in Idx(c.scens) : \E i \in Idx(c.pars) : c.pars[i].un /\ Ev(c, s, i, t) = NAN

ParNextMem(c, p, m, b, a, i) ==
  CASE p.k \in {"delay", "roll"} ->
         LET h == Append(m.h, Val(p.x, a)) IN
         [m EXCEPT !.h = IF Len(h) > p.n THEN Tail(h) ELSE h]
    [] p.k = "thr" -> [m EXCEPT !.x = IF a.par[i] > 0 THEN 1 ELSE @]
    [] p.k = "mthr" -> [m EXCEPT !.x = Max2(@, a.par[i] \div S)]
    [] p.k = "switch" -> [m EXCEPT !.x = IF a.par[i] > 0 THEN 1 ELSE 0]
    [] OTHER -> m
=============================================================================
