------------------------------- MODULE Domain -------------------------------
(* The domain of a model: the time-steps it is simulated over and the set of *)
(* scenarios it is simulated for.  Both are described as machines that       *)
(* deliver the steps (runs) one after another.                               *)
EXTENDS Calendar, TLC

(* ---- time -------------------------------------------------------------- *)
(* An instant is <<day number, seconds since midnight>>; a step length is    *)
(* [mo, d, s] (months, days, seconds): a fixed number of hours or days has   *)
(* no months.                                                                *)
DaySec == 86400
Instant(x) == <<DayNo(x.y, x.mo, x.d), (x.h * 3600) + (x.mi * 60) + x.s>>
Before2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NotAfter(a, b) == ~Before2(b, a)
Seconds(a, b) == ((b[1] - a[1]) * DaySec) + (b[2] - a[2])      \* from a to b

(* a date some months later: the same day of the month, or the last one      *)
PlusMonths(y, mo, d, k) ==
  LET m0 == (y * 12) + (mo - 1) + k yy == m0 \div 12 mm == (m0 % 12) + 1 IN
  [y |-> yy, mo |-> mm, d |-> Min2(d, DaysInMonth(mm, yy))]

(* the beginning of the k-th step (from 0): k whole lengths after the start  *)
At(c, k) ==
  LET p == PlusMonths(c.start.y, c.start.mo, c.start.d, c.len.mo * k)
      sec == (c.start.h * 3600) + (c.start.mi * 60) + c.start.s
      big == c.len.s \div DaySec small == c.len.s % DaySec
      tot == sec + (small * k)
  IN <<DayNo(p.y, p.mo, p.d) + (c.len.d * k) + (big * k) + (tot \div DaySec), tot % DaySec>>

Positive(l) == l.mo >= 0 /\ l.d >= 0 /\ l.s >= 0 /\ l.mo + l.d + l.s > 0
TimeOk(c) == Positive(c.len) /\ NotAfter(Instant(c.start), Instant(c.end))

(* the k-th step as reported by the program *)
StepTimeV(c, k, o) ==
  LET w == At(c, k) nx == At(c, k + 1)
      got == Instant(o) sec == Seconds(w, nx)
      doyi == YearPlace([mo |-> o.mo, d |-> o.d])
      frac == (doyi * S) + MulDiv(got[2], S, DaySec)
  IN (IF got = w THEN {} ELSE {<<"P12", "the step begins where the previous one ended", k, w, got>>})
     \cup (IF NotAfter(w, Instant(c.end)) THEN {} ELSE {<<"P12", "no step begins after the declared end", k, c.end, got>>})
     \cup (IF o.idx = k THEN {} ELSE {<<"P12", "steps are numbered consecutively from zero", k, k, o.idx>>})
     \cup (IF o.sec = sec /\ o.ms = sec THEN {} ELSE {<<"P12", "length in seconds", k, sec, <<o.sec, o.ms>> >>})
     \cup (IF Close(o.dt, MulDiv(sec, S, DaySec), 1) THEN {} ELSE {<<"P12", "length in days", k, MulDiv(sec, S, DaySec), o.dt>>})
     \cup (IF o.doy = DayOfYear([y |-> o.y, mo |-> o.mo, d |-> o.d]) THEN {} ELSE {<<"P12", "day of the year", k, DayOfYear([y |-> o.y, mo |-> o.mo, d |-> o.d]), o.doy>>})
     \cup (IF o.doyi = doyi THEN {} ELSE {<<"P12", "place in the year, the same in leap and other years", k, doyi, o.doyi>>})
     \cup (IF Close(o.fdoy, frac, 1) THEN {} ELSE {<<"P12", "fractional place in the year", k, frac, o.fdoy>>})
     \cup (IF o.leap = Leap(o.y) THEN {} ELSE {<<"P12", "leap year", k, Leap(o.y), o.leap>>})
     \cup (IF o.first = (k = 0) THEN {} ELSE {<<"P12", "first step", k, k = 0, o.first>>})
(* after the n-th step *)
TimeEndV(c, n) ==
  IF Before2(Instant(c.end), At(c, n)) THEN {}
  ELSE {<<"P12", "every step that begins no later than the declared end is simulated", n, c.end, n>>}

(* ---- scenarios --------------------------------------------------------- *)
(* group: [name, size, lab (labels or <<>>), sub ("none", "slice",           *)
(* "indices", "labels"), a, b (slice), ix (indices), lb (labels)]            *)
Member(g, x) == x >= 0 /\ x < g.size
GroupOk(g) ==
  /\ g.lab = <<>> \/ Len(g.lab) = g.size
  /\ CASE g.sub = "slice" -> g.a < g.b /\ g.b <= g.size
       [] g.sub = "indices" -> \A i \in Idx(g.ix) : Member(g, g.ix[i])
       [] g.sub = "labels" -> \A i \in Idx(g.lb) : \E j \in Idx(g.lab) : g.lab[j] = g.lb[i]
       [] OTHER -> TRUE
LabelAt(g, l) == (CHOOSE j \in Idx(g.lab) : g.lab[j] = l /\ \A k \in 1..(j - 1) : g.lab[k] # l) - 1
LabelOf(g, x) == IF g.lab = <<>> THEN ToString(x) ELSE g.lab[x + 1]
(* what is simulated of a group, in the order in which it is numbered        *)
Chosen(g) == CASE g.sub = "slice" -> [i \in 1..(g.b - g.a) |-> g.a + i - 1]
               [] g.sub = "indices" -> g.ix
               [] g.sub = "labels" -> [i \in Idx(g.lb) |-> LabelAt(g, g.lb[i])]
               [] OTHER -> [i \in 1..g.size |-> i - 1]
Members(g) == {Chosen(g)[i] : i \in Idx(Chosen(g))}

EntryOk(g, e) == IF e.k = "i" THEN Member(g, e.i) ELSE \E j \in Idx(g.lab) : g.lab[j] = e.l
ComboOk(c, x) == Len(x) = Len(c.groups) /\ \A j \in Idx(c.groups) : EntryOk(c.groups[j], x[j])
ComboOf(c, x) == [j \in Idx(c.groups) |-> IF x[j].k = "i" THEN x[j].i ELSE LabelAt(c.groups[j], x[j].l)]

ScensOk(c) ==
  /\ \A i, j \in Idx(c.groups) : i # j => c.groups[i].name # c.groups[j].name
  /\ \A i \in Idx(c.groups) : GroupOk(c.groups[i])
  /\ c.hascombo => /\ \A i \in Idx(c.groups) : c.groups[i].sub = "none"
                   /\ \A i \in Idx(c.combos) : ComboOk(c, c.combos[i])

DomainOk(c) == TimeOk(c) /\ ScensOk(c)

(* the odometer: the member combination after x, the last group fastest      *)
Smallest(s) == CHOOSE y \in s : \A z \in s : y <= z
Above(g, x) == {y \in Members(g) : y > x}
FirstRun(c) == [j \in Idx(c.groups) |-> Smallest(Members(c.groups[j]))]
Turns(c, x) == {j \in Idx(c.groups) : Above(c.groups[j], x[j]) # {}}
HasNext(c, x) == Turns(c, x) # {}
NextRun(c, x) ==
  LET j == CHOOSE k \in Turns(c, x) : \A l \in Turns(c, x) : l <= k IN
  [i \in Idx(c.groups) |-> IF i < j THEN x[i]
                           ELSE IF i = j THEN Smallest(Above(c.groups[i], x[i]))
                           ELSE Smallest(Members(c.groups[i]))]

(* the number the simulation gives to member m of group j                    *)
Place(s, m) == (CHOOSE i \in Idx(s) : s[i] = m /\ \A k \in 1..(i - 1) : s[k] # m) - 1
SimIndex(c, j, m) ==
  IF c.hascombo THEN Cardinality({ComboOf(c, c.combos[i])[j] : i \in Idx(c.combos)} \cap (0..(m - 1)))
  ELSE Place(Chosen(c.groups[j]), m)

RECURSIVE Joined(_, _)
Joined(s, n) == IF n = 1 THEN s[1] ELSE Joined(s, n - 1) \o "-" \o s[n]

(* the run numbered k (from 0) simulates the members x                       *)
ScenV(c, k, x, o) ==
  LET lab == [j \in Idx(c.groups) |-> LabelOf(c.groups[j], x[j])] IN
  (IF o.sim = k THEN {} ELSE {<<"P10", "runs are numbered consecutively from zero", k, k, o.sim>>})
  \cup (IF o.schema = x THEN {} ELSE {<<"P10", "members of the groups simulated by the run", k, x, o.schema>>})
  \cup (IF o.labels = lab THEN {} ELSE {<<"P10", "labels of the run", k, lab, o.labels>>})
  \cup (IF o.label = Joined(lab, Len(lab)) THEN {} ELSE {<<"P10", "label of the run", k, lab, o.label>>})
  \cup (IF o.idx = [j \in Idx(c.groups) |-> SimIndex(c, j, x[j])] THEN {}
        ELSE {<<"P10", "indices of the run within the simulation", k, [j \in Idx(c.groups) |-> SimIndex(c, j, x[j])], o.idx>>})
(* the values that scenario-dependent parameters take in the run: con[j] the *)
(* constant per member of group j, arr[j] the series per member, both seen    *)
(* in every step                                                             *)
ScenValV(c, k, x, o) ==
  UNION {
    {<<"P10", "constant of the run's own member", <<k, j>>, c.con[j][x[j] + 1], o[t].con[j]>> :
        t \in {u \in Idx(o) : o[u].con[j] # c.con[j][x[j] + 1]}}
    \cup {<<"P10", "series of the run's own member", <<k, j, t>>, c.arr[j][t][x[j] + 1], o[t].arr[j]>> :
        t \in {u \in Idx(o) : o[u].arr[j] # c.arr[j][u][x[j] + 1]}}
    : j \in Idx(c.groups)}
=============================================================================
