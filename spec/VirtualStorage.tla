--------------------------- MODULE VirtualStorage ---------------------------
(* Virtual storages (licences): reset, activity, rolling window, use.       *)
(* Memory of one virtual storage: the usage volumes still in the window and *)
(* when it was last reset. A reset on a day of the year happens on the first *)
(* step that begins on or after this day.                                   *)
EXTENDS Network, Calendar

VsActive(v, d) ==
  LET p == v.act lo == p.sm * 100 + p.sd hi == p.em * 100 + p.ed x == d.mo * 100 + d.d IN
  CASE p.k = "always" -> TRUE
    [] p.k = "period" -> IF lo <= hi THEN lo <= x /\ x <= hi ELSE x >= lo \/ x <= hi

VsInit(v, mx) == InitVol(v, mx)
VsResetVol(v, mx) == IF v.rv = "max" THEN mx ELSE VsInit(v, mx)

VsMem0(v) == [hist |-> <<>>, last |-> 0, at |-> [y |-> 1, k |-> <<0, 0>>]]
VsWhen(d) == [y |-> d.y, k |-> <<DayNo(d.y, d.mo, d.d), (d.h * 60) + d.mi>>]
VsOlder(x, z) == x[1] < z[1] \/ (x[1] = z[1] /\ x[2] < z[2])
(* a day of the year has begun after x and no later than z                   *)
VsPassed(x, z, mo, d) ==
  \E y \in x.y..z.y : d <= DaysInMonth(mo, y) /\ LET k == <<DayNo(y, mo, d), 0>> IN VsOlder(x.k, k) /\ ~VsOlder(z.k, k)
Months(d) == d.y * 12 + d.mo

VsResets(v, m, t, d) ==
  \/ t = 1
  \/ ~VsActive(v, d)
  \/ v.reset.k = "doy" /\ VsPassed(m.at, VsWhen(d), v.reset.m, v.reset.d)
  \/ v.reset.k = "months" /\ Months(d) - m.last >= v.reset.n

(* the volume after a reset; the run starts from the initial volume         *)
VsAnew(v, mx, t) == IF t = 1 THEN VsInit(v, mx) ELSE VsResetVol(v, mx)

(* the window after a reset: the volume still missing is given back evenly  *)
VsFresh(v, mx, vol) == [j \in 1..v.win |-> DivR(mx - vol, v.win)]

(* beginning of a time-step: (volume, memory) -> (volume, memory)           *)
VsBegin(v, m, prevVol, mx, t, d) ==
  LET rs == VsResets(v, m, t, d)
      vol0 == IF rs THEN VsAnew(v, mx, t) ELSE prevVol
      h0 == IF rs /\ v.win > 0 THEN VsFresh(v, mx, vol0) ELSE m.hist
      back == v.win > 0 /\ Len(h0) >= v.win
  IN [vol |-> vol0 + (IF back THEN Head(h0) ELSE 0),
      reset |-> rs,
      mem |-> [hist |-> IF back THEN Tail(h0) ELSE h0, last |-> IF rs THEN Months(d) ELSE m.last, at |-> IF rs THEN VsWhen(d) ELSE m.at]]

VsFlow(c, a, i) == IF c.nodes[i].k = "out" THEN a.nin[i] ELSE a.nout[i]
VsUse(c, v, a, dt) ==
  MulDiv(SumTo([j \in Idx(v.mem) |-> Mul(v.fac[j], VsFlow(c, a, v.mem[j]))], Len(v.mem)), dt, S)

(* end of a time-step *)
VsEndVol(c, v, bvol, a, dt, d) == IF VsActive(v, d) THEN bvol - VsUse(c, v, a, dt) ELSE bvol
VsEndMem(c, v, m, a, dt, d) ==
  IF v.win > 0 /\ VsActive(v, d) THEN [m EXCEPT !.hist = Append(@, VsUse(c, v, a, dt))] ELSE m

(* rounding: each flow reading is off by at most half a thousandth          *)
VsTol(c, v, dt) == c.tol + 1 + (Len(v.mem) * ((dt \div S) + 1)) + DivR(MulDiv(SumTo([j \in Idx(v.mem) |-> Abs(v.fac[j])], Len(v.mem)), dt, S), S)

VsMx(c, v, b) == Val(v.mxv, b)
VsMn(c, v, b) == Val(v.mnv, b)

VsBeginV(c, mem, prev, b, t, d, dt) ==
  UNION {
    LET v == c.vss[g] mx == VsMx(c, v, b)
        r == VsBegin(v, mem[g], IF t = 1 THEN 0 ELSE prev.vsv[g], mx, t, d) IN
    IF Close(b.vsv[g], r.vol, VsTol(c, v, dt) + (IF v.win > 0 THEN v.win + 2 ELSE 0)) THEN {}
    ELSE {<<"P09", IF r.reset THEN "volume after a reset" ELSE "volume at the start of a step", g, r.vol, b.vsv[g]>>}
    : g \in Idx(c.vss) }

VsEndV(c, b, a, dt, d) ==
  UNION {
    LET v == c.vss[g] e == VsEndVol(c, v, b.vsv[g], a, dt, d) mx == VsMx(c, v, b) mn == VsMn(c, v, b) IN
    (IF Close(a.vsv[g], e, VsTol(c, v, dt)) THEN {}
       ELSE {<<IF VsActive(v, d) THEN "P08" ELSE "P09", "volume after the members' use", g, e, a.vsv[g]>>})
    \cup (IF Leq(mn, a.vsv[g], 1) /\ Leq(a.vsv[g], mx, 1) THEN {}
       ELSE {<<"P08", "virtual storage volume within its bounds", g, <<mn, mx>>, a.vsv[g]>>})
    \cup (IF ~VsActive(v, d) \/ Leq(VsUse(c, v, a, dt), b.vsv[g] - mn, VsTol(c, v, dt)) THEN {}
       ELSE {<<"P08", "members take more than is left", g, b.vsv[g] - mn, VsUse(c, v, a, dt)>>})
    \cup (IF ~IsNum(mx) \/ Close(a.vsp[g], Prop(a.vsv[g], mx), IF mx = 0 THEN 0 ELSE 2 + (S \div mx)) THEN {}
       ELSE {<<"P08", "proportional volume of the virtual storage", g, Prop(a.vsv[g], mx), a.vsp[g]>>})
    : g \in Idx(c.vss) }
=============================================================================
