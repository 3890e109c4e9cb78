----------------------------- MODULE Composite -----------------------------
(* Higher-level nodes of a model file. A case is the network of basic nodes  *)
(* that the documentation of the higher-level nodes describes; what a user   *)
(* can read of it are the reports, c.reps: the flow into, out of and lost in  *)
(* a node, flows between nodes, volumes. The flows inside are hidden: a step  *)
(* is permitted if some permitted flow pattern of the hidden network has      *)
(* exactly the reported values. The pattern itself comes with the trace as a  *)
(* certificate and is held to every rule of Simulation here.                 *)
(*   c.routes: reaches in which water is delayed, with their initial content  *)
EXTENDS Simulation

RepVal(c, a, r) ==
  CASE r.k = "sum" -> SumOver(LAMBDA m : Val(m, a), r.t)
    [] r.k = "prop" -> LET mx == SumOver(LAMBDA m : Val([k |-> "mxv", i |-> m.i], a), r.t) IN Prop(SumOver(LAMBDA m : Val(m, a), r.t), mx)
    [] r.k = "power" -> Mul(Val(r.t[1], a), Val(r.t[2], a))
RepTol(c, a, r) ==
  CASE r.k = "sum" -> c.tol + (2 * Len(r.t))
    [] r.k = "prop" -> LET mx == SumOver(LAMBDA m : Val([k |-> "mxv", i |-> m.i], a), r.t) IN IF mx = 0 THEN 0 ELSE 2 + ((Len(r.t) * 2 * S) \div mx)
    [] r.k = "power" -> 4 + (3 * ((Abs(Val(r.t[1], a)) + Abs(Val(r.t[2], a))) \div S))
ReportsV(c, a, rep) ==
  {<<"P30", "reported value of a node", c.reps[r].n, RepVal(c, a, c.reps[r]), rep[r]>> :
     r \in {x \in Idx(c.reps) : ~Close(RepVal(c, a, c.reps[x]), rep[x], RepTol(c, a, c.reps[x]))}}

(* ---- water that is under way ----------------------------------------- *)
RouteIn(rt, a) == SumOver(LAMBDA m : Val(m, a), rt.inp)
RouteOut(rt, a) == SumOver(LAMBDA m : Val(m, a), rt.out)
Led0(c) == [r \in Idx(c.routes) |-> [i |-> 0, o |-> 0, w |-> c.routes[r].w]]
NextLed(c, led, a, t) ==
  [r \in Idx(c.routes) |-> LET rt == c.routes[r] IN
     [i |-> led[r].i + RouteIn(rt, a), o |-> led[r].o + RouteOut(rt, a),
      w |-> IF t = 1 THEN led[r].w + Mul(rt.steady, RouteIn(rt, a)) ELSE led[r].w]]
LedgerV(c, led, t) ==
  {<<"P28", "water routed out exceeds the water routed in and the initial content", r, led[r].i + led[r].w, led[r].o>> :
     r \in {x \in Idx(c.routes) : led[x].o > led[x].i + led[x].w + ((c.tol + 2) * (t + 2))}}

CompStepV(c, s, mem, prev, b, a, t, w, rep) ==
  LET d == c.times[t] dt == d.dt IN
  SeenV(c, prev, b, t)
  \cup VsBeginV(c, mem.vs, prev, b, t, d, dt)
  \cup ParBeforeV(c, s, mem.par, prev, b, t)
  \cup BalanceV(c, b, a, dt)
  \cup StoreBoundsV(c, b, a)
  \cup LimitsV(c, b, a)
  \cup AggLimitsV(c, b, a) \cup RelationV(c, b, a)
  \cup VsEndV(c, b, a, dt, d)
  \cup ParAfterV(c, s, mem.par, b, a, t)
  \cup CheapestV(c, b, a, w, dt, d)
  \cup ReportsV(c, a, rep)
=============================================================================
