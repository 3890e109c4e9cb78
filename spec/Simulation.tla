----------------------------- MODULE Simulation -----------------------------
(* One time-step of one scenario as a state machine:                        *)
(*   Begin    virtual storages are reset/recovered, "before" values computed *)
(*   Allocate a flow pattern of least cost among the permitted ones is taken *)
(*   End      volumes move, "after" values are computed, memories are pushed *)
(* A step is described by the snapshots b (before) and a (after); the       *)
(* obligations below say which pairs the specification permits, given the   *)
(* previous after-snapshot `prev` and the memory `mem` of the history-      *)
(* dependent parts. StepV(...) = {} iff the step is permitted.              *)
EXTENDS Params

Mem0(c) == [vs |-> [g \in Idx(c.vss) |-> VsMem0(c.vss[g])],
            par |-> [p \in Idx(c.pars) |-> ParMem0(c, c.pars[p])]]

Zero(n) == [i \in 1..n |-> 0]

(* one of several stores that are filled one after the other: its share of   *)
(* the total initial content is what the stores below it cannot hold         *)
InitVolB(n, mx, b) ==
  IF n.iv.k # "dist" THEN InitVol(n, mx)
  ELSE Clamp((IF n.iv.abs THEN n.iv.v ELSE Mul(n.iv.v, Val(n.iv.tot, b))) - Val(n.iv.pr, b), 0, mx)

(* ---- P14 / P02: what is seen at the beginning of a step --------------- *)
SeenV(c, prev, b, t) ==
  (IF t = 1 THEN
     {<<"P14", "no flow before the first allocation", i, 0, <<b.nin[i], b.nout[i]>> >> :
        i \in {x \in Nodes(c) : b.nin[x] # 0 \/ b.nout[x] # 0}}
     \cup {<<"P14", "no flow on an edge before the first allocation", e, 0, b.edge[e]>> : e \in {x \in Edges(c) : b.edge[x] # 0}}
     \cup UNION {LET n == c.nodes[i] v == InitVolB(n, Val(n.mxv, b), b) mx == Val(n.mxv, b) IN
        (IF Close(b.vol[i], v, c.tol) THEN {} ELSE {<<"P02", "initial volume", i, v, b.vol[i]>>})
        \cup (IF ~IsNum(mx) \/ Close(b.pvol[i], Prop(v, mx), IF mx = 0 THEN 0 ELSE 2 + (S \div mx)) THEN {}
              ELSE {<<"P02", "initial proportional volume", i, Prop(v, mx), b.pvol[i]>>})
        : i \in {x \in Nodes(c) : IsStore(c, x)}}
   ELSE
     {<<"P14", "flows of the previous step are seen before the allocation", i, <<prev.nin[i], prev.nout[i]>>, <<b.nin[i], b.nout[i]>> >> :
        i \in {x \in Nodes(c) : b.nin[x] # prev.nin[x] \/ b.nout[x] # prev.nout[x]}}
     \cup {<<"P14", "edge flows of the previous step are seen before the allocation", e, prev.edge[e], b.edge[e]>> :
        e \in {x \in Edges(c) : b.edge[x] # prev.edge[x]}}
     \cup {<<"P14", "volume at the end of the previous step is seen before the allocation", i, prev.vol[i], b.vol[i]>> :
        i \in {x \in Nodes(c) : IsStore(c, x) /\ b.vol[x] # prev.vol[x]}}
     \cup {<<"P14", "proportional volume of the previous step is seen before the allocation", i, prev.pvol[i], b.pvol[i]>> :
        i \in {x \in Nodes(c) : IsStore(c, x) /\ b.pvol[x] # prev.pvol[x]}}
     \cup {<<"P14", "group flows of the previous step are seen before the allocation", g, <<prev.aggin[g], prev.aggout[g]>>, <<b.aggin[g], b.aggout[g]>> >> :
        g \in {x \in Idx(c.aggs) : b.aggin[x] # prev.aggin[x] \/ b.aggout[x] # prev.aggout[x]}}
     \cup {<<"P14", "total volume of the previous step is seen before the allocation", g, prev.asv[g], b.asv[g]>> :
        g \in {x \in Idx(c.ast) : b.asv[x] # prev.asv[x]}})

StepV(c, s, mem, prev, b, a, t, w) ==
  LET d == c.times[t] dt == d.dt IN
  SeenV(c, prev, b, t)
  \cup VsBeginV(c, mem.vs, prev, b, t, d, dt)
  \cup ParBeforeV(c, s, mem.par, prev, b, t)
  \cup BalanceV(c, b, a, dt)
  \cup StoreBoundsV(c, b, a)
  \cup LimitsV(c, b, a)
  \cup AggLimitsV(c, b, a) \cup RelationV(c, b, a) \cup ExclusiveV(c, b, a)
  \cup VsEndV(c, b, a, dt, d)
  \cup DerivedV(c, b, a)
  \cup ParAfterV(c, s, mem.par, b, a, t)
  \cup CheapestV(c, b, a, w, dt, d)

(* memory at the end of the step *)
NextMem(c, s, mem, prev, b, a, t) ==
  LET d == c.times[t] dt == d.dt IN
  [vs |-> [g \in Idx(c.vss) |->
             LET v == c.vss[g] r == VsBegin(v, mem.vs[g], IF t = 1 THEN 0 ELSE prev.vsv[g], VsMx(c, v, b), t, d) IN
             VsEndMem(c, v, r.mem, a, dt, d)],
   par |-> [p \in Idx(c.pars) |-> ParNextMem(c, c.pars[p], mem.par[p], b, a, p)]]
=============================================================================
