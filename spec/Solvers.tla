------------------------------ MODULE Solvers ------------------------------
(* One model, several solvers. Each execution follows the Simulation           *)
(* specification on its own trajectory; what the solvers have to agree on is   *)
(*   - whether they take the model on at all (the features it needs),          *)
(*   - whether the first time-step has a permitted allocation,                 *)
(*   - the total cost of that allocation,                                      *)
(*   - every flow and volume of the run, where each allocation is the only     *)
(*     one of least cost (c.unique).                                           *)
EXTENDS Simulation

CTol(c, e, b) ==    \* what the allowed errors of the flows can cost
  50 + SumTo([i \in Nodes(c) |-> ((Abs(NodeCost(c, b, i)) \div S) + 1) * (e.tol + Len(c.nodes[i].ie) + Len(c.nodes[i].oe))], Len(c.nodes))

Needs(c) ==
  (IF c.aggs # <<>> THEN {"AggregatedNode"} ELSE {})
  \cup (IF \E g \in Idx(c.aggs) : c.aggs[g].rel.k \in {"prop", "ratio", "coef"} THEN {"AggregatedNodeFactors"} ELSE {})
  \cup (IF \E g \in Idx(c.aggs) : LET r == c.aggs[g].rel IN r.k \in {"prop", "ratio", "coef"} /\ \E j \in Idx(r.f) : r.f[j].k # "lit" THEN {"AggregatedNodeDynamicFactors"} ELSE {})
  \cup (IF \E g \in Idx(c.aggs) : c.aggs[g].rel.k = "excl" THEN {"MutualExclusivity"} ELSE {})
  \cup (IF c.vss # <<>> THEN {"VirtualStorage"} ELSE {})
Supports(c, e) == Needs(c) \subseteq {e.can[j] : j \in Idx(e.can)}

(* a solver that has no minimum flows (known: ipm-ignores-minimum-flow) solves *)
(* another problem where there are any: its executions are only their own      *)
HasMins(c) == \E i \in Nodes(c) : ~IsStore(c, i) /\ ~(c.nodes[i].mn.k = "lit" /\ c.nodes[i].mn.v <= 0)
Deaf(c, e) == e.nomin /\ HasMins(c)
DeafV(c, e, b, v) == IF Deaf(c, e) /\ v[2] = "flow within the node's limits" /\ v[5] < v[4][1] THEN <<"P07", "known:ipm-ignores-minimum-flow", v[3], v[4], v[5]>> ELSE v

(* an execution ended as: "ok", "refused" (when set up), "stopped" (on step e.ft) *)
EndV(c, e, r) ==
  (IF e.end = "refused" /\ Supports(c, e) THEN {<<"P07", "a solver that supports the model refuses it", e.tag, 0, 0>>} ELSE {})
  \cup (IF e.end # "refused" /\ ~Supports(c, e) THEN {<<"P07", "a solver takes on a model that needs more than it supports", e.tag, 0, 0>>} ELSE {})
  \cup (IF e.exact /\ r.exact /\ Supports(c, e) /\ e.end # "refused" /\ r.end # "refused" /\ e.ft # r.ft /\ (c.unique \/ e.ft = 1 \/ r.ft = 1)
          THEN {<<"P07", "one solver finds an allocation where the other finds none", <<r.tag, e.tag>>, r.ft, e.ft>>} ELSE {})

(* the same state is seen, and what is made of it is equally good            *)
FirstV(c, e, r, b, a, rb, ra) ==
  (IF b.par = rb.par /\ b.vol = rb.vol /\ b.vsv = rb.vsv THEN {} ELSE {<<"P07", "the solvers start from the same state", <<r.tag, e.tag>>, <<rb.par, rb.vol, rb.vsv>>, <<b.par, b.vol, b.vsv>> >>})
  \cup (LET x == Cost(c, rb, ra) y == Cost(c, b, a) IN
        IF Close(x, y, CTol(c, e, b) + CTol(c, r, b)) THEN {} ELSE {<<"P07", "total cost of the first allocation", <<r.tag, e.tag>>, x, y>>})

SameV(c, e, r, a, ra, t) ==
  LET tol == (e.tol + r.tol + 2) * (t + 1) IN
  {<<"P07", "the only least-cost allocation: flow of a node", <<r.tag, e.tag, i>>, <<ra.nin[i], ra.nout[i]>>, <<a.nin[i], a.nout[i]>> >> :
     i \in {x \in Nodes(c) : ~IsStore(c, x) /\ ~(Close(a.nin[x], ra.nin[x], tol) /\ Close(a.nout[x], ra.nout[x], tol))}}
  \cup {<<"P07", "the only least-cost allocation: volume", <<r.tag, e.tag, i>>, ra.vol[i], a.vol[i]>> :
     i \in {x \in Nodes(c) : IsStore(c, x) /\ ~Close(a.vol[x], ra.vol[x], tol * (1 + DivR(c.times[t].dt, S)))}}
=============================================================================
