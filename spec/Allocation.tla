----------------------------- MODULE Allocation -----------------------------
(* Which permitted flow pattern is chosen: one of least total cost.         *)
EXTENDS VirtualStorage

(* cost of a unit of flow through a node, including virtual storage costs   *)
NodeCost(c, b, i) ==
  LET n == c.nodes[i] x == Val(n.cost, b)
      vs == [j \in Idx(n.vs) |-> Val(c.vss[n.vs[j]].cost, b)] IN
  CASE n.ca = "none" -> x
    [] n.ca = "sum" -> x + SumSeq(vs)
    [] n.ca = "max" -> IF vs = <<>> THEN x ELSE Max2(x, MaxSeq(vs))
    [] n.ca = "min" -> IF vs = <<>> THEN x ELSE Min2(x, MinSeq(vs))

(* total cost in thousandths; storage: charged on filling, credited on use  *)
Cost(c, b, a) == SumTo([i \in Nodes(c) |-> MulDiv(NodeCost(c, b, i), Thru(c, a, i), S)], Len(c.nodes))

(* ---- the state a flow pattern on the edges leads to ------------------- *)
FlowsFrom(c, b, q, dt) ==
  LET nin == [i \in Nodes(c) |-> SumOver(LAMBDA e : q[e], c.nodes[i].ie)]
      nout == [i \in Nodes(c) |-> SumOver(LAMBDA e : q[e], c.nodes[i].oe)]
  IN [edge |-> q, nin |-> nin, nout |-> nout,
      vol |-> [i \in Nodes(c) |-> IF IsStore(c, i) THEN b.vol[i] + MulDiv(nin[i] - nout[i], dt, S) ELSE NAN]]

(* feasibility of a flow pattern: the same predicates a trace is held to    *)
Feasible(c, b, q, dt, d) ==
  LET a == FlowsFrom(c, b, q, dt) IN
  /\ \A e \in Idx(q) : q[e] >= 0
  /\ \A i \in Nodes(c) : c.nodes[i].k = "link" => Close(a.nin[i], a.nout[i], Len(c.nodes[i].ie) + Len(c.nodes[i].oe))
  /\ LimitsV(c, b, a) = {}
  /\ \A g \in Idx(c.aggs) : RelValid(c, b, c.aggs[g])
  /\ AggLimitsV(c, b, a) = {} /\ RelationV(c, b, a) = {} /\ ExclusiveV(c, b, a) = {}
  /\ \A i \in Nodes(c) : IsStore(c, i) =>
        Leq(MinVol(c, i, b), a.vol[i], 1) /\ Leq(a.vol[i], MaxVol(c, i, b), 1)
  /\ \A g \in Idx(c.vss) : VsActive(c.vss[g], d) =>
        LET e == VsEndVol(c, c.vss[g], b.vsv[g], a, dt, d) IN
        Leq(VsMn(c, c.vss[g], b), e, 1) /\ Leq(e, VsMx(c, c.vss[g], b), 1)

(* ---- optimality of pure networks: no augmenting cycle of negative cost *)
(* Vertices: 0 is the outside world; node i enters at 2i-1, leaves at 2i.  *)
EPS == 20       \* an arc counts as having room if it has this many thousandths
Arcs(c, b, a, dt) ==
  LET n == Len(c.nodes) m == Len(c.edges)
      Avail(i) == IF IsNum(MinVol(c, i, b)) THEN MulDiv(b.vol[i] - MinVol(c, i, b), S, dt) ELSE INF
      Room(i) == IF IsNum(MaxVol(c, i, b)) THEN MulDiv(MaxVol(c, i, b) - b.vol[i], S, dt) ELSE INF
      nodeArc(i) ==
        LET nd == c.nodes[i] k == NodeCost(c, b, i) IN
        CASE nd.k = "in"   -> [u |-> 0, v |-> 2 * i, w |-> k, q |-> a.nout[i], lo |-> Val(nd.mn, b), hi |-> Val(nd.mx, b)]
          [] nd.k = "out"  -> [u |-> 2 * i - 1, v |-> 0, w |-> k, q |-> a.nin[i], lo |-> Val(nd.mn, b), hi |-> Val(nd.mx, b)]
          [] nd.k = "link" -> [u |-> 2 * i - 1, v |-> 2 * i, w |-> k, q |-> a.nout[i], lo |-> Val(nd.mn, b), hi |-> Val(nd.mx, b)]
          [] nd.k = "sto"  -> [u |-> 2 * i, v |-> 0, w |-> k, q |-> a.nin[i] - a.nout[i], lo |-> -Avail(i), hi |-> Room(i)]
      edgeArc(e) ==
        LET f == c.edges[e][1] t == c.edges[e][2] IN
        [u |-> 2 * f, v |-> IF IsStore(c, t) THEN 2 * t ELSE 2 * t - 1, w |-> 0, q |-> a.edge[e], lo |-> 0, hi |-> INF]
  IN [j \in 1..(n + m) |-> IF j <= n THEN nodeArc(j) ELSE edgeArc(j - n)]

Residual(arcs) ==
  {<<arcs[j].u, arcs[j].v, arcs[j].w>> : j \in {x \in Idx(arcs) : ~IsNum(arcs[x].hi) \/ arcs[x].hi - arcs[x].q > EPS}}
  \cup {<<arcs[j].v, arcs[j].u, -arcs[j].w>> : j \in {x \in Idx(arcs) : ~IsNum(arcs[x].lo) \/ arcs[x].q - arcs[x].lo > EPS}}

(* Bellman-Ford from everywhere at once: k rounds of relaxation             *)
Relax(dist, res, V) ==
  [x \in V |-> LET ins == {e \in res : e[2] = x} cand == {dist[e[1]] + e[3] : e \in ins} \cup {dist[x]} IN
               CHOOSE y \in cand : \A z \in cand : y <= z]
RECURSIVE NegCycle(_, _, _, _)
NegCycle(dist, res, V, k) ==
  LET d2 == Relax(dist, res, V) IN
  IF d2 = dist THEN FALSE ELSE IF k = 0 THEN TRUE ELSE NegCycle(d2, res, V, k - 1)
HasNegCycle(c, b, a, dt) ==
  LET V == 0..(2 * Len(c.nodes)) IN
  NegCycle([x \in V |-> 0], Residual(Arcs(c, b, a, dt)), V, Cardinality(V) + 1)

(* ---- P06 -------------------------------------------------------------- *)
(* c.pure: no constraint other than balances, node limits and volumes.      *)
(* w: a rival flow pattern on the edges (or <<>>); it counts only if it is   *)
(* itself permitted and clearly cheaper.                                    *)
MARGIN(c) == 100 * (1 + Len(c.edges))
CheapestV(c, b, a, w, dt, d) ==
  (IF c.pure /\ HasNegCycle(c, b, a, dt)
     THEN {<<"P06", "flow can be rerouted at lower cost", 0, Cost(c, b, a), a.edge>>} ELSE {})
  \cup (IF w # <<>> /\ Feasible(c, b, w, dt, d) /\ Cost(c, b, FlowsFrom(c, b, w, dt)) < Cost(c, b, a) - MARGIN(c)
     THEN {<<"P06", "another permitted flow pattern is cheaper", w, Cost(c, b, FlowsFrom(c, b, w, dt)), Cost(c, b, a)>>} ELSE {})
=============================================================================
