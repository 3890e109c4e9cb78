------------------------------ MODULE Network ------------------------------
(* The network of nodes and edges: what a metric means in a snapshot of the *)
(* state, and which flow patterns are permitted on a time-step.             *)
(*                                                                          *)
(* A case c declares  nodes, edges, aggs (aggregated nodes), vss (virtual   *)
(* storages), ast (aggregated storages), pars (parameters).  A snapshot r   *)
(* is a record of what can be read at one moment of a time-step:            *)
(*   nin nout vol pvol mxv mxf edge par aggin aggout asv asp vsv vsp        *)
(* Operators named ...V return the set of violated obligations, each        *)
(* <<property, what, where, expected, observed>>; {} means "permitted".     *)
EXTENDS Num, TLC

Nodes(c) == Idx(c.nodes)
Edges(c) == Idx(c.edges)
Kind(c, i) == c.nodes[i].k
IsStore(c, i) == c.nodes[i].k = "sto"

(* ---- metrics -------------------------------------------------------- *)
Val(m, r) ==
  CASE m.k = "lit"  -> m.v
    [] m.k = "par"  -> r.par[m.i]
    [] m.k = "nin"  -> r.nin[m.i]
    [] m.k = "nout" -> r.nout[m.i]
    [] m.k = "vol"  -> r.vol[m.i]
    [] m.k = "pvol" -> r.pvol[m.i]
    [] m.k = "mxv"  -> r.mxv[m.i]
    [] m.k = "mxf"  -> r.mxf[m.i]
    [] m.k = "edge" -> r.edge[m.i]
    [] m.k = "aggin" -> r.aggin[m.i]
    [] m.k = "aggout" -> r.aggout[m.i]
    [] m.k = "asv"  -> r.asv[m.i]
    [] m.k = "asp"  -> r.asp[m.i]
    [] m.k = "vsv"  -> r.vsv[m.i]
    [] m.k = "vsp"  -> r.vsp[m.i]
    [] m.k = "ext"  -> r.ext[m.i]

(* flow counted through a node by limits on it *)
Thru(c, a, i) ==
  CASE c.nodes[i].k = "in"   -> a.nout[i]
    [] c.nodes[i].k = "link" -> a.nout[i]
    [] c.nodes[i].k = "out"  -> a.nin[i]
    [] c.nodes[i].k = "sto"  -> a.nin[i] - a.nout[i]

InSum(c, a, i) == SumOver(LAMBDA e : a.edge[e], c.nodes[i].ie)
OutSum(c, a, i) == SumOver(LAMBDA e : a.edge[e], c.nodes[i].oe)

(* ---- P01 water balance ---------------------------------------------- *)
(* tol: thousandths per unit of flow; an edge reading may be off by half    *)
FlowTol(c, n) == c.tol + n
BalanceV(c, b, a, dt) ==
  UNION {
    LET n == c.nodes[i] ti == FlowTol(c, Len(n.ie)) to == FlowTol(c, Len(n.oe)) IN
    (IF Close(a.nin[i], InSum(c, a, i), ti) THEN {}
       ELSE {<<"P01", "inflow is the sum of the incoming edges", i, InSum(c, a, i), a.nin[i]>>})
    \cup (IF Close(a.nout[i], OutSum(c, a, i), to) THEN {}
       ELSE {<<"P01", "outflow is the sum of the outgoing edges", i, OutSum(c, a, i), a.nout[i]>>})
    \cup (IF n.k # "link" \/ Close(a.nin[i], a.nout[i], c.tol) THEN {}
       ELSE {<<"P01", "a link passes on what it receives", i, a.nin[i], a.nout[i]>>})
    \cup (IF n.k # "sto" THEN {}
       ELSE LET e == b.vol[i] + MulDiv(a.nin[i] - a.nout[i], dt, S) IN
            IF Close(a.vol[i], e, c.tol + 2 * DivR(dt, S)) THEN {}
            ELSE {<<"P01", "volume changes by net inflow times the step", i, e, a.vol[i]>>})
    : i \in Nodes(c) }
  \cup {<<"P01", "edge flow is not negative", e, 0, a.edge[e]>> : e \in {x \in Edges(c) : a.edge[x] < -c.tol \/ ~IsNum(a.edge[x])}}

(* ---- P02 storage bounds ----------------------------------------------*)
MinVol(c, i, b) == Val(c.nodes[i].mnv, b)
MaxVol(c, i, b) == Val(c.nodes[i].mxv, b)
InitVol(n, mx) == IF n.iv.k = "abs" THEN n.iv.v ELSE Mul(n.iv.v, mx)
Prop(v, mx) == IF mx = 0 THEN S ELSE IF Abs(v) < 2000000 THEN DivR(v * S, mx) ELSE MulDiv(v, S, mx)

VolTol(c) == IF c.tol <= 2 THEN 1 ELSE c.tol    \* exact solvers leave no more than the rounding
StoreBoundsV(c, b, a) ==
  UNION {
    LET mn == MinVol(c, i, b) mx == MaxVol(c, i, b) IN
    (IF Leq(mn, a.vol[i], VolTol(c)) /\ Leq(a.vol[i], mx, VolTol(c)) THEN {}
       ELSE {<<"P02", "volume within its bounds", i, <<mn, mx>>, a.vol[i]>>})
    \cup (IF mx = INF \/ Close(a.pvol[i], Prop(a.vol[i], mx), IF mx = 0 THEN 0 ELSE 2 + (S \div mx)) THEN {}
       ELSE {<<"P02", "proportional volume is volume over maximum volume", i, Prop(a.vol[i], mx), a.pvol[i]>>})
    \cup (IF Close(a.mxv[i], mx, 1) THEN {}
       ELSE {<<"P02", "reported maximum volume", i, mx, a.mxv[i]>>})
    : i \in {j \in Nodes(c) : IsStore(c, j)} }

(* ---- P03 node flow limits -------------------------------------------- *)
(* a member of an exclusive group may be switched off: see ExclusiveV       *)
LimitsV(c, b, a) ==
  UNION {
    LET n == c.nodes[i] q == Thru(c, a, i) mn == Val(n.mn, b) mx == Val(n.mx, b) IN
    IF (Leq(mn, q, c.tol) /\ Leq(q, mx, c.tol)) \/ (n.ex /\ Close(q, 0, c.tol)) THEN {}
    ELSE {<<IF n.ex THEN "P05" ELSE "P03", "flow within the node's limits", i, <<mn, mx>>, q>>}
    : i \in {j \in Nodes(c) : ~IsStore(c, j)} }

(* ---- P04 aggregated nodes -------------------------------------------- *)
MemFlow(c, a, mem) == SumOver(LAMBDA i : Thru(c, a, i), mem)
NMem(ag) == SumOver(LAMBDA m : Len(m), ag.mem)
AggTotal(c, a, ag) == SumOver(LAMBDA m : MemFlow(c, a, m), ag.mem)

AggLimitsV(c, b, a) ==
  UNION {
    LET ag == c.aggs[g] q == AggTotal(c, a, ag) mn == Val(ag.mn, b) mx == Val(ag.mx, b)
        tol == c.tol + NMem(ag) IN
    IF Leq(mn, q, tol) /\ Leq(q, mx, tol) THEN {}
    ELSE {<<"P04", "group flow within the group's limits", g, <<mn, mx>>, q>>}
    : g \in Idx(c.aggs) }

(* pairwise relation  f1 * q0 = f0 * q1 ; factors are thousandths           *)
(* factors that mean something: a ratio may not be negative, proportions     *)
(* leave something for the first member                                     *)
RelValid(c, b, ag) ==
  LET rel == ag.rel n == Len(ag.mem) IN
  CASE rel.k = "ratio" -> Len(rel.f) = n /\ \A j \in Idx(rel.f) : Val(rel.f[j], b) >= 0
    [] rel.k = "prop" -> Len(rel.f) = n - 1 /\ (\A j \in Idx(rel.f) : Val(rel.f[j], b) >= 0)
                         /\ SumTo([j \in Idx(rel.f) |-> Val(rel.f[j], b)], Len(rel.f)) < S
    [] rel.k = "coef" -> n = 2 /\ Len(rel.f) = 2
    [] OTHER -> TRUE

RelTol(c, f0, f1) == 4 + (Abs(f0) + Abs(f1)) \div 400
RelationV(c, b, a) ==
  UNION {
    LET ag == c.aggs[g] rel == ag.rel n == Len(ag.mem)
        Q(j) == MemFlow(c, a, ag.mem[j]) IN
    CASE ~RelValid(c, b, ag) -> {<<"P04", "a flow pattern is reported although the factors are invalid", g, 0, 0>>}
      [] RelValid(c, b, ag) /\ rel.k = "ratio" ->
           LET F(j) == Val(rel.f[j], b) IN
           {<<"P04", "member flows are in the declared ratio", <<g, j>>, Mul(F(j), Q(1)), Mul(F(1), Q(j))>> :
              j \in {x \in 2..n : ~Close(Mul(F(x), Q(1)), Mul(F(1), Q(x)), RelTol(c, F(1), F(x)))}}
      [] RelValid(c, b, ag) /\ rel.k = "prop" ->
           LET P(j) == Val(rel.f[j - 1], b)
               f0 == S - SumTo([j \in 1..(n - 1) |-> Val(rel.f[j], b)], n - 1) IN
           {<<"P04", "member flows are in the declared proportion", <<g, j>>, Mul(P(j), Q(1)), Mul(f0, Q(j))>> :
              j \in {x \in 2..n : ~Close(Mul(P(x), Q(1)), Mul(f0, Q(x)), RelTol(c, f0, P(x)))}}
      [] RelValid(c, b, ag) /\ rel.k = "coef" ->
           LET f0 == Val(rel.f[1], b) f1 == Val(rel.f[2], b) rhs == Val(rel.rhs, b)
               lhs == Mul(f0, Q(1)) + Mul(f1, Q(2)) IN
           IF Close(lhs, rhs, RelTol(c, f0, f1)) THEN {}
           ELSE {<<"P04", "weighted member flows equal the right-hand side", g, rhs, lhs>>}
      [] OTHER -> {}
    : g \in Idx(c.aggs) }

(* ---- P05 exclusive groups -------------------------------------------- *)
(* Some set On of members is switched on: its size is within the declared   *)
(* range, members outside carry nothing, members inside respect limits.     *)
MemOff(c, a, mem) == \A j \in Idx(mem) : Close(Thru(c, a, mem[j]), 0, c.tol)
MemOnOk(c, b, a, mem) ==
  \A j \in Idx(mem) : LET n == c.nodes[mem[j]] q == Thru(c, a, mem[j]) IN
     Leq(Val(n.mn, b), q, c.tol) /\ Leq(q, Val(n.mx, b), c.tol)
ExclusiveV(c, b, a) ==
  UNION {
    LET ag == c.aggs[g]
        must == {j \in Idx(ag.mem) : ~MemOff(c, a, ag.mem[j])}        \* carrying flow
        can  == {j \in Idx(ag.mem) : MemOnOk(c, b, a, ag.mem[j])}     \* may be on
    IN
    IF ag.rel.k # "excl" THEN {}
    ELSE (IF Cardinality(must) <= ag.rel.maxa THEN {}
            ELSE {<<"P05", "too many active members", g, ag.rel.maxa, Cardinality(must)>>})
         \cup (IF must \subseteq can THEN {} ELSE {<<"P05", "an active member breaks its own limits", g, can, must>>})
         \cup (IF Cardinality(can) >= ag.rel.mina THEN {}
            ELSE {<<"P05", "too few active members", g, ag.rel.mina, Cardinality(can)>>})
    : g \in Idx(c.aggs) }

(* ---- P29 derived quantities ------------------------------------------ *)
MemberIdx(ag) == UNION {{ag.mem[j][x] : x \in Idx(ag.mem[j])} : j \in Idx(ag.mem)}
DerivedV(c, b, a) ==
  UNION {
    LET ag == c.aggs[g] tol == c.tol + NMem(ag)
        i0 == SumOver(LAMBDA m : SumOver(LAMBDA i : a.nin[i], m), ag.mem)
        o0 == SumOver(LAMBDA m : SumOver(LAMBDA i : a.nout[i], m), ag.mem) IN
    (IF Close(a.aggin[g], i0, tol) THEN {} ELSE {<<"P29", "group inflow", g, i0, a.aggin[g]>>})
    \cup (IF Close(a.aggout[g], o0, tol) THEN {} ELSE {<<"P29", "group outflow", g, o0, a.aggout[g]>>})
    : g \in Idx(c.aggs) }
  \cup UNION {
    LET st == c.ast[g] v == SumOver(LAMBDA i : a.vol[i], st.mem) m == SumOver(LAMBDA i : a.mxv[i], st.mem) IN
    (IF Close(a.asv[g], v, c.tol + Len(st.mem)) THEN {} ELSE {<<"P29", "total volume", g, v, a.asv[g]>>})
    \cup (IF ~IsNum(m) \/ Close(a.asp[g], Prop(v, m), IF m = 0 THEN 0 ELSE 3 + ((3 * S) \div m)) THEN {}
          ELSE {<<"P29", "total proportional volume", g, Prop(v, m), a.asp[g]>>})
    : g \in Idx(c.ast) }
  \cup UNION {
    LET mx == Val(c.nodes[i].mx, a) IN
    IF Close(a.mxf[i], mx, c.tol) THEN {} ELSE {<<"P29", "reported maximum flow", i, mx, a.mxf[i]>>}
    : i \in {j \in Nodes(c) : ~IsStore(c, j)} }
============================================================================
