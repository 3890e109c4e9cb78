----------------------------- MODULE Wellformed -----------------------------
(* What a declared network must satisfy to be built, and what building it   *)
(* means. A declaration is                                                   *)
(*   decl   the declared names, in order:   [ns, n, k, has]  (name space,    *)
(*          name, kind, optional parts); names are unique in their space     *)
(*   refs   the references made:            [ns, n, ks, by, q, w]  (the name *)
(*          n of name space ns, of one of the kinds ks - any if empty - used *)
(*          by the declared thing by, for its quality q: the attribute,      *)
(*          component or connection slot w)                                  *)
(*   deps   for each parameter, the parameters it needs: [n, on]             *)
(*   conn   whether connections are checked; then edges is a sequence of     *)
(*          [f, t] over the names of name space "node"                       *)
(*   odd    other rules broken by one declaration alone: [n]                 *)
(* The builder is a machine: it registers the declarations one by one, then  *)
(* checks the references, then resolves parameters in rounds - a parameter   *)
(* becomes available once everything it needs is - until nothing changes.    *)
(* It refuses the network if anything was wrong on the way.                  *)
EXTENDS Num

(* ---- registering ---- *)
NameSpaces == {"node", "agg", "ast", "vs", "par", "mset", "rec", "table", "ts", "scen", "edge", "lpar", "xfer", "net"}
NoNames == [s \in NameSpaces |-> <<>>]
DeclareFault(reg, d) == \E j \in Idx(reg[d.ns]) : reg[d.ns][j].n = d.n
(* the names declared twice in a name space *)
TwiceIn(c, ns) == {c.decl[i].n : i \in {j \in Idx(c.decl) : c.decl[j].ns = ns /\ \E m \in 1..(j - 1) : c.decl[m].ns = ns /\ c.decl[m].n = c.decl[j].n}}
Register(reg, d) == [reg EXCEPT ![d.ns] = Append(@, d)]

(* ---- what a node of a model file offers to those who refer to it ---- *)
Has(d, x) == \E j \in Idx(d.has) : d.has[j] = x
Through == {"Link", "PiecewiseLink", "Delay", "RiverGauge", "RiverSplitWithGauge", "Turbine"}
Lossy == {"LossLink", "River", "WaterTreatmentWorks"}
Stores == {"Storage", "PiecewiseStorage", "Reservoir"}
Attributes(d) ==
  CASE d.k \in Through \ {"Turbine"} -> {"Inflow", "Outflow"}
    [] d.k = "Turbine" -> {"Inflow", "Outflow", "Power"}
    [] d.k \in Lossy -> {"Inflow", "Outflow", "Loss"}
    [] d.k \in {"Input", "Catchment"} -> {"Outflow"}
    [] d.k = "Output" -> {"Inflow", "Deficit"}
    [] d.k = "Abstraction" -> {"Inflow", "Outflow", "Abstraction"}
    [] d.k = "Storage" -> {"Volume", "ProportionalVolume", "MaxVolume"}
    [] d.k = "PiecewiseStorage" -> {"Volume", "ProportionalVolume"}
    [] d.k = "Reservoir" -> {"Volume", "ProportionalVolume", "MaxVolume", "Compensation", "Rainfall", "Evaporation"}
    [] d.k = "Aggregated" -> {"Inflow", "Outflow"}
    [] d.k \in {"AggregatedStorage", "VirtualStorage"} -> {"Volume", "ProportionalVolume"}
    [] OTHER -> {}
(* the flows of a node that groups and licences can limit; "" is the default *)
Components(d) ==
  CASE d.k \in Through -> {"", "Inflow", "Outflow"}
    [] d.k \in Lossy -> {"", "Inflow", "Outflow"} \cup (IF d.k # "WaterTreatmentWorks" \/ Has(d, "Loss") THEN {"Loss"} ELSE {})
    [] d.k \in {"Input", "Catchment"} -> {"", "Outflow"}
    [] d.k = "Output" -> {"", "Inflow"}
    [] d.k = "Abstraction" -> {"", "Inflow", "Outflow", "Abstraction"}
    [] d.k = "Reservoir" -> {x \in {"Compensation", "Rainfall", "Evaporation", "Loss"} : Has(d, x)} \cup (IF Has(d, "Compensation") THEN {""} ELSE {})
    [] OTHER -> {}
(* connections: "" is the default slot *)
SlotsOut(d) ==
  CASE d.k = "Output" -> {}
    [] d.k = "Reservoir" -> {"", "Storage"} \cup {x \in {"Spill", "Compensation"} : Has(d, x)}
    [] d.k = "Abstraction" -> {"", "River", "Abstraction"}
    [] d.k = "RiverSplitWithGauge" -> {"", "River"} \cup {d.has[j] : j \in Idx(d.has)}
    [] OTHER -> {""}
SlotsIn(d) == IF d.k \in {"Input", "Catchment"} THEN {} ELSE {""}
Virtual == {"Aggregated", "AggregatedStorage", "VirtualStorage"}
(* parameters give numbers, whole numbers (which are numbers too) or several  *)
(* numbers under keys; no kind of a model file gives keys                     *)
Whole(d) == \/ d.k \in {"AggregatedIndex", "AsymmetricSwitchIndex", "ControlCurveIndex", "DelayIndex", "RollingIndex"}
            \/ d.k \in {"Threshold", "MultiThreshold"} /\ ~Has(d, "returned")
            \/ d.k = "array" /\ Has(d, "index")
Offers(d, r) == CASE r.q = "attribute" -> d.k \notin Virtual /\ (r.w = "" \/ r.w \in Attributes(d))
                  [] r.q = "vattribute" -> d.k \in Virtual /\ (r.w = "" \/ r.w \in Attributes(d))
                  [] r.q = "none" -> FALSE      (* no node has a whole-number attribute *)
                  [] r.q = "component" -> r.w \in Components(d)
                  [] r.q = "store" -> d.k \in Stores
                  [] r.q = "out" -> d.k \notin Virtual /\ r.w \in SlotsOut(d)
                  [] r.q = "in" -> d.k \notin Virtual /\ r.w \in SlotsIn(d)
                  [] r.q = "number" -> r.w = ""
                  [] r.q = "whole" -> r.w = "" /\ Whole(d)
                  [] OTHER -> TRUE
(* a slot stands for parts of its node; the main slot of a split covers the   *)
(* splits too, and a split may be addressed by position or by name            *)
NodeOf(reg, n) == LET ds == {j \in Idx(reg["node"]) : reg["node"][j].n = n} IN
  IF ds = {} THEN [ns |-> "node", n |-> n, k |-> "?", has |-> <<>>] ELSE reg["node"][CHOOSE j \in ds : TRUE]
SplitsOf(d) == {x \in Idx(d.has) : d.has[x] \in {"Split 0", "Split 1", "Split 2", "Split 3"}}
Parts(d, sl) ==
  CASE d.k = "Reservoir" -> {IF sl = "Storage" THEN "" ELSE sl}
    [] d.k = "Abstraction" -> {IF sl = "River" THEN "" ELSE sl}
    [] d.k = "RiverSplitWithGauge" ->
         IF sl \in {"", "River"} THEN {""} \cup {d.has[j] : j \in SplitsOf(d)}
         ELSE LET at == {j \in Idx(d.has) : d.has[j] = sl} IN
              IF at = {} THEN {sl} ELSE LET j == CHOOSE x \in at : \A y \in at : x <= y IN {IF j \in SplitsOf(d) THEN sl ELSE d.has[j - 1]}
    [] OTHER -> {sl}
Joins(reg, e) == {<<a, b>> : a \in Parts(NodeOf(reg, e.f), e.fs), b \in Parts(NodeOf(reg, e.t), e.ts)}
SameEdge(reg, a, b) == a.f = b.f /\ a.t = b.t /\ Joins(reg, a) \cap Joins(reg, b) # {}
JoinedBy(c, reg, f, t) == UNION {IF c.edges[i].f = f /\ c.edges[i].t = t THEN Joins(reg, c.edges[i]) ELSE {} : i \in Idx(c.edges)}

(* ---- references ---- *)
Meets(d, r) == d.n = r.n /\ (r.ks = <<>> \/ \E j \in Idx(r.ks) : r.ks[j] = d.k) /\ Offers(d, r)
RefFault(c, reg, r) == IF r.q = "edge" THEN ~(Joins(reg, [f |-> r.n, t |-> r.w, fs |-> r.fs, ts |-> r.ts]) \subseteq JoinedBy(c, reg, r.n, r.w))
                       ELSE ~\E j \in Idx(reg[r.ns]) : Meets(reg[r.ns][j], r)
RefFaults(c, reg, r) == IF RefFault(c, reg, r) THEN {r.n, r.by} \cup (IF r.q = "edge" THEN {r.w} ELSE {}) ELSE {}

(* ---- connections: who may be connected to what ---- *)
NodeKinds == {"in", "out", "link", "sto"}
TakesIn(k) == k # "in"
GivesOut(k) == k # "out"
NeedsIn(k) == k \in {"out", "link"}
NeedsOut(k) == k \in {"in", "link"}
Known(reg, n) == \E j \in Idx(reg["node"]) : reg["node"][j].n = n
EdgeFaults(c, reg, i) == LET e == c.edges[i] IN
     {x \in {e.f, e.t} : ~Known(reg, x)}
  \cup (IF e.f = e.t THEN {e.f} ELSE {})
  \cup (IF \E j \in 1..(i - 1) : c.edges[j] = e THEN {e.f, e.t} ELSE {})
NodeFault(c, d) == LET ins == {i \in Idx(c.edges) : c.edges[i].t = d.n}
                       outs == {i \in Idx(c.edges) : c.edges[i].f = d.n} IN
  \/ ins # {} /\ ~TakesIn(d.k)
  \/ outs # {} /\ ~GivesOut(d.k)
  \/ ins = {} /\ NeedsIn(d.k)
  \/ outs = {} /\ NeedsOut(d.k)
(* in a model file: a node may stand for several. Those that only pass water  *)
(* on, and supplies and demands, must be connected in every part; stores need *)
(* not be. The compensation may lead to the spill.                            *)
InParts(d) == IF d.k \in Through \cup Lossy \cup {"Output", "Abstraction"} THEN {""} ELSE {}
OutParts(d) ==
  CASE d.k \in (Through \ {"RiverSplitWithGauge"}) \cup Lossy \cup {"Input", "Catchment"} -> {""}
    [] d.k = "RiverSplitWithGauge" -> {""} \cup {d.has[j] : j \in SplitsOf(d)}
    [] d.k = "Abstraction" -> {"", "Abstraction"}
    [] d.k = "Reservoir" -> {x \in {"Spill"} : Has(d, x)} \cup {x \in {"Compensation"} : Has(d, x) /\ ~Has(d, "joined")}
    [] OTHER -> {}
Loose(c, d) ==
  \/ ~(InParts(d) \subseteq UNION {Parts(d, c.edges[i].ts) : i \in {j \in Idx(c.edges) : c.edges[j].t = d.n}})
  \/ ~(OutParts(d) \subseteq UNION {Parts(d, c.edges[i].fs) : i \in {j \in Idx(c.edges) : c.edges[j].f = d.n}})
FileFaults(c, reg) == UNION {LET e == c.edges[i] IN
    IF e.f = e.t \/ \E j \in 1..(i - 1) : SameEdge(reg, c.edges[j], e) THEN {e.f, e.t} ELSE {} : i \in Idx(c.edges)}
ConnFaults(c, reg) == IF c.file THEN FileFaults(c, reg) \cup {reg["node"][j].n : j \in {i \in Idx(reg["node"]) : Loose(c, reg["node"][i])}} ELSE IF ~c.conn THEN {} ELSE
     UNION {EdgeFaults(c, reg, i) : i \in Idx(c.edges)}
  \cup {reg["node"][j].n : j \in {i \in Idx(reg["node"]) : NodeFault(c, reg["node"][i])}}

(* ---- parameters become available in rounds ---- *)
Needs(d) == {d.on[j] : j \in Idx(d.on)}
Available(c, have) == have \cup {c.deps[i].n : i \in {j \in Idx(c.deps) : Needs(c.deps[j]) \subseteq have}}
Stuck(c, have) == {c.deps[i].n : i \in Idx(c.deps)} \ have

(* ---- what the built network consists of ---- *)
Named(e) == e.f \o "->" \o e.t
Into(c, n) == SelectSeq(c.edges, LAMBDA e : e.t = n)
OutOf(c, n) == SelectSeq(c.edges, LAMBDA e : e.f = n)
Names(es) == [i \in Idx(es) |-> Named(es[i])]
BuiltNodes(c, reg) == [i \in Idx(reg["node"]) |-> LET d == reg["node"][i] IN
  [n |-> d.n, k |-> d.k, i |-> Names(Into(c, d.n)), o |-> Names(OutOf(c, d.n))]]
BuiltEdges(c) == [i \in Idx(c.edges) |-> <<c.edges[i].f, c.edges[i].t>>]
Members(c, ns, n) == LET m == SelectSeq(c.refs, LAMBDA r : r.by = n /\ r.as = ns) IN [i \in Idx(m) |-> m[i].n]
BuiltGroups(c, reg, ns) == [i \in Idx(reg[ns]) |-> [n |-> reg[ns][i].n, mem |-> Members(c, ns, reg[ns][i].n)]]
BuiltNames(reg, ns) == [i \in Idx(reg[ns]) |-> reg[ns][i].n]
=============================================================================
