----------------------------- MODULE MetricSets -----------------------------
(* What a metric set of a model file records.                                    *)
(*                                                                               *)
(* A network offers quantities, in the order it declares the things they belong  *)
(* to: [k, n, a, d] - the kind of thing (node, virtual node, parameter, edge,    *)
(* table, series), its name, the attribute, and whether it is what the thing     *)
(* stands for when no attribute is named (a parameter with values in both phases *)
(* stands for both).                                                             *)
(*                                                                               *)
(* A metric set lists references [k, n, a] ("" = no attribute named) and has     *)
(* four filters. It records what it lists, in that order, then what its filters  *)
(* add in the order nodes, virtual nodes, parameters, edges, each in declared    *)
(* order, leaving out what is already there.                                     *)
EXTENDS Integers, Sequences

Rng(q) == {q[i] : i \in DOMAIN q}

\* ---- references
Match(q, r) == q.k = r.k /\ q.n = r.n /\ IF r.a # "" THEN q.a = r.a ELSE q.d /\ (q.k = "par" => q.a = "before")
Known(offer, r) == \E i \in DOMAIN offer : Match(offer[i], r)
Target(offer, r) == CHOOSE i \in DOMAIN offer : Match(offer[i], r)

\* ---- a set is usable if each reference is to something offered and it records anything
Filtered(offer, kind) == SelectSeq([i \in DOMAIN offer |-> i], LAMBDA i : offer[i].k = kind /\ offer[i].d)
Added(offer, f) == (IF f.nodes THEN Filtered(offer, "node") ELSE <<>>) \o (IF f.vnodes THEN Filtered(offer, "vnode") ELSE <<>>)
                   \o (IF f.pars THEN Filtered(offer, "par") ELSE <<>>) \o (IF f.edges THEN Filtered(offer, "edge") ELSE <<>>)
Sound(offer, m) == \A i \in DOMAIN m.list : Known(offer, m.list[i])
Empty(offer, m) == m.list = <<>> /\ Added(offer, m.flt) = <<>>
Usable(offer, m) == Sound(offer, m) /\ ~Empty(offer, m)

\* ---- the columns, as positions in what is offered
Columns(offer, m) == LET l == [i \in DOMAIN m.list |-> Target(offer, m.list[i])]
                         used == Rng(l) IN l \o SelectSeq(Added(offer, m.flt), LAMBDA i : i \notin used)

\* ---- design: what follows from the rules whatever is declared
Covers(offer, m) == LET c == Columns(offer, m) IN
  /\ \A i \in Rng(Added(offer, m.flt)) : i \in Rng(c)                                   \* nothing a filter names is left out
  /\ \A i \in Rng(c) : i \in Rng(Added(offer, m.flt)) \/ \E r \in Rng(m.list) : Match(offer[i], r)  \* nothing else comes in
  /\ \A x, y \in DOMAIN c : x < y /\ c[x] = c[y] => y <= Len(m.list)                    \* only listing twice repeats
=============================================================================
