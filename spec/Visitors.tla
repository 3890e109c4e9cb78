------------------------------ MODULE Visitors ------------------------------
(* Visiting and rewriting a model document. A document is the set of its entries *)
(* [p |-> path, v |-> value, m |-> the metric it is part of ("" if none),         *)
(*  f |-> it names a file, n |-> it refers to a node]. A visitor of a kind reaches *)
(* every place of that kind once and no other; rewriting through it replaces what *)
(* is at these places and leaves every other entry as it is.                       *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == <<"metrics", "paths", "nodes">>

Literal == {<<"/type", "\"Literal\"">>, <<"/value", "424242">>}
Here(e, kind) == CASE kind = "metrics" -> e.m # "" [] kind = "paths" -> e.f [] OTHER -> e.n
Plain(e) == [p |-> e.p, v |-> e.v]
Kept(d, kind) == {Plain(e) : e \in {x \in d : ~Here(x, kind)}}
Put(d, kind) == CASE kind = "metrics" -> {[p |-> m \o x[1], v |-> x[2]] : m \in {e.m : e \in d} \ {""}, x \in Literal}
                  [] kind = "paths" -> {[p |-> e.p, v |-> "\"moved\""] : e \in {x \in d : x.f}}
                  [] OTHER -> {[p |-> e.p, v |-> "\"renamed\""] : e \in {x \in d : x.n}}
Rewritten(d, kind) == Kept(d, kind) \cup Put(d, kind)

\* what is at the places of a kind, as often as it is there; whole gives the text of every metric by its place
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Copies(d, kind, whole, x) == CASE kind = "metrics" -> Cardinality({i \in DOMAIN whole : whole[i].t = x})
                               [] OTHER -> Cardinality({e \in d : Here(e, kind) /\ e.v = x})
There(d, kind, whole) == CASE kind = "metrics" -> {whole[i].t : i \in DOMAIN whole} [] OTHER -> {e.v : e \in {x \in d : Here(x, kind)}}
Missed(d, kind, whole, seen) == {x \in There(d, kind, whole) : Count(seen, x) < Copies(d, kind, whole, x)}
Strange(d, kind, whole, seen) == {x \in {seen[i] : i \in DOMAIN seen} : Count(seen, x) > Copies(d, kind, whole, x)}
=============================================================================
