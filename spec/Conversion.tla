----------------------------- MODULE Conversion ------------------------------
(* Conversion of a v1 model. The components of the v1 model are taken one by     *)
(* one; `left` are the components of the converted document that no v1 component  *)
(* accounts for yet, `errs` the reported errors that none accounts for yet.       *)
(*  v1 component   [c |-> kind, n |-> name, ok |-> can it be expressed,            *)
(*                  facts |-> entries of its counterpart, named |-> names of the   *)
(*                  parameters written in place with a name, inl |-> number of     *)
(*                  those written in place without a name]                         *)
(*  document       [c |-> kind, n |-> name, facts |-> <<path, value>>s]            *)
(*  error          [k |-> kind, n |-> name]                                        *)
EXTENDS Num, FiniteSets

Reported(c) == CASE c \in {"node", "vnode"} -> "node" [] c \in {"par", "ts"} -> "parameter" [] c \in {"group", "combo"} -> "scenarios" [] OTHER -> c
Called(x) == IF x.c \in {"group", "combo"} THEN "" ELSE x.n

Counterparts(doc, left, x) == {k \in left : doc[k].c = x.c /\ doc[k].n = x.n}
Carried(doc, left, x) == UNION {{k \in left : doc[k].c \in {"par", "ts"} /\ doc[k].n = x.named[j]} : j \in 1..Len(x.named)}
Errors(err, errs, x) == {k \in errs : err[k].k = Reported(x.c) /\ err[k].n = Called(x)}
Facts(d) == {<<d.facts[k][1], d.facts[k][2]>> : k \in 1..Len(d.facts)}
Alt(x) == {<<x.alt[k][1], x.alt[k][2]>> : k \in 1..Len(x.alt)}    \* what a known finding makes of it
Missing(x, d) == Facts(x) \ Facts(d)

(* parameters in the document that stand for those written in place without a name *)
RECURSIVE Count(_, _, _)
Count(comps, k, only) == IF k = 0 THEN 0 ELSE Count(comps, k - 1, only) + (IF only /\ ~comps[k].ok THEN 0 ELSE comps[k].inl)
=============================================================================
