----------------------------- MODULE ModelFile -----------------------------
(* A model file as the set of its entries: [p |-> path, k |-> key, v |-> value] *)
(* for every scalar and empty list in the document; an entry that is null or an  *)
(* empty object says nothing and is left out. Loading a document and saving it    *)
(* again is a step between documents: every entry is kept with its value, and     *)
(* what appears in addition states a documented default. A document that has      *)
(* been saved once is a fixed point of saving.                                     *)
EXTENDS Num

Defaults == { <<"all_nodes", "false">>, <<"all_virtual_nodes", "false">>, <<"all_parameters", "false">>, <<"all_edges", "false">>,
              <<"ratchet", "false">>, <<"return_type", "\"Float\"">> }

(* comparison operators have a symbol and a name *)
Operators == [s \in {"\"<\"", "\">\"", "\"==\"", "\"<=\"", "\">=\""} |->
  CASE s = "\"<\"" -> "\"LT\"" [] s = "\">\"" -> "\"GT\"" [] s = "\"==\"" -> "\"EQ\"" [] s = "\"<=\"" -> "\"LE\"" [] OTHER -> "\"GE\""]
Plain(x) == IF x.k = "predicate" /\ x.v \in DOMAIN Operators THEN [x EXCEPT !.v = Operators[x.v]] ELSE x

Entries(d) == {Plain(d[i]) : i \in 1..Len(d)}
Paths(d) == {x.p : x \in d}
Lost(d, e) == d \ e
Invented(d, e) == {y \in e \ d : y.p \notin Paths(d) /\ <<y.k, y.v>> \notin Defaults}
=============================================================================
