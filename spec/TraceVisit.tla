----------------------------- MODULE TraceVisit -----------------------------
(* Validation of visits: doc is the document as saved, seen[k] what the k-th      *)
(* visitor was shown, after[k] the document after rewriting through it.            *)
EXTENDS Visitors, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, k
vars == <<ci, k>>

Reject(c, what, kind, at) == PrintT("REJECT P37 " \o ToJson([case |-> c.id, what |-> what, kind |-> kind, at |-> at]))
None(s, c, what, kind) == IF s = {} THEN TRUE ELSE Reject(c, what, kind, s)

Init == ci \in 1..Len(Cases) /\ k = 0
Visit == LET c == Cases[ci] kind == Kinds[k + 1]
             d == {c.doc[i] : i \in DOMAIN c.doc}
             a == {c.after[k + 1][i] : i \in DOMAIN c.after[k + 1]} IN
  /\ k < Len(Kinds)
  /\ None(Missed(d, kind, c.whole, c.seen[k + 1]), c, "a visitor reaches every place", kind)
  /\ None(Strange(d, kind, c.whole, c.seen[k + 1]), c, "a visitor reaches a place once, and no other", kind)
  /\ None(Rewritten(d, kind) \ a, c, "rewriting replaces what is visited and keeps the rest", kind)
  /\ None(a \ Rewritten(d, kind), c, "rewriting replaces what is visited and adds nothing", kind)
  /\ k' = k + 1 /\ UNCHANGED ci
Spec == Init /\ [][Visit]_vars
View == vars
=============================================================================
