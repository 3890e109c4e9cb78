----------------------------- MODULE TraceFile ------------------------------
(* Validation of documents: docs[1] is the document given, docs[n+1] what the   *)
(* program saved after loading docs[n].                                          *)
EXTENDS ModelFile, Json, IOUtils, TLC, Sequences

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, n
vars == <<ci, n>>

Reject(c, what, at, want, got) == PrintT("REJECT P33 " \o ToJson([case |-> c.id, what |-> what, at |-> at, want |-> want, got |-> got]))

Init == ci \in 1..Len(Cases) /\ n = 1
Save == LET c == Cases[ci] IN
  /\ n < Len(c.docs)
  /\ LET d == Entries(c.docs[n]) e == Entries(c.docs[n + 1])
         l == Lost(d, e) i == IF n = 1 THEN Invented(d, e) ELSE e \ d IN
     /\ (IF l = {} THEN TRUE
         ELSE LET x == CHOOSE x \in l : TRUE IN Reject(c, "an entry is kept with its value", x.p, x.v, {y.v : y \in {z \in e : z.p = x.p}}))
     /\ (IF i = {} THEN TRUE
         ELSE LET x == CHOOSE x \in i : TRUE IN Reject(c, "nothing is added but defaults", x.p, "nothing", x.v))
  /\ n' = n + 1 /\ UNCHANGED ci
Spec == Init /\ [][Save]_vars
View == vars
=============================================================================
