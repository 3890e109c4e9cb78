------------------------------ MODULE TraceConv ------------------------------
(* Validation of conversions: the document and the errors that the program       *)
(* made of a v1 model against what Conversion requires.                           *)
EXTENDS Conversion, Json, IOUtils, TLC, Sequences

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, i, left, errs
vars == <<ci, i, left, errs>>

Reject(c, what, at, want, got) == PrintT("REJECT P35 " \o ToJson([case |-> c.id, what |-> what, at |-> at, want |-> want, got |-> got]))
Must(ok, c, what, at, want, got) == IF ok THEN TRUE ELSE Reject(c, what, at, want, got)

Init == ci \in 1..Len(Cases) /\ i = 1 /\ left = DOMAIN Cases[ci].doc /\ errs = DOMAIN Cases[ci].err

Take == LET c == Cases[ci] IN
  /\ i <= Len(c.comps)
  /\ LET x == c.comps[i] d == Counterparts(c.doc, left, x) e == Errors(c.err, errs, x) m == Carried(c.doc, left, x) IN
     /\ IF x.ok THEN
          /\ Must(e = {}, c, "a component that can be converted is not reported", x.n, "", {c.err[k].e : k \in e})
          /\ Must(d # {}, c, "a component that can be converted is in the document", x.n, x.c, "nothing")
          /\ Must(d = {} \/ \E k \in d : Missing(x, c.doc[k]) = {}, c,
                  IF x.known # "" /\ \E k \in d : Alt(x) \subseteq Facts(c.doc[k]) THEN "known:" \o x.known ELSE "the component of the document says the same", x.n, {Missing(x, c.doc[k]) : k \in d}, x.c)
          /\ Must(Cardinality(m) = Len(x.named), c, "a parameter with a name that is written in place is in the document", x.n, x.named, {c.doc[k].n : k \in m})
        ELSE
          /\ Must(e # {} \/ (x.c \in {"group", "combo"} /\ Errors(c.err, DOMAIN c.err, x) # {}), c, "a component that can not be converted is reported by name", x.n, x.c, "")
          /\ Must(d = {} \/ x.c = "ts", c, "a component that is reported is not in the document", x.n, "", x.c)
     /\ LET own == IF d = {} THEN {} ELSE LET good == {k \in d : Missing(x, c.doc[k]) = {} \/ (x.known # "" /\ Alt(x) \subseteq Facts(c.doc[k]))} IN
                   {CHOOSE k \in (IF good = {} THEN d ELSE good) : TRUE} IN
        left' = left \ (own \cup m)
     /\ errs' = errs \ e
  /\ i' = i + 1 /\ UNCHANGED ci

Finish == LET c == Cases[ci] IN
  /\ i = Len(c.comps) + 1
  /\ LET unnamed == {k \in left : c.doc[k].c \in {"par", "ts"}} other == left \ unnamed
         names == {k \in DOMAIN c.doc : c.doc[k].c \in {"par", "ts"}}
         lo == Count(c.comps, Len(c.comps), TRUE) hi == Count(c.comps, Len(c.comps), FALSE)
         told == {c.comps[k].n : k \in {k \in DOMAIN c.comps : ~c.comps[k].ok}}
         known == {<<c.doc[k].c, c.doc[k].n>> : k \in names} \cup ({"par", "ts"} \X (told \cup {c.given[k] : k \in DOMAIN c.given}))
         dangling == {<<c.refs[k].c, c.refs[k].n>> : k \in DOMAIN c.refs} \ known
         gone == {<<c.facts[k][1], c.facts[k][2]>> : k \in DOMAIN c.facts} \ {<<c.top[k][1], c.top[k][2]>> : k \in DOMAIN c.top} IN
     /\ Must(other = {}, c, "nothing is in the document that the v1 model does not have", "", "", {<<c.doc[k].c, c.doc[k].n>> : k \in other})
     /\ Must(Cardinality(unnamed) >= lo /\ Cardinality(unnamed) <= hi, c, "each parameter written in place is in the document once", "", <<lo, hi>>, {c.doc[k].n : k \in unnamed})
     /\ Must(errs = {}, c, "only what can not be converted is reported", "", "", {c.err[k].e : k \in errs})
     /\ Must(Cardinality({c.doc[k].n : k \in names}) = Cardinality(names), c, "parameters and series have names of their own", "", "", "")
     /\ Must(dangling = {}, c, "references name a parameter or series of the document", "", "", dangling)
     /\ Must(gone = {}, c, "time and description are those of the v1 model", "", gone, "")
  /\ i' = i + 1 /\ UNCHANGED <<ci, left, errs>>

Spec == Init /\ [][Take \/ Finish]_vars
View == <<ci, i>>
=============================================================================
