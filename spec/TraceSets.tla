----------------------------- MODULE TraceSets ------------------------------
(* Validation of recorded sets. Step 1 of a case is the verdict on the model,    *)
(* then every set is compared step by step: q.v[s][t] is the value of a          *)
(* quantity read from the network itself, m.rows[s][t] what the set recorded.    *)
EXTENDS MetricSets, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, m, t
vars == <<ci, m, t>>

Reject(c, what, at, want, got) == PrintT("REJECT P36 " \o ToJson([case |-> c.id, what |-> what, at |-> at, want |-> want, got |-> got]))
Say(ok, c, what, at, want, got) == IF ok THEN TRUE ELSE Reject(c, what, at, want, got)
Near(x, y, tol) == x = y \/ (x - y <= tol /\ y - x <= tol)

Init == ci \in 1..Len(Cases) /\ m = 0 /\ t = 0

Verdict == LET c == Cases[ci]
               bad == {i \in DOMAIN c.sets : ~Usable(c.offer, c.sets[i])} IN
  /\ m = 0
  /\ IF bad = {} THEN Say(c.built, c, "sets that refer to what is there are accepted", 0, "built", c.error)
     ELSE Say(~c.built, c, "a set that is empty or refers to nothing is refused", {c.sets[i].n : i \in bad}, "refused", "built")
  /\ \A i \in DOMAIN c.sets : Sound(c.offer, c.sets[i]) => Say(Covers(c.offer, c.sets[i]), c, "design", i, TRUE, FALSE)
  /\ m' = IF c.ran /\ bad = {} THEN 1 ELSE Len(c.sets) + 1
  /\ t' = IF c.ran /\ bad = {} THEN 1 ELSE 0 
  /\ UNCHANGED ci

Row == LET c == Cases[ci] IN
  /\ m >= 1 /\ m <= Len(c.sets)
  /\ LET x == c.sets[m] cs == Columns(c.offer, x) IN
     \A s \in DOMAIN x.rows :
       LET r == x.rows[s][t]
           want == [i \in DOMAIN cs |-> [n |-> c.offer[cs[i]].n, a |-> c.offer[cs[i]].a]]
           got == [i \in DOMAIN r |-> [n |-> r[i].n, a |-> r[i].a]] IN
       IF got # want THEN Say(FALSE, c, "the columns of a set are what it lists and what its filters add", <<x.n, s, t>>, want, got)
       ELSE \A i \in DOMAIN cs : LET q == c.offer[cs[i]] IN
              Say(Near(r[i].v, q.v[s][t], q.tol), c, "a column holds the values of what it is labelled with", <<x.n, q.n, q.a, s, t>>, q.v[s][t], r[i].v)
  /\ IF t = c.nt THEN m' = m + 1 /\ t' = IF m = Len(c.sets) THEN 0 ELSE 1 ELSE t' = t + 1 /\ m' = m
  /\ UNCHANGED ci
Spec == Init /\ [][Verdict \/ Row]_vars
View == vars
=============================================================================
