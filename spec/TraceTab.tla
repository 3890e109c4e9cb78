------------------------------ MODULE TraceTab ------------------------------
(* Models with data tables: the files are read record by record, then each    *)
(* reference is looked up; the model is built exactly if everything could be,  *)
(* an error names a table at fault, and every value used is the cell's.        *)
EXTENDS Tables, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ti, r, tabs, li, faults
vars == <<ci, ti, r, tabs, li, faults>>

Reject(c, what, at, want, got) == PrintT("REJECT P32 " \o ToJson([case |-> c.id, what |-> what, at |-> at, want |-> want, got |-> got]))

Init == /\ ci \in Idx(Cases)
        /\ ti = 1 /\ r = 1 /\ li = 0 /\ faults = {}
        /\ tabs = [i \in Idx(Cases[ci].tables) |-> Unread(Cases[ci].tables[i])]

Read == LET c == Cases[ci] t == c.tables[ti] IN
  /\ ti <= Len(c.tables)
  /\ IF r <= Len(t.grid)
     THEN tabs' = [tabs EXCEPT ![ti] = Record(t, @, r)] /\ r' = r + 1 /\ UNCHANGED <<ti, faults>>
     ELSE LET z == Closed(t, tabs[ti]) IN
          /\ tabs' = [tabs EXCEPT ![ti] = z] /\ ti' = ti + 1 /\ r' = 1
          /\ faults' = IF z.bad THEN faults \cup {t.name} ELSE faults
  /\ UNCHANGED <<ci, li>>

Refer == LET c == Cases[ci] IN
  /\ ti > Len(c.tables) /\ li < Len(c.looks)
  /\ li' = li + 1
  /\ LET l == c.looks[li'] res == Lookup(c.tables, tabs, l) IN
     /\ faults' = (IF res.ok THEN faults ELSE faults \cup {l.name, l.by})
     /\ IF res.ok /\ c.built
        THEN \A k \in Idx(c.steps) :
               LET want == ValueAt(l, res, c.steps[k][l.pos]) IN
               IF Close(c.obs[k][li'], want, 1) THEN TRUE ELSE Reject(c, "the value looked up", <<li', k, l>>, want, c.obs[k][li'])
        ELSE TRUE
  /\ UNCHANGED <<ci, ti, r, tabs>>

Verdict == LET c == Cases[ci] IN
  /\ ti > Len(c.tables) /\ li = Len(c.looks)
  /\ li' = li + 1
  /\ IF c.built = (faults = {}) THEN TRUE ELSE Reject(c, "built exactly if every table and reference can be used", faults, faults = {}, c.built)
  /\ IF c.built \/ faults = {} \/ \E i \in Idx(c.named) : c.named[i] \in faults THEN TRUE ELSE Reject(c, "the error names what is at fault", c.error, faults, c.named)
  /\ UNCHANGED <<ci, ti, r, tabs, faults>>

Next == Read \/ Refer \/ Verdict
Spec == Init /\ [][Next]_vars
View == <<ci, ti, r, li>>
=============================================================================
