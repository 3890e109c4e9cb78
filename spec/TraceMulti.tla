----------------------------- MODULE TraceMulti -----------------------------
(* Validation of recorded runs of multi-network models: every transition is   *)
(* the solution of the next network; its observed items must have the values  *)
(* the specification gives them.                                              *)
EXTENDS Multi, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, run, s, t, n, val
vars == <<ci, run, s, t, n, val>>

Reject(c, v) == PrintT("REJECT " \o v[1] \o " " \o ToJson([case |-> c.id, what |-> v[2], at |-> v[3], want |-> v[4], got |-> v[5]]))
All(c, bad) == \A v \in bad : Reject(c, v)

Init == /\ ci \in Idx(Cases)
        /\ run \in Idx(Cases[ci].runs) /\ s \in 1..Cases[ci].ns
        /\ t = 0 /\ n = 1
        /\ val = Val0(Cases[ci].nets)

SolveNetwork == LET c == Cases[ci] r == c.runs[run] IN
  /\ t < c.nt
  /\ LET seen == r.obs[n][s][t + 1]
         new == Solve(c.nets[n], n, t, s, val, <<>>, c.dt, seen)
         bad == {i \in Idx(new) : ~Close(seen[i], new[i], r.tol[n][i])} IN
     /\ All(c, {<<"P24", "item " \o c.nets[n].items[i].k, <<r.tag, c.nets[n].name, i, s, t>>, new[i], seen[i]>> : i \in bad})
     /\ val' = [val EXCEPT ![n] = [i \in Idx(new) |-> IF i \in bad THEN seen[i] ELSE new[i]]]
  /\ IF n < Len(c.nets) THEN n' = n + 1 /\ t' = t ELSE n' = 1 /\ t' = t + 1
  /\ UNCHANGED <<ci, run, s>>

Next == SolveNetwork
Spec == Init /\ [][Next]_vars
View == <<ci, run, s, t, n>>
=============================================================================
