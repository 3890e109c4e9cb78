----------------------------- MODULE TraceSolv -----------------------------
(* Walks the executions of one model with several solvers, side by side with *)
(* the reference execution (the first), through the Solvers specification.   *)
EXTENDS Solvers, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ei, si, t, mem, prev

Reject(c, e, s, tt, v) == PrintT("REJECT P07 " \o ToJson([case |-> c.id, solver |-> e.tag, scen |-> s, step |-> tt, rule |-> v[1], what |-> v[2], at |-> v[3], want |-> v[4], got |-> v[5]]))

Init == /\ ci \in Idx(Cases)
        /\ ei \in Idx(Cases[ci].execs)
        /\ si \in 1..Cases[ci].ns
        /\ t = 0
        /\ mem = Mem0(Cases[ci])
        /\ prev = <<>>

(* what every solver has to respect: balances, limits and bounds *)
Rules == {"P01", "P02", "P03", "P04", "P05", "P07", "P08"}
(* each execution has its own accuracy *)
C(e) == [Cases[ci] EXCEPT !.tol = e.tol]

Next == LET c0 == Cases[ci] e == c0.execs[ei] r == c0.execs[1] c == C(e) tt == t + 1 IN
        /\ si <= Len(e.obs) /\ t >= 0 /\ t < Len(e.obs[si])
        /\ LET o == e.obs[si][tt]
               both == ei # 1 /\ si <= Len(r.obs) /\ tt <= Len(r.obs[si])
               w == IF Len(e.wit) = 0 THEN <<>> ELSE e.wit[si][tt]
               bad == StepV(c, si, mem, prev, o.b, o.a, tt, w)
                      \cup (IF both /\ ~Deaf(c, e) /\ tt = 1 THEN FirstV(c, e, r, o.b, o.a, r.obs[si][tt].b, r.obs[si][tt].a) ELSE {})
                      \cup (IF both /\ ~Deaf(c, e) /\ c.unique THEN SameV(c, e, r, o.a, r.obs[si][tt].a, tt) ELSE {}) IN
           /\ \A v \in {x \in bad : x[1] \in Rules} : Reject(c, e, si, tt, DeafV(c, e, o.b, v))
           /\ t' = tt
           /\ mem' = NextMem(c, si, mem, prev, o.b, o.a, tt)
           /\ prev' = o.a
        /\ UNCHANGED <<ci, ei, si>>

End == LET c == Cases[ci] e == c.execs[ei] IN
       /\ t >= 0
       /\ t = IF si <= Len(e.obs) THEN Len(e.obs[si]) ELSE 0
       /\ \A v \in (IF si = 1 THEN EndV(c, e, c.execs[1]) ELSE {}) : Reject(c, e, 0, e.ft, v)
       /\ t' = -1
       /\ UNCHANGED <<ci, ei, si, mem, prev>>

vars == <<ci, ei, si, t, mem, prev>>
Spec == Init /\ [][Next \/ End]_vars
View == <<ci, ei, si, t>>
=============================================================================
