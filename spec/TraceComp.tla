------------------------------ MODULE TraceComp ------------------------------
(* Walks the reports of real runs, with the certificates for the hidden flows, *)
(* through the Composite specification.                                       *)
EXTENDS Composite, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, si, t, mem, led, prev

Reject(c, s, tt, v) == PrintT("REJECT " \o c.tag \o " " \o ToJson([case |-> c.id, scen |-> s, step |-> tt, what |-> v[2], at |-> v[3], want |-> v[4], got |-> v[5]]))

Init == /\ ci \in Idx(Cases)
        /\ si \in 1..Len(Cases[ci].obs)
        /\ t = 0
        /\ mem = Mem0(Cases[ci])
        /\ led = Led0(Cases[ci])
        /\ prev = <<>>

Next == LET c == Cases[ci] tt == t + 1 IN
        /\ t < Len(c.obs[si])
        \* the columns are named after what they report
        /\ \A i \in (IF t = 0 /\ si = 1 THEN Idx(c.heads) ELSE {}) :
             IF c.heads[i].a = "" \/ c.heads[i] = c.cols[i] THEN TRUE
             ELSE Reject(c, si, tt, <<c.tag, "name of a reported value", <<c.reps[i].n, i>>, c.heads[i], c.cols[i]>>)
        /\ LET o == c.obs[si][tt]
               l == NextLed(c, led, o.a, tt)
               bad == CompStepV(c, si, mem, prev, o.b, o.a, tt, c.wit[si][tt], o.r) \cup LedgerV(c, l, tt) IN
           /\ \A v \in bad : Reject(c, si, tt, v)
           /\ t' = tt
           /\ mem' = NextMem(c, si, mem, prev, o.b, o.a, tt)
           /\ led' = l
           /\ prev' = o.a
        /\ UNCHANGED <<ci, si>>

vars == <<ci, si, t, mem, led, prev>>
Spec == Init /\ [][Next]_vars
View == <<ci, si, t>>
=============================================================================
