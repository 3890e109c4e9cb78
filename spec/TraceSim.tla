------------------------------ MODULE TraceSim ------------------------------
(* Trace validation: the snapshots recorded from the real program are        *)
(* walked step by step through the Simulation specification. A step the      *)
(* specification does not permit is printed as a REJECT line; the walk goes  *)
(* on from the recorded state, so one fault does not hide the next.          *)
EXTENDS Simulation, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, si, t, mem, prev

Reject(c, s, tt, v) == PrintT("REJECT " \o v[1] \o " " \o ToJson([case |-> c.id, scen |-> s, step |-> tt, what |-> v[2], at |-> v[3], want |-> v[4], got |-> v[5]]))

Init == /\ ci \in Idx(Cases)
        /\ si \in 1..Len(Cases[ci].obs)
        /\ t = 0
        /\ mem = Mem0(Cases[ci])
        /\ prev = <<>>

Next == LET c == Cases[ci] tt == t + 1 IN
        /\ t < Len(c.obs[si])
        /\ LET o == c.obs[si][tt]
               w == IF Len(c.wit) = 0 THEN <<>> ELSE c.wit[si][tt]
               bad == StepV(c, si, mem, prev, o.b, o.a, tt, w) IN
           /\ \A v \in bad : Reject(c, si, tt, v)
           /\ t' = tt
           /\ mem' = NextMem(c, si, mem, prev, o.b, o.a, tt)
           /\ prev' = o.a
        /\ UNCHANGED <<ci, si>>

(* The run stopped with an error on step c.fail.t. That is permitted only if *)
(* in some scenario no flow pattern is permitted: c.fail.st lists, for the   *)
(* scenarios that had begun the step, the state b and a flow pattern w that  *)
(* is claimed to be permitted (<<>> if none is known).                      *)
Stop == LET c == Cases[ci] IN
        /\ c.fail.t > 0
        /\ t = Len(c.obs[si]) /\ t + 1 = c.fail.t
        /\ IF si # 1 \/ (c.fail.u /\ Undefined(c, c.fail.t)) THEN TRUE
           ELSE IF c.fail.u /\ c.fail.st = <<>>
           THEN Reject(c, si, c.fail.t, <<"RUN", "the run stopped although every parameter is defined", 0, 0, 0>>)
           ELSE IF c.fail.st # <<>> /\ \A k \in Idx(c.fail.st) :
                  LET d == c.times[c.fail.t] x == c.fail.st[k] IN
                  x.w # <<>> /\ Feasible(c, x.b, x.w, d.dt, d)
           THEN Reject(c, si, c.fail.t, <<"RUN", "the run stopped although a permitted flow pattern exists", 0, c.fail.st[Len(c.fail.st)].w, 0>>)
           ELSE TRUE
        /\ t' = t + 1
        /\ UNCHANGED <<ci, si, mem, prev>>

vars == <<ci, si, t, mem, prev>>
Spec == Init /\ [][Next \/ Stop]_vars
View == <<ci, si, t>>
=============================================================================
