----------------------------- MODULE TraceLife ------------------------------
(* Validation of executions. The first execution of a case gives the           *)
(* trajectory of every scenario; execution e's scenario number s is scenario    *)
(* key[s] of the first. A behaviour is one execution: its operations in order,   *)
(* then what was observed step by step, then what was recorded.                 *)
EXTENDS Lifecycle, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ex, k, lp, pos, t
vars == <<ci, ex, k, lp, pos, t>>

Reject(c, v) == PrintT("REJECT " \o v[1] \o " " \o ToJson([case |-> c.id, what |-> v[2], at |-> v[3], want |-> v[4], got |-> v[5]]))
All(c, bad) == \A v \in bad : Reject(c, v)

Init == /\ ci \in Idx(Cases) /\ ex \in Idx(Cases[ci].execs)
        /\ k = 0 /\ lp = 0 /\ pos = 0 /\ t = 0

Operation == LET c == Cases[ci] e == c.execs[ex] IN
  /\ k < Len(e.ops)
  /\ LET r == Do(e.ops[k + 1], pos, c.nt)
         n == Len(r.log)
         got == IF lp + n <= Len(e.log) THEN SubSeq(e.log, lp + 1, lp + n) ELSE <<"nothing">> IN
     /\ (IF got = r.log THEN TRUE ELSE All(c, {<<e.prop, "outcome of the operation", <<e.tag, k + 1>>, r.log, got>>}))
     /\ pos' = r.pos /\ lp' = lp + n /\ k' = k + 1
  /\ UNCHANGED <<ci, ex, t>>

Observe == LET c == Cases[ci] e == c.execs[ex] b == c.execs[1] IN
  /\ k = Len(e.ops) /\ t < c.nt
  /\ LET tt == t + 1 IN
     /\ \A s \in Idx(e.key) :
          IF tt > pos THEN (IF e.obs[s][tt] = <<>> THEN TRUE ELSE All(c, {<<e.prop, "nothing happens at a step that was not reached", <<e.tag, s, t>>, "nothing", e.obs[s][tt]>>}))
          ELSE LET w == b.obs[e.key[s]][tt] o == e.obs[s][tt]
                   bad == {i \in Idx(w) : i > Len(o) \/ ~Close(o[i], w[i], e.tol)} IN
               IF Len(o) = Len(w) /\ bad = {} THEN TRUE
               ELSE IF o = <<>> \/ bad = {} THEN All(c, {<<e.prop, "the step takes place", <<e.tag, s, t>>, "values", "nothing">>})
               ELSE LET i == CHOOSE x \in bad : \A y \in bad : x <= y IN
                    All(c, {<<e.prop, "the same values as in the first execution", <<e.tag, s, t, i>>, w[i], o[i]>>})
     /\ t' = tt
  /\ UNCHANGED <<ci, ex, k, lp, pos>>

Finish == LET c == Cases[ci] e == c.execs[ex] b == c.execs[1] IN
  /\ k = Len(e.ops) /\ t = c.nt
  /\ IF pos < c.nt \/ e.nores THEN TRUE
     ELSE LET bad == {i \in Idx(b.res) : i > Len(e.res) \/ e.res[i] # b.res[i]} IN
       IF bad = {} /\ Len(e.res) = Len(b.res) THEN TRUE
       ELSE IF bad = {} THEN All(c, {<<e.prop, "the same recorded results", e.tag, Len(b.res), Len(e.res)>>})
       ELSE LET i == CHOOSE x \in bad : \A y \in bad : x <= y IN
            All(c, {<<e.prop, "the same recorded results", <<e.tag, i>>, b.res[i], IF i <= Len(e.res) THEN e.res[i] ELSE "nothing">>})
  /\ t' = t + 1 /\ UNCHANGED <<ci, ex, k, lp, pos>>

Next == Operation \/ Observe \/ Finish
Spec == Init /\ [][Next]_vars
View == <<ci, ex, k, t>>
=============================================================================
