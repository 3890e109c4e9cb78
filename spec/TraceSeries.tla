----------------------------- MODULE TraceSeries -----------------------------
(* Models with time series: every series is walked through once, step by step; *)
(* the values of the references to it are those observed on each step in each  *)
(* scenario. The model is refused exactly as the series and references demand. *)
EXTENDS Timeseries, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, si, k, p, may, must
vars == <<ci, si, k, p, may, must>>

Reject(c, what, at, want, got) == PrintT("REJECT P31 " \o ToJson([case |-> c.id, what |-> what, at |-> at, want |-> want, got |-> got]))
Before(se, steps) == Len(se.rows) - Cardinality(Kept(se, steps))

Init == /\ ci \in Idx(Cases) /\ si = 1 /\ k = 1 /\ p = -1 /\ may = FALSE /\ must = {}

(* the rows before the model start are skipped                                   *)
Skip == LET c == Cases[ci] se == c.series[si] IN
  /\ si <= Len(c.series) /\ p = -1
  /\ p' = Before(se, c.steps)
  /\ may' = (may \/ ~Covers(se, c.steps))
  /\ must' = must \cup (IF se.bad \/ se.rows = <<>> THEN {se.name} ELSE {})
  /\ UNCHANGED <<ci, si, k>>

Step == LET c == Cases[ci] se == c.series[si] IN
  /\ si <= Len(c.series) /\ p >= 0 /\ k <= Len(c.steps)
  /\ p' = Passed(se, c.steps, k, p)
  /\ must' = must \cup (IF Lacking(se, c.steps, k, p) THEN {se.name} ELSE {})
  /\ LET U == Used(se, c.steps, k, p) IN
     IF ~c.built \/ U = {} THEN TRUE
     ELSE \A i \in Idx(c.refs) : \A s \in Idx(c.scens) :
            LET r == c.refs[i] IN
            IF r.s # si \/ Bad(c, r) THEN TRUE
            ELSE IF Holes(se, U, Col(c, r, s)) THEN TRUE
            ELSE LET want == ValueOf(se, U, Col(c, r, s)) got == c.obs[s][k][i] IN
              IF Close(got, want, 1) THEN TRUE ELSE Reject(c, "the value of a series on a step", <<r, s, k>>, want, got)
  /\ k' = k + 1 /\ UNCHANGED <<ci, si, may>>

Done == LET c == Cases[ci] IN
  /\ si <= Len(c.series) /\ k = Len(c.steps) + 1
  /\ si' = si + 1 /\ k' = 1 /\ p' = -1 /\ UNCHANGED <<ci, may, must>>

Verdict == LET c == Cases[ci]
               wrong == must \cup UNION {IF Bad(c, c.refs[i]) \/ MustMiss(c, c.refs[i]) THEN {c.refs[i].name, c.refs[i].n} ELSE {} : i \in Idx(c.refs)}
               loose == may \/ \E i \in Idx(c.refs) : IF c.refs[i].s = 0 THEN TRUE ELSE Spare(c, c.refs[i]) \/ Missing(c, c.refs[i])
               IN
  /\ si = Len(c.series) + 1 /\ k = 1
  /\ k' = 2
  /\ must' = wrong /\ may' = loose
  /\ IF c.built /\ wrong # {} THEN Reject(c, "a series that cannot give the values asked of it is refused", wrong, FALSE, TRUE)
     ELSE IF ~c.built /\ wrong = {} /\ ~loose THEN Reject(c, "a series that covers the period is used", c.error, TRUE, FALSE)
     ELSE IF ~c.built /\ wrong # {} /\ ~loose /\ ~\E i \in Idx(c.named) : c.named[i] \in wrong THEN Reject(c, "the error names what is at fault", c.error, wrong, c.named)
     ELSE TRUE
  /\ UNCHANGED <<ci, si, p>>

Next == Skip \/ Step \/ Done \/ Verdict
Spec == Init /\ [][Next]_vars
View == <<ci, si, k, p>>
=============================================================================
