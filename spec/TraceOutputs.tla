---------------------------- MODULE TraceOutputs ----------------------------
(* Validation of what recorders kept and wrote. A behaviour concerns         *)
(*   "set"   one metric set in one scenario: the recorded step values are fed *)
(*           to the aggregators step by step, and every row they put out must *)
(*           be the next row of every memory recorder of the set;             *)
(*   "sum"   the summary value of a memory recorder;                          *)
(*   "file"  the entries of a file against the recorded rows.                 *)
EXTENDS Outputs, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, job, t, opens, k
vars == <<ci, job, t, opens, k>>

Reject(c, v) == PrintT("REJECT " \o v[1] \o " " \o ToJson([case |-> c.id, what |-> v[2], at |-> v[3], want |-> v[4], got |-> v[5]]))
All(c, bad) == \A v \in bad : Reject(c, v)

Init == /\ ci \in Idx(Cases)
        /\ LET c == Cases[ci] IN
           /\ job \in ({"set"} \X Idx(c.sets) \X Idx(c.scens)) \cup ({"sum"} \X Idx(c.recs) \X {0}) \cup ({"file"} \X Idx(c.files) \X {0})
           /\ opens = IF job[1] = "set" THEN [m \in 1..c.sets[job[2]].n |-> Opens0(c.sets[job[2]].lvs)] ELSE <<>>
        /\ t = 0 /\ k = 0

(* rows: one per period, per metric a sequence of values put out             *)
(* short: the known ending of the last, unfinished period: the beginning of   *)
(* its last value (-1: there is no such period)                              *)
RowsV(c, g, s, outs, short) ==
  LET set == c.sets[g] n == Len(outs[1])
      P == IF set.lvs = <<>> THEN "P21" ELSE "P20" IN
  UNION {LET rec == c.recs[r] rows == rec.rows[s] IN
    UNION {
      IF k + i > Len(rows) THEN {<<P, "every period is recorded", <<rec.name, s, k + i>>, [m \in Idx(outs) |-> outs[m][i]], "nothing">>}
      ELSE LET o == rows[k + i] w == outs[1][i] IN
        (IF o.ts = St(w) /\ o.te = En(w) THEN {}
         ELSE IF o.ts = St(w) /\ o.te = short /\ i = n THEN {<<P, "known:unfinished-period-end", <<rec.name, s, k + i>>, <<St(w), En(w)>>, <<o.ts, o.te>> >>}
         ELSE {<<P, "beginning and end of the period", <<rec.name, s, k + i>>, <<St(w), En(w)>>, <<o.ts, o.te>> >>})
        \cup {<<P, "value of the period", <<rec.name, s, k + i, m>>, Vl(outs[m][i]), o.v[m]>> :
                m \in {x \in Idx(outs) : ~Close(o.v[x], Vl(outs[x][i]), set.tol)}}
      : i \in 1..n}
    : r \in {x \in Idx(c.recs) : c.recs[x].set = g}}

Step == LET c == Cases[ci] g == job[2] s == job[3] IN
  /\ job[1] = "set" /\ t < Len(c.steps)
  /\ LET set == c.sets[g] tt == t + 1
         R == [m \in 1..set.n |-> Feed(set.lvs, opens[m], 1, <<<<c.steps[tt][1], c.steps[tt][2], set.raw[s][tt][m]>>>>)]
         outs == [m \in 1..set.n |-> R[m].out] IN
     /\ All(c, RowsV(c, g, s, outs, -1))
     /\ k' = k + Len(outs[1])
     /\ opens' = [m \in 1..set.n |-> R[m].opens]
     /\ t' = tt
  /\ UNCHANGED <<ci, job>>
End == LET c == Cases[ci] g == job[2] s == job[3] IN
  /\ job[1] = "set" /\ t = Len(c.steps)
  /\ LET set == c.sets[g]
         outs == [m \in 1..set.n |-> Flush(set.lvs, opens[m], 1, <<>>)]
         n == k + Len(outs[1])
         short == IF set.lvs = <<>> THEN -1 ELSE LastStart(set.lvs, opens[1]) IN
     /\ All(c, RowsV(c, g, s, outs, short))
     /\ \A r \in {x \in Idx(c.recs) : c.recs[x].set = g} :
          IF Len(c.recs[r].rows[s]) > n THEN All(c, {<<"P21", "only the periods of the run are recorded", <<c.recs[r].name, s>>, n, Len(c.recs[r].rows[s])>>}) ELSE TRUE
     /\ k' = n
  /\ t' = t + 1 /\ UNCHANGED <<ci, job, opens>>

Sum == LET c == Cases[ci] rec == c.recs[job[2]] w == Summary(rec.agg, rec.rows) IN
  /\ job[1] = "sum" /\ t = 0
  /\ IF w = NAN THEN (IF rec.ok THEN All(c, {<<"P23", "an undefined aggregation is an error", rec.name, "an error", rec.value>>}) ELSE TRUE)
     ELSE IF ~rec.ok THEN All(c, {<<"P23", "a defined aggregation gives a value", rec.name, w, rec.err>>})
     ELSE IF Close(rec.value, w, rec.tol) THEN TRUE ELSE All(c, {<<"P23", "summary value", rec.name, w, rec.value>>})
  /\ (IF rec.form THEN TRUE ELSE All(c, {<<"P21", "the table lists scenario, period and metric in order under their own names", rec.name, "", rec.why>>}))
  /\ t' = 1 /\ UNCHANGED <<ci, job, opens, k>>

(* a file: entries and the recorded values, both in the order of their keys  *)
File == LET c == Cases[ci] f == c.files[job[2]] tt == t + 1 IN
  /\ job[1] = "file" /\ t <= Max2(Len(f.got), Len(f.want))
  /\ IF t = 0 THEN (IF f.form THEN TRUE ELSE All(c, {<<"P22", "layout of the file", f.name, "", f.why>>}))
     ELSE IF t > Len(f.got) THEN All(c, {<<"P22", "every recorded value is in the file", f.name, f.want[t], "nothing">>})
     ELSE IF t > Len(f.want) THEN All(c, {<<"P22", "only recorded values are in the file, each once", f.name, "nothing", f.got[t]>>})
     ELSE LET w == f.want[t] o == f.got[t] IN
       IF o[1] # w[1] THEN All(c, {<<"P22", "the file has an entry for every recorded value", f.name, w, o>>})
       ELSE IF Close(o[2], w[2], f.tol) THEN TRUE ELSE All(c, {<<"P22", "value in the file", <<f.name, w[1]>>, w[2], o[2]>>})
  /\ t' = tt /\ UNCHANGED <<ci, job, opens, k>>

Next == Step \/ End \/ Sum \/ File
Spec == Init /\ [][Next]_vars
View == <<ci, job, t>>
=============================================================================
