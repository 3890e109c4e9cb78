---------------------------- MODULE TraceDomain ----------------------------
(* Trace validation of domains recorded from the real program.              *)
EXTENDS Domain, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ph, k, cur
vars == <<ci, ph, k, cur>>

Reject(c, v) == PrintT("REJECT " \o v[1] \o " " \o ToJson([case |-> c.id, what |-> v[2], at |-> v[3], want |-> v[4], got |-> v[5]]))
All(c, bad) == \A v \in bad : Reject(c, v)

Init == ci \in Idx(Cases) /\ ph = "build" /\ k = 0 /\ cur = <<>>

Build == LET c == Cases[ci] IN
  /\ ph = "build"
  /\ IF c.built = DomainOk(c) THEN TRUE
     ELSE IF ~c.built /\ ScensOk(c) THEN All(c, {<<c.tag, "a valid domain is accepted", 0, TRUE, c.err>>})
     ELSE IF ~c.built THEN TRUE
     ELSE All(c, {<<c.tag, "an invalid domain is refused", 0, "an error", "a model">>})
  /\ IF c.crashed THEN All(c, {<<c.tag, "an invalid domain is refused with an error", 0, "an error", c.err>>}) ELSE TRUE
  /\ ph' = IF c.built /\ DomainOk(c) THEN "time" ELSE "done"
  /\ UNCHANGED <<ci, k, cur>>

TimeStep == LET c == Cases[ci] IN
  /\ ph = "time" /\ k < Len(c.times)
  /\ All(c, StepTimeV(c, k, c.times[k + 1]))
  /\ k' = k + 1 /\ UNCHANGED <<ci, ph, cur>>
TimeEnd == LET c == Cases[ci] IN
  /\ ph = "time" /\ k = Len(c.times)
  /\ All(c, TimeEndV(c, k))
  /\ ph' = "scen" /\ k' = 0
  /\ cur' = IF c.hascombo THEN (IF c.combos = <<>> THEN <<>> ELSE ComboOf(c, c.combos[1])) ELSE FirstRun(c)
  /\ UNCHANGED ci

(* the run that the specification delivers next must be the next one simulated *)
More(c) == IF c.hascombo THEN k + 1 < Len(c.combos) ELSE HasNext(c, cur)
ScenStep == LET c == Cases[ci] IN
  /\ ph = "scen" /\ cur # <<>>
  /\ IF k >= Len(c.scens) THEN All(c, {<<"P10", "every declared run is simulated", k, cur, "nothing">>})
     ELSE /\ All(c, ScenV(c, k, cur, c.scens[k + 1]))
          /\ (IF c.vals = <<>> THEN TRUE ELSE All(c, ScenValV(c, k, cur, c.vals[k + 1])))
  /\ IF More(c) THEN ph' = ph /\ k' = k + 1 /\ cur' = (IF c.hascombo THEN ComboOf(c, c.combos[k + 2]) ELSE NextRun(c, cur))
     ELSE /\ (IF k + 1 < Len(c.scens) THEN All(c, {<<"P10", "only declared runs are simulated", k + 1, "nothing", c.scens[k + 2].schema>>}) ELSE TRUE)
          /\ ph' = "done" /\ UNCHANGED <<k, cur>>
  /\ UNCHANGED ci

Next == Build \/ TimeStep \/ TimeEnd \/ ScenStep
Spec == Init /\ [][Next]_vars
=============================================================================
