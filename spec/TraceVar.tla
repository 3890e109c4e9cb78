------------------------------ MODULE TraceVar ------------------------------
(* Validation of executions with assignments: the operations of one execution *)
(* in order, each with what the program answered, and the steps they took.     *)
EXTENDS Variables, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ex, k, lp, pos, vv
vars == <<ci, ex, k, lp, pos, vv>>

Reject(c, v) == PrintT("REJECT P27 " \o ToJson([case |-> c.id, what |-> v[1], at |-> v[2], want |-> v[3], got |-> v[4]]))
All(c, bad) == \A v \in bad : Reject(c, v)

Init == /\ ci \in Idx(Cases) /\ ex \in Idx(Cases[ci].execs)
        /\ k = 0 /\ lp = 0 /\ pos = 0 /\ vv = Vars0(Cases[ci])

CloseSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in Idx(a) : Close(a[i], b[i], tol)

(* the answers to one operation                                               *)
SetV(c, op, got) ==
  LET p == c.pars[op.p] IN
  IF got.ok = Accepts(p, op) THEN {} ELSE {<<"an assignment is accepted exactly if it fits the variable", op, Accepts(p, op), got>>}
GetV(c, op, got) ==
  LET p == c.pars[op.p] IN
  IF ~Variable(p) \/ (op.days /\ p.k # "rbf") THEN IF got.ok THEN {<<"a parameter that is no variable has no values to read", op, FALSE, got>>} ELSE {}
  ELSE IF ~got.ok \/ Len(got.all) # Len(c.scens) \/ Len(got.one) # Len(c.scens) THEN {<<"the values of a variable can be read for every scenario", op, TRUE, got>>}
  ELSE UNION {LET w == IF op.days THEN vv[s][op.p].x ELSE vv[s][op.p].v IN
         IF CloseSeq(got.all[s], w, 1) /\ CloseSeq(got.one[s], w, 1) THEN {} ELSE {<<"the values read are the values assigned", <<op, s>>, w, <<got.all[s], got.one[s]>> >>}
       : s \in Idx(c.scens)}
BoundsV(c, op, got) ==
  LET p == c.pars[op.p] w == BoundsOf(p, op) IN
  IF ~Variable(p) \/ (op.days /\ p.k # "rbf") THEN IF got.ok THEN {<<"a parameter that is no variable has no bounds", op, FALSE, got>>} ELSE {}
  ELSE IF got.ok /\ got.lo = w.lo /\ got.hi = w.hi /\ got.n = w.n THEN {} ELSE {<<"bounds of a variable", op, w, got>>}

(* one step of one scenario with the assignments in force                      *)
StepBad(c, e, s, t) ==
  LET cc == CaseWith(c, vv[s]) o == e.obs[s][t]
      prev == IF t = 1 THEN [par |-> [i \in Idx(c.pars) |-> 0]] ELSE e.obs[s][t - 1].a
      mem == [i \in Idx(c.pars) |-> ParMem0(c, c.pars[i])]
      bad == {v \in ParBeforeV(cc, s, mem, prev, o.b, t) : v[1] # "P13"} \cup ParAfterV(cc, s, mem, o.b, o.a, t) \cup LimitsV(cc, o.b, o.a) IN
  {LET i == v[3][2]
       stuck == v[1] = "P19" /\ v[3][1] = "const" /\ vv[s][i].v # <<>> /\ Close(o.b.par[i], c.pars[i].v, 1) IN
   <<IF stuck THEN "known:constant-parameter-after-setup" ELSE v[2], <<e.tag, s, t, v[3]>>, v[4], v[5]>> : v \in {x \in bad : x[1] # "P03"}}
  \cup {<<"limits that use a variable", <<e.tag, s, t, v[3]>>, v[4], v[5]>> : v \in {x \in bad : x[1] = "P03"}}
StepsV(c, e, from, to) == UNION {UNION {StepBad(c, e, s, t) : t \in (from + 1)..to} : s \in Idx(c.scens)}

Operation == LET c == Cases[ci] e == c.execs[ex] op == e.ops[k + 1] IN
  /\ k < Len(e.ops)
  /\ CASE op.op = "steps" ->
            LET to == Min2(c.nt, pos + op.n)
                want == [i \in 1..op.n |-> IF pos + i <= c.nt THEN "step" ELSE "end"]
                got == IF lp + op.n <= Len(e.log) THEN SubSeq(e.log, lp + 1, lp + op.n) ELSE <<"nothing">> IN
            /\ (IF got = want THEN TRUE ELSE Reject(c, <<"outcome of the steps", <<e.tag, k + 1>>, want, got>>))
            /\ All(c, StepsV(c, e, pos, to))
            /\ pos' = to /\ lp' = lp + op.n /\ vv' = vv
       [] op.op = "run" ->
            /\ All(c, StepsV(c, e, pos, c.nt))
            /\ pos' = c.nt /\ lp' = lp + 1 /\ vv' = vv
       [] OTHER ->
            /\ LET got == e.log[lp + 1] IN
               All(c, CASE op.op = "set" -> SetV(c, op, got) [] op.op = "get" -> GetV(c, op, got) [] op.op = "bounds" -> BoundsV(c, op, got))
            /\ vv' = (IF op.op = "set" THEN Set(c, vv, op) ELSE vv)
            /\ lp' = lp + 1 /\ pos' = pos
  /\ k' = k + 1 /\ UNCHANGED <<ci, ex>>

Next == Operation
Spec == Init /\ [][Next]_vars
View == <<ci, ex, k>>
=============================================================================
