------------------------------- MODULE Plans --------------------------------
(* Every way of executing a small model, up to a length: the operations are    *)
(* letters, applied to one of a few set-ups of the model; a letter advances    *)
(* the set-up (Lifecycle) or assigns values to its variables (Variables). The   *)
(* words are printed to be put through the program. Checked on all of them:     *)
(* a set-up is where its own operations brought it, whatever happened to the    *)
(* others in between, it never leaves the time-steps of the model, the end      *)
(* is final, and the values in force are the last that were assigned.          *)
EXTENDS Variables, Lifecycle, Json, IOUtils

J == JsonDeserialize(IOEnv.CASES)
World == J.world
Ops == J.ops
VARIABLES plan, pos, log, vv
vars == <<plan, pos, log, vv>>

Setups == 1..J.setups
Init == /\ plan = <<>>
        /\ pos = [i \in Setups |-> 0] /\ log = [i \in Setups |-> <<>>]
        /\ vv = [i \in Setups |-> Vars0(World)]

Move(op, i) == IF op.op = "set" THEN [log |-> <<"set">>, pos |-> i] ELSE Do(op, i, J.nt)
Next == /\ Len(plan) < J.len
        /\ \E on \in Setups, l \in Idx(Ops) :
             LET r == Move(Ops[l], pos[on]) IN
             /\ plan' = Append(plan, <<on, l>>)
             /\ pos' = [pos EXCEPT ![on] = r.pos]
             /\ log' = [log EXCEPT ![on] = @ \o r.log]
             /\ vv' = [vv EXCEPT ![on] = IF Ops[l].op = "set" THEN Set(World, @, Ops[l]) ELSE @]
             /\ PrintT("PLAN " \o ToJson(plan'))
Spec == Init /\ [][Next]_vars

(* what a set-up's own operations do to it                                     *)
RECURSIVE Alone(_, _)
Alone(w, st) == IF w = <<>> THEN st
                ELSE LET r == Move(Ops[w[1][2]], st.pos) IN Alone(SubSeq(w, 2, Len(w)), [pos |-> r.pos, log |-> st.log \o r.log])
Own(i) == SelectSeq(plan, LAMBDA x : x[1] = i)
Independent == \A i \in Setups : Alone(Own(i), [pos |-> 0, log |-> <<>>]) = [pos |-> pos[i], log |-> log[i]]
Times(i, what) == Cardinality({k \in Idx(log[i]) : log[i][k] = what})
Bounded == \A i \in Setups : pos[i] <= J.nt /\ Times(i, "step") <= pos[i] /\ (Times(i, "run") = 0 => Times(i, "step") = pos[i])
EndIsFinal == \A i \in Setups : \A a, b \in Idx(log[i]) : (a < b /\ log[i][a] \in {"end", "run"}) => log[i][b] # "step"
(* the last accepted assignment to a scenario's variable is in force            *)
Assigned(i, s, p, days) ==
  LET ks == {k \in Idx(plan) : plan[k][1] = i /\ LET o == Ops[plan[k][2]] IN
               o.op = "set" /\ o.p = p /\ s \in Addressed(World, o) /\ o.days = days /\ Accepts(World.pars[p], o)} IN
  IF ks = {} THEN <<>>
  ELSE LET o == Ops[plan[CHOOSE k \in ks : \A j \in ks : j <= k][2]] IN
       IF days \/ World.pars[p].k = "rbf" THEN o.values ELSE <<Activate(o.act, o.values[1])>>
LastWins == \A i \in Setups, s \in Idx(World.scens), p \in Idx(World.pars) :
              vv[i][s][p] = [v |-> Assigned(i, s, p, FALSE), x |-> Assigned(i, s, p, TRUE)]
=============================================================================
