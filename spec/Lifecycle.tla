----------------------------- MODULE Lifecycle -----------------------------
(* Executions of a built model. A model with nt time-steps is set up with     *)
(* position 0; it is advanced by single steps or by a run to the end, in any   *)
(* order and with any pauses; past the last step nothing changes. What happens *)
(* at a time-step of a scenario depends on the scenario alone: every execution *)
(* follows the one trajectory of each of its scenarios.                        *)
EXTENDS Num

(* an operation from position i: [log, pos]                                    *)
Entries(i, n, nt) == [k \in 1..n |-> IF i + k <= nt THEN "step" ELSE "end"]
Do(op, i, nt) ==
  CASE op.op = "steps" -> [log |-> Entries(i, op.n, nt), pos |-> Min2(nt, i + op.n)]
    [] op.op = "run" -> [log |-> <<"run">>, pos |-> nt]
    [] OTHER -> [log |-> <<>>, pos |-> nt]          \* "whole": set up, run and finish in one call
=============================================================================
