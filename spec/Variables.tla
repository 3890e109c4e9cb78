----------------------------- MODULE Variables ------------------------------
(* Parameters whose values can be assigned while a model is being run. Every  *)
(* scenario has its own assignment of every such parameter: v, the values     *)
(* ("y" values of a profile) and x, the days of the points of a profile;       *)
(* <<>> while nothing has been assigned. Evaluations on later steps use the    *)
(* assigned values; nothing else changes.                                     *)
EXTENDS Simulation

Variable(p) == p.k \in {"const", "off", "rbf"}
Vars0(c) == [s \in Idx(c.scens) |-> [p \in Idx(c.pars) |-> [v |-> <<>>, x |-> <<>>]]]

(* what an assigned number stands for                                         *)
Logistic1 == <<247, 669, 1799, 4743, 11920, 26894, 50000, 73106, 88080, 95257, 98201, 99331, 99753>>  \* 1/(1+exp(-n)), n = -6..6
Activate(a, x) ==
  CASE a.k = "Unit" -> Clamp(x, a.min, a.max)
    [] a.k = "Rectifier" -> LET y == Clamp(x, -S, S) IN IF y <= 0 THEN a.off ELSE a.min + Mul(y, a.max - a.min)
    [] a.k = "BinaryStep" -> IF Clamp(x, -S, S) <= 0 THEN a.off ELSE a.on
    [] a.k = "Logistic" -> MulDiv(a.max, Logistic1[(Mul(Clamp(x, -6 * S, 6 * S), a.rate) \div S) + 7], 100000)
ActBounds(a) ==
  CASE a.k = "Unit" -> <<a.min, a.max>>
    [] a.k = "Logistic" -> <<-6 * S, 6 * S>>
    [] OTHER -> <<-S, S>>

(* may the parameter be assigned these values?                                *)
Count_(p) == IF p.k = "rbf" THEN Len(p.v) ELSE 1
Accepts(p, op) ==
  /\ Variable(p)
  /\ (op.days => p.k = "rbf")
  /\ Len(op.values) = Count_(p)
  (* a year is 365 days: no two points on one day *)
  /\ (op.days => \A i, j \in Idx(op.values) : i # j => op.values[i] % 365 # op.values[j] % 365)
Assign(p, old, op) ==
  IF ~Accepts(p, op) THEN old
  ELSE IF op.days THEN [old EXCEPT !.x = op.values]
  ELSE [old EXCEPT !.v = IF p.k = "rbf" THEN op.values ELSE <<Activate(op.act, op.values[1])>>]
Addressed(c, op) == IF op.scen = 0 THEN Idx(c.scens) ELSE {op.scen}
Set(c, vv, op) == [s \in Idx(c.scens) |-> IF s \in Addressed(c, op) THEN [vv[s] EXCEPT ![op.p] = Assign(c.pars[op.p], @, op)] ELSE vv[s]]

(* the parameter as it is evaluated with an assignment                         *)
With(p, a) ==
  CASE p.k = "rbf" -> [p EXCEPT !.v = IF a.v = <<>> THEN @ ELSE a.v, !.xs = IF a.x = <<>> THEN @ ELSE a.x]
    [] p.k \in {"const", "off"} -> [p EXCEPT !.v = IF a.v = <<>> THEN @ ELSE a.v[1]]
    [] OTHER -> p
CaseWith(c, va) == [c EXCEPT !.pars = [i \in Idx(c.pars) |-> With(c.pars[i], va[i])]]

(* bounds declared for the values of a variable                               *)
BoundsOf(p, op) ==
  IF p.k = "rbf" THEN
    LET a == op.act n == Len(p.v) IN
    IF op.days
    THEN IF a.range < 0 THEN [lo |-> <<>>, hi |-> <<>>, n |-> 0]
         ELSE [lo |-> [i \in 1..n |-> Max2(1, p.xs[i] - a.range)], hi |-> [i \in 1..n |-> Min2(365, p.xs[i] + a.range)], n |-> n]
    ELSE [lo |-> [i \in 1..n |-> a.lo], hi |-> [i \in 1..n |-> a.hi], n |-> n]
  ELSE [lo |-> <<ActBounds(op.act)[1]>>, hi |-> <<ActBounds(op.act)[2]>>, n |-> 1]
=============================================================================
