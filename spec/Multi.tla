------------------------------- MODULE Multi -------------------------------
(* A model of several networks. On every time-step the networks are solved   *)
(* in declared order; immediately before a network is solved its transfers    *)
(* are given the latest value of their source in another network.             *)
(* A network is a sequence of items, each computed from what is known then:   *)
(*   xfer  [from, item, init]  a value taken from another network             *)
(*   arr   [v]                 an input series, v[s][t]                       *)
(*   const [x]                                                                *)
(*   sum   [of]                the sum of earlier items                       *)
(*   max   [of]                their maximum                                 *)
(*   prev  [of]                a parameter that reads a flow: last step's     *)
(*   flow  [of]                the flow of a channel limited by an item, cap  *)
(*   vol   [of, v0]            the volume of a storage filled by a flow       *)
EXTENDS Num

Item(net, i) == net.items[i]
(* what a metric yields before its network has been solved for the first time *)
Initial(it) == CASE it.k = "flow" -> 0 [] it.k = "const" -> it.x [] OTHER -> NAN      \* NAN: not specified

(* the value an item takes when its network is solved at step t (0-based) of  *)
(* scenario s; val: the latest values of all networks, cur: of this network's *)
(* earlier items; seen: the value observed, taken where none is specified      *)
ItemValue(it, n, i, t, s, val, cur, dt, seen) ==
  CASE it.k = "xfer" ->
         (IF t = 0 /\ it.init # NAN THEN it.init
          ELSE LET v == val[it.from][it.item] IN IF v = NAN THEN seen ELSE v)
    [] it.k = "arr" -> it.v[s][t + 1]
    [] it.k = "const" -> it.x
    [] it.k = "sum" -> SumOver(LAMBDA j : cur[j], it.of)
    [] it.k = "prev" -> val[n][it.of]
    [] it.k = "max" -> MaxSeq([j \in Idx(it.of) |-> cur[it.of[j]]])
    [] it.k = "flow" -> Min2(cur[it.of], it.cap)
    [] it.k = "vol" -> (IF t = 0 THEN it.v0 ELSE val[n][i]) + cur[it.of] * dt
RECURSIVE Solve(_, _, _, _, _, _, _, _)
Solve(net, n, t, s, val, cur, dt, seen) ==
  IF Len(cur) = Len(net.items) THEN cur
  ELSE LET i == Len(cur) + 1 IN
       Solve(net, n, t, s, val, Append(cur, ItemValue(net.items[i], n, i, t, s, val, cur, dt, seen[i])), dt, seen)

Val0(nets) == [n \in Idx(nets) |-> [i \in Idx(nets[n].items) |-> Initial(nets[n].items[i])]]
=============================================================================
