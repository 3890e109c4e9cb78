----------------------------- MODULE Histories -----------------------------
(* The specification run forwards: every history, up to a length, of a small *)
(* world. On each step the surroundings choose a letter, which sets the      *)
(* inflow, the demand and the inputs of parameters; everything else follows  *)
(* from the specification. Two things are checked of every history here:    *)
(*   Permitted  each step is one the trace specification (StepV) permits     *)
(*   AsDeclared what the bounded memories yield equals the definition over   *)
(*              the complete history                                        *)
(* and every complete history is printed; the real program is then put       *)
(* through all of them.                                                      *)
(* The world: 1 inflow (forced) -> 2 reservoir -> 3 demand; what does not    *)
(* fit is spilled: 1 -> 4. Virtual storages limit the demand. Parameter k of *)
(* kind arr2 takes the value map[letter].                                    *)
EXTENDS Simulation, Json, IOUtils

H == JsonDeserialize(IOEnv.CASES)
C == H.world
N == H.steps
Letters == 1..H.letters

VARIABLES w, hist, mem
vars == <<w, hist, mem>>

RECURSIVE Pars(_, _, _, _, _)
Pars(r, m, l, t, i) ==
  IF i > Len(C.pars) THEN r
  ELSE LET p == C.pars[i]
           v == IF p.k = "arr2" THEN p.map[l]
                ELSE LET def == Def(C, 1, [p EXCEPT !.ex = TRUE], m[i], r, t) IN (CHOOSE x \in def : TRUE)[1]
       IN Pars([r EXCEPT !.par[i] = v], m, l, t, i + 1)

PVol(v, mx) == Prop(v, mx)
NoFlow == [edge |-> <<0, 0, 0>>, nin |-> <<0, 0, 0, 0>>, nout |-> <<0, 0, 0, 0>>]

(* what is seen at the beginning of step t *)
Begin(l, t) ==
  LET prev == IF t = 1 THEN NoFlow ELSE hist[t - 1].a
      mx == C.nodes[2].mxv.v
      vol == IF t = 1 THEN InitVol(C.nodes[2], mx) ELSE prev.vol[2]
      vb(g) == VsBegin(C.vss[g], mem.vs[g], IF t = 1 THEN 0 ELSE prev.vsv[g], C.vss[g].mxv.v, t, C.times[t]).vol
      r0 == [edge |-> prev.edge, nin |-> prev.nin, nout |-> prev.nout, vol |-> <<NAN, vol, NAN, NAN>>, pvol |-> <<NAN, PVol(vol, mx), NAN, NAN>>,
             mxv |-> <<NAN, mx, NAN, NAN>>, mxf |-> <<NAN, NAN, NAN, NAN>>, aggin |-> <<>>, aggout |-> <<>>, asv |-> <<>>, asp |-> <<>>,
             vsv |-> [g \in Idx(C.vss) |-> vb(g)], vsp |-> [g \in Idx(C.vss) |-> Prop(vb(g), C.vss[g].mxv.v)],
             par |-> [i \in Idx(C.pars) |-> NAN]]
  IN Pars(r0, mem.par, l, t, 1)

(* the allocation: the demand first, then the reservoir, the rest is spilled *)
Left(b, d, dt, g) == IF VsActive(C.vss[g], d) THEN MulDiv(b.vsv[g], MulDiv(S, S, C.vss[g].fac[1]), dt) ELSE INF
Min3(set) == CHOOSE x \in set : \A y \in set : x <= y
Take(b, d, dt) ==
  LET inflow == Val(C.nodes[1].mn, b)
      supply == Min3({Val(C.nodes[3].mx, b), MulDiv(b.vol[2], S, dt) + inflow} \cup {Left(b, d, dt, g) : g \in Idx(C.vss)})
      fill == Min2(inflow, MulDiv(C.nodes[2].mxv.v - b.vol[2], S, dt) + supply)
  IN <<fill, supply, inflow - fill>>

After(b, q, d, dt) ==
  LET vol == b.vol[2] + MulDiv(q[1] - q[2], dt, S)
      fl == [edge |-> q, nin |-> <<0, q[1], q[2], q[3]>>, nout |-> <<q[1] + q[3], q[2], 0, 0>>]
      ve(g) == VsEndVol(C, C.vss[g], b.vsv[g], fl, dt, d)
  IN [b EXCEPT !.edge = fl.edge, !.nin = fl.nin, !.nout = fl.nout, !.vol[2] = vol, !.pvol[2] = PVol(vol, C.nodes[2].mxv.v),
        !.mxf = [i \in 1..4 |-> IF i = 2 THEN NAN ELSE Val(C.nodes[i].mx, b)],
        !.vsv = [g \in Idx(C.vss) |-> ve(g)], !.vsp = [g \in Idx(C.vss) |-> Prop(ve(g), C.vss[g].mxv.v)]]

Init == w = <<>> /\ hist = <<>> /\ mem = Mem0(C)
Next == /\ Len(w) < N
        /\ \E l \in Letters :
             LET t == Len(w) + 1 d == C.times[t] b == Begin(l, t) q == Take(b, d, d.dt) a == After(b, q, d, d.dt) IN
             /\ w' = Append(w, l)
             /\ hist' = Append(hist, [b |-> b, a |-> a])
             /\ mem' = NextMem(C, 1, mem, IF t = 1 THEN <<>> ELSE hist[t - 1].a, b, a, t)
             /\ (t < N \/ PrintT("HIST " \o ToJson([w |-> w', q |-> [u \in 1..N |-> hist'[u].a.edge]])))
Spec == Init /\ [][Next]_vars
View == w

(* ---- the steps are permitted ------------------------------------------- *)
(* as an action property: the step taken, judged from the state before it    *)
StepPermitted ==
  LET t == Len(w') h == hist'[t] p == IF t = 1 THEN <<>> ELSE hist[t - 1].a
      V(a) == {v \in StepV(C, 1, mem, p, h.b, a, t, <<>>) : ~(v[2] = "value of a parameter" /\ v[3][1] = "arr2")}    \* letters are free
      bump(q) == After(h.b, q, C.times[t], C.times[t].dt) IN
  /\ (V(h.a) = {} \/ (PrintT(<<w', V(h.a)>>) /\ FALSE))
  \* the specification is not lax: less or more than this is refused
  /\ V(bump([h.a.edge EXCEPT ![2] = @ + 250])) # {}
  /\ BalanceV(C, h.b, [h.a EXCEPT !.vol[2] = @ + 250], C.times[t].dt) # {}
  /\ VsEndV(C, h.b, [h.a EXCEPT !.vsv = [g \in Idx(C.vss) |-> @[g] - 250]], C.times[t].dt, C.times[t]) # {}
  /\ \A i \in Idx(C.pars) : C.pars[i].k = "arr2" \/ ~Permits(Def(C, 1, C.pars[i], mem.par[i], h.b, t), h.b.par[i] + S)
Permitted == [][Len(w') > Len(w) => StepPermitted]_vars

(* ---- memories against complete histories -------------------------------- *)
Sum(F(_), lo, hi) == SumSet(F, lo..hi)
InB(x, u) == Val(x, hist[u].b)
InA(x, u) == Val(x, hist[u].a)
Holds(p, x, y) == CASE p = "LT" -> x < y [] p = "GT" -> x > y [] p = "LE" -> x <= y [] p = "GE" -> x >= y [] p = "EQ" -> x = y
Place(p, x, ys) == IF \E i \in Idx(ys) : Holds(p, x, ys[i])
                   THEN (CHOOSE i \in Idx(ys) : Holds(p, x, ys[i]) /\ \A j \in 1..(i - 1) : ~Holds(p, x, ys[j])) - 1 ELSE Len(ys)
Window(p, t) == [i \in 1..Min2(p.n, t - 1) |-> InA(p.x, t - 1 - Min2(p.n, t - 1) + i)]
Declared(p, t) ==
  CASE p.k = "thr" -> IF \E u \in (IF p.ratchet THEN 1 ELSE t)..t : Holds(p.pred, InB(p.x, u), InB(p.y, u)) THEN S ELSE 0
    [] p.k = "mthr" -> LET pos(u) == S * Place(p.pred, InB(p.x, u), [i \in Idx(p.ms) |-> InB(p.ms[i], u)]) IN
         IF p.ratchet THEN CHOOSE v \in {pos(u) : u \in 1..t} : \A u \in 1..t : pos(u) <= v ELSE pos(t)
    [] p.k = "switch" -> IF \E u \in 1..t : InB(p.x, u) > 0 /\ \A z \in (u + 1)..t : InB(p.x, z) > 0 \/ InB(p.y, z) > 0 THEN S ELSE 0
    [] p.k = "delay" -> IF t <= p.n THEN p.v ELSE InA(p.x, t - p.n)
    [] p.k = "roll" -> IF t - 1 < p.mn THEN p.v
         ELSE LET f == Window(p, t) IN
              CASE p.f = "Sum" -> SumSeq(f) [] p.f = "Max" -> MaxSeq(f) [] p.f = "Min" -> MinSeq(f) [] p.f = "Mean" -> DivR(SumSeq(f), Len(f))

(* virtual storages: what was used since the last reset, or within the window *)
Use(g, u) == IF VsActive(C.vss[g], C.times[u]) THEN VsUse(C, C.vss[g], hist[u].a, C.times[u].dt) ELSE 0
RECURSIVE ResetAt(_, _)      \* the step of the last reset up to t
ResetAt(g, t) ==
  LET v == C.vss[g] d == C.times[t] IN
  IF t = 1 THEN 1
  ELSE IF v.reset.k = "months" /\ (C.times[t].y * 12 + C.times[t].mo) - (C.times[ResetAt(g, t - 1)].y * 12 + C.times[ResetAt(g, t - 1)].mo) >= v.reset.n THEN t
  ELSE IF v.reset.k = "doy" /\ VsPassed(VsWhen(C.times[ResetAt(g, t - 1)]), VsWhen(d), v.reset.m, v.reset.d) THEN t
  ELSE IF ~VsActive(v, d) THEN t
  ELSE ResetAt(g, t - 1)
Stock(g, t) ==
  LET v == C.vss[g] r == ResetAt(g, t) lo == IF v.win > 0 THEN Max2(r, t - v.win + 1) ELSE r IN
  VsAnew(v, v.mxv.v, r) - Sum(LAMBDA u : Use(g, u), lo, t)

AsDeclared ==
  LET t == Len(hist) IN
  t > 0 =>
    /\ \A i \in Idx(C.pars) : C.pars[i].k \in {"thr", "mthr", "switch", "delay", "roll"} => hist[t].b.par[i] = Declared(C.pars[i], t)
    /\ hist[t].a.vol[2] = InitVol(C.nodes[2], C.nodes[2].mxv.v) + Sum(LAMBDA u : MulDiv(hist[u].a.nin[2] - hist[u].a.nout[2], C.times[u].dt, S), 1, t)
    /\ 0 <= hist[t].a.vol[2] /\ hist[t].a.vol[2] <= C.nodes[2].mxv.v
    /\ \A g \in Idx(C.vss) : hist[t].a.vsv[g] = Stock(g, t) /\ hist[t].a.vsv[g] >= 0
=============================================================================
