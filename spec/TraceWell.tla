------------------------------ MODULE TraceWell ------------------------------
(* Trace validation: the real builder accepts exactly the well-formed         *)
(* declarations, refuses the others naming something that is wrong, builds    *)
(* what was declared, and evaluates parameters to their definition.           *)
EXTENDS Wellformed, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ph, k, reg, have, bad
vars == <<ci, ph, k, reg, have, bad>>

Reject(c, p, what, want, got) == PrintT("REJECT " \o p \o " " \o ToJson([case |-> c.id, what |-> what, want |-> want, got |-> got]))

Init == ci \in Idx(Cases) /\ ph = "declare" /\ k = 0 /\ reg = NoNames /\ have = {} /\ bad = {}

Declare == LET c == Cases[ci] IN
  /\ ph = "declare" /\ k < Len(c.decl)
  /\ LET d == c.decl[k + 1] IN
       /\ bad' = IF DeclareFault(reg, d) THEN bad \cup {d.n} ELSE bad
       /\ reg' = Register(reg, d)
  /\ k' = k + 1 /\ UNCHANGED <<ci, ph, have>>
References == LET c == Cases[ci] IN
  /\ ph = "declare" /\ k = Len(c.decl)
  /\ bad' = bad \cup UNION {RefFaults(c, reg, c.refs[i]) : i \in Idx(c.refs)}
                \cup ConnFaults(c, reg)
                \cup {c.odd[i].n : i \in Idx(c.odd)}
  /\ ph' = "resolve" /\ k' = 0
  /\ UNCHANGED <<ci, reg, have>>
Round == LET c == Cases[ci] IN
  /\ ph = "resolve" /\ Available(c, have) # have
  /\ have' = Available(c, have) /\ k' = k + 1
  /\ UNCHANGED <<ci, ph, reg, bad>>
Same(c, what, want, got) == IF want = got THEN TRUE ELSE Reject(c, c.tag, what, want, got)
Verdict == LET c == Cases[ci] wrong == bad \cup Stuck(c, have) IN
  /\ ph = "resolve" /\ Available(c, have) = have
  /\ bad' = wrong
  /\ IF c.crashed THEN Reject(c, c.tag, "building never panics", "an error or a model", c.err)
     ELSE IF wrong = {} THEN
       IF ~c.built THEN Reject(c, c.tag, "a well-formed network is built", "a model", c.err)
       ELSE IF ~c.dumped THEN TRUE
       ELSE /\ Same(c, "the nodes built are those declared, with their edges", BuiltNodes(c, reg), c.dump.nodes)
            /\ Same(c, "the edges built are those declared", BuiltEdges(c), c.dump.edges)
            /\ Same(c, "the aggregated nodes built are those declared", BuiltGroups(c, reg, "agg"), c.dump.aggs)
            /\ Same(c, "the aggregated storages built are those declared", BuiltGroups(c, reg, "ast"), c.dump.asts)
            /\ Same(c, "the virtual storages built are those declared", BuiltGroups(c, reg, "vs"), c.dump.vss)
            /\ Same(c, "the recorders built are those declared", BuiltNames(reg, "rec"), c.dump.recs)
     ELSE IF c.built THEN Reject(c, c.tag, IF wrong \subseteq TwiceIn(c, "rec") THEN "known:duplicate-recorder-names" ELSE "an ill-formed network is refused", wrong, "a model")
     ELSE IF \E i \in Idx(c.named) : c.named[i] \in wrong THEN TRUE
     ELSE Reject(c, c.tag, "the error names what is wrong", wrong, c.err)
  /\ ph' = IF c.built /\ wrong = {} /\ c.vals # <<>> THEN "run" ELSE "done"
  /\ k' = 0 /\ UNCHANGED <<ci, reg, have>>

(* one step of a run: every parameter has the value its definition gives for  *)
(* the values of this very step                                               *)
Of(c, a) == CASE a.k = "lit" -> a.v
              [] a.k = "leaf" -> c.leaf[k + 1][a.v]
              [] a.k = "par" -> c.vals[k + 1][a.v][a.part]
Value(c, d) == IF d.t = "m" THEN LET x == Of(c, d.a[1]) u == Max2(0, Min2(S, Of(c, d.a[2]))) IN <<Mul(x, S - u), Mul(x, u)>>
               ELSE <<SumSeqOf(LAMBDA a : Of(c, a), d.a, Len(d.a))>>
Step == LET c == Cases[ci] IN
  /\ ph = "run"
  /\ \A i \in Idx(c.defs) : LET w == Value(c, c.defs[i]) g == c.vals[k + 1][i] IN
       IF \A j \in Idx(w) : Close(w[j], g[j], 3 + Len(c.defs[i].a) + (Abs(w[j]) \div S)) THEN TRUE
       ELSE Reject(c, c.tag, "a parameter has its definition's value on every step", <<k, c.deps[i].n, w>>, g)
  /\ k' = k + 1
  /\ ph' = IF k + 1 = Len(c.vals) THEN "done" ELSE "run"
  /\ UNCHANGED <<ci, reg, have, bad>>

Next == Declare \/ References \/ Round \/ Verdict \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
