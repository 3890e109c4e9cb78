------------------------------- MODULE Tables -------------------------------
(* Data tables. A table is a file, read record by record into entries (key,   *)
(* values); references to the table look entries up. A cell of a file is       *)
(* [s |-> its text, n |-> is it a number, v |-> the number].                   *)
(*   row   the first `cols` cells of a record are its key, the header record   *)
(*         is no entry                                                         *)
(*   col   the first `rows` records are headers, each column is an entry       *)
(*   both  headers and key cells; the key is the record's key followed by the  *)
(*         column's                                                            *)
EXTENDS Num, FiniteSets, TLC

Texts(cells) == [i \in Idx(cells) |-> cells[i].s]
Numbers(cells) == [i \in Idx(cells) |-> cells[i].v]
AllNumbers(cells) == \A i \in Idx(cells) : cells[i].n
From(q, k) == SubSeq(q, k, Len(q))

Supported(t) ==
  CASE t.kind = "row" -> t.cols \in 1..4
    [] t.kind = "col" -> t.rows \in 1..4
    [] t.kind = "both" -> ~t.arr /\ t.rows \in 1..2 /\ t.cols \in 1..2

(* what has been read: the entries so far; `bad` once the file cannot be used  *)
Unread(t) == [bad |-> ~Supported(t) \/ t.sum = "bad", ents |-> {}]
Key(t, r, c) ==
  CASE t.kind = "row" -> Texts(SubSeq(t.grid[r], 1, t.cols))
    [] t.kind = "col" -> [h \in 1..t.rows |-> t.grid[h][c].s]
    [] t.kind = "both" -> Texts(SubSeq(t.grid[r], 1, t.cols)) \o [h \in 1..t.rows |-> t.grid[h][c].s]
Heads(t) == IF t.kind = "row" THEN 1 ELSE t.rows
Extend(ents, key, v) ==
  IF \E e \in ents : e.key = key
  THEN {IF e.key = key THEN [e EXCEPT !.vals = Append(@, v)] ELSE e : e \in ents}
  ELSE ents \cup {[key |-> key, vals |-> <<v>>]}
RECURSIVE Columns(_, _, _, _)
Columns(t, ents, r, c) == IF c > Len(t.grid[r]) THEN ents ELSE Columns(t, Extend(ents, Key(t, r, c), t.grid[r][c].v), r, c + 1)

Record(t, st, r) ==
  LET rec == t.grid[r] rest == From(rec, t.cols + 1) IN
  IF st.bad THEN st
  ELSE IF Len(rec) # Len(t.grid[1]) THEN [st EXCEPT !.bad = TRUE]
  ELSE IF r <= Heads(t) THEN st
  ELSE CASE t.kind = "row" /\ ~t.arr ->
              IF Len(rest) # 1 THEN [st EXCEPT !.bad = TRUE]
              ELSE IF rest[1].n THEN [st EXCEPT !.ents = @ \cup {[key |-> Key(t, r, 0), vals |-> <<rest[1].v>>]}] ELSE st
         [] t.kind = "row" /\ t.arr ->
              IF ~AllNumbers(rest) THEN [st EXCEPT !.bad = TRUE]
              ELSE [st EXCEPT !.ents = @ \cup {[key |-> Key(t, r, 0), vals |-> Numbers(rest)]}]
         [] t.kind = "col" /\ ~t.arr ->
              IF r > t.rows + 1 THEN [st EXCEPT !.bad = TRUE]
              ELSE [st EXCEPT !.ents = {[key |-> Key(t, r, c), vals |-> <<rec[c].v>>] : c \in {x \in Idx(rec) : rec[x].n}}]
         [] t.kind = "col" /\ t.arr ->
              IF ~AllNumbers(rec) THEN [st EXCEPT !.bad = TRUE]
              ELSE [st EXCEPT !.ents = Columns(t, @, r, 1)]
         [] t.kind = "both" ->
              [st EXCEPT !.ents = @ \cup {[key |-> Key(t, r, c), vals |-> <<rec[c].v>>] : c \in {x \in (t.cols + 1)..Len(rec) : rec[x].n}}]
(* the end of the file                                                         *)
Closed(t, st) ==
  IF Len(t.grid) < Heads(t) THEN [st EXCEPT !.bad = TRUE]
  ELSE IF t.kind = "col" /\ ~t.arr /\ Len(t.grid) = t.rows THEN [st EXCEPT !.bad = TRUE]
  ELSE IF t.kind = "col" /\ t.arr /\ Len(t.grid) = t.rows /\ ~st.bad
       THEN [st EXCEPT !.ents = {[key |-> Key(t, 1, c), vals |-> <<>>] : c \in Idx(t.grid[1])}]
  ELSE st

(* a reference: the values it stands for, or none ("err")                       *)
Err == [ok |-> FALSE, vals |-> <<>>]
Lookup(ts, tabs, l) ==
  IF l.t = 0 THEN Err
  ELSE LET t == ts[l.t] st == tabs[l.t] hits == {e \in st.ents : e.key = l.key} IN
  IF st.bad \/ hits = {} THEN Err
  ELSE LET v == (CHOOSE e \in hits : TRUE).vals IN
  IF (l.want = "vec") # t.arr THEN Err
  ELSE IF l.want = "vec" /\ Len(v) # l.len THEN Err
  ELSE IF l.want = "u64" /\ (v[1] < 0 \/ v[1] % S # 0) THEN Err
  ELSE [ok |-> TRUE, vals |-> v]
(* its value on a step whose position in the profile is `pos`                    *)
ValueAt(l, res, pos) == IF l.want = "vec" THEN res.vals[pos] ELSE res.vals[1]
=============================================================================
