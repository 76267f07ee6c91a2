-------------------------------- MODULE Items --------------------------------
(* Values stored in a dataset.  A value is a structure (dictionaries, lists,  *)
(* tuples) with typed leaves.  The first stored value fixes the format of the *)
(* dataset: its structure and the type of every leaf.                         *)
(* A value of that format has to be accepted; another one may be refused; but *)
(* whatever was accepted is read back equal, at its place, and with the very  *)
(* same types if it has the format of the dataset.                            *)
(*                                                                            *)
(* value = [spec |-> STRING, leaves |-> << [k |-> type, c |-> content] >>]    *)
(* Events: put(val, ok), closed(ok), length(n), got(i, val), unread.          *)
EXTENDS Naturals, Sequences

Kinds(v) == [x \in 1..Len(v.leaves) |-> v.leaves[x].k]
Fmt(v) == <<v.spec, Kinds(v)>>
Contents(v) == [x \in 1..Len(v.leaves) |-> v.leaves[x].c]
NoFmt == <<>>
\* not every dtype is promised to be supported; an asymmetric key encrypts short values only
Promised(v, s) == ~s.cfg.short /\ \A x \in 1..Len(v.leaves) : v.leaves[x].k # "nd1:>i4"

InitSt(c) == [cfg |-> c, fmt |-> NoFmt, vals |-> <<>>, mixed |-> FALSE, closed |-> FALSE, size |-> 0, seen |-> {}]

Clause(e, s) ==
  CASE e.ev = "put" ->
         IF e.ok \/ (s.fmt # NoFmt /\ Fmt(e.val) # s.fmt) \/ ~Promised(e.val, s) THEN "ok"
         ELSE IF s.fmt = NoFmt THEN "first_value_refused" ELSE "value_of_the_format_refused"
    [] e.ev = "closed" ->
         \* values of several formats may be noticed late, but nothing can be read then
         IF e.ok \/ s.mixed \/ ~(\A x \in 1..Len(s.vals) : Promised(s.vals[x], s)) THEN "ok" ELSE "cannot_finish"
    [] e.ev = "length" -> IF s.closed /\ e.n = Len(s.vals) THEN "ok" ELSE "wrong_number_of_values"
    [] e.ev = "got" ->
         IF ~(e.i \in 0..(Len(s.vals) - 1)) THEN "foreign_value"
         ELSE LET w == s.vals[e.i + 1] IN
              IF e.val.spec # w.spec THEN "structure_changed"
              ELSE IF Len(e.val.leaves) # Len(w.leaves) THEN "leaves_lost"
              ELSE IF Contents(e.val) # Contents(w) THEN "content_changed"
              ELSE IF Fmt(w) = s.fmt /\ Kinds(e.val) # Kinds(w) THEN "type_changed"
              ELSE "ok"
    [] e.ev = "unread" -> "unreadable"
    [] OTHER -> "error"

Apply(e, s) ==
  CASE e.ev = "put" -> IF ~e.ok THEN s
         ELSE [s EXCEPT !.fmt = IF @ = NoFmt THEN Fmt(e.val) ELSE @, !.vals = Append(@, e.val),
                        !.mixed = @ \/ (s.fmt # NoFmt /\ Fmt(e.val) # s.fmt)]
    [] e.ev = "closed" -> [s EXCEPT !.closed = e.ok]
    [] e.ev = "got" -> [s EXCEPT !.seen = @ \cup {e.i}]
    [] OTHER -> s

InvClause(s) == "ok"
Final(s) == IF s.closed /\ s.seen # 0..(Len(s.vals) - 1) THEN "value_not_read" ELSE "ok"
=============================================================================
