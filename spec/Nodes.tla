--------------------------------- MODULE Nodes ---------------------------------
(* Several machines (nodes) run the same script at once and share the work of  *)
(* optimize or map into one output directory, one such run after another.      *)
(*                                                                             *)
(* Events:                                                                     *)
(*   run(op, mode, n, ids, P, ordered, at)   P nodes begin a run over n inputs; *)
(*                        ids: the item of each input; at: the input whose     *)
(*                        function fails, or 0                                 *)
(*   call(x)              the function was given input x                       *)
(*   node(p, res)         how node p ended: ok, fail, waiting (for another     *)
(*                        node; it was stopped), hang or crash                 *)
(*   published(bad)       an index.json appeared; bad: chunks it lists which   *)
(*                        were missing, or not as long as listed, right then   *)
(*   read(items), noread  what a reader of the directory gets afterwards       *)
(*   files(ids, odd)      outputs of map: those present and right; odd: others *)
EXTENDS Naturals, Sequences, FiniteSets

None == [op |-> "none"]
InitSt(c) == [run |-> None, calls |-> <<>>, res |-> {}, data |-> <<>>, sets |-> {}, has |-> FALSE, files |-> {}, pub |-> 0]
Set(q) == {q[k] : k \in 1..Len(q)}
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
Failed(s) == s.run.at # 0
\* what the directory holds once all nodes are through
Keeps(s) == s.run.mode = "append" /\ s.has
Items(s) == IF s.run.op # "optimize" THEN s.data
            ELSE IF Failed(s) THEN IF Keeps(s) THEN s.data ELSE <<>>
            ELSE IF Keeps(s) THEN s.data \o s.run.ids ELSE s.run.ids
There(s) == IF s.run.op # "optimize" THEN s.has ELSE IF Failed(s) THEN Keeps(s) ELSE TRUE
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Set(p) \cup Set(q) : Count(p, x) = Count(q, x)
\* runs whose inputs are spread by size keep no order of their own
Ordered(s) == s.run.ordered

Written(s) == IF s.run.op = "map" THEN Set(s.run.ids) ELSE {}

ReadClause(e, s) ==
  LET want == Items(s)
      old == IF Keeps(s) THEN Len(s.data) ELSE 0 IN
  IF ~There(s) THEN "incomplete_published"
  ELSE IF ~(Set(want) \subseteq Set(e.items)) THEN "item_lost"
  ELSE IF ~SameBag(want, e.items) THEN "item_twice_or_foreign"
  ELSE IF Ordered(s) /\ SubSeq(e.items, old + 1, Len(e.items)) # SubSeq(want, old + 1, Len(want)) THEN "order"
  ELSE "ok"

NodeClause(e, s) ==
  CASE e.res = "ok"      -> "ok"
    [] e.res = "fail"    -> IF Failed(s) THEN "ok" ELSE "failed_in_vain"
    [] e.res = "waiting" -> IF Failed(s) THEN "ok" ELSE "waits_for_ever"
    [] OTHER -> e.res

Clause(e, s) ==
  CASE e.ev = "run"       -> "ok"
    [] e.ev = "call"      -> IF e.x \notin 1..s.run.n THEN "not_an_input"
                             ELSE IF e.x \in Set(s.calls) THEN "input_twice" ELSE "ok"
    [] e.ev = "node"      -> NodeClause(e, s)
    [] e.ev = "ended"     -> IF ~Failed(s) /\ Cardinality(Set(s.calls)) # s.run.n THEN "input_left_out"
                             ELSE IF Failed(s) /\ "fail" \notin s.res THEN "failure_hidden"
                             ELSE IF s.run.op = "optimize" /\ ~Failed(s) /\ s.pub # 1 THEN "published_times"
                             ELSE "ok"
    [] e.ev = "published" -> IF Failed(s) THEN "incomplete_published" ELSE IF e.bad # 0 THEN "published_too_early" ELSE "ok"
    [] e.ev = "read"      -> ReadClause(e, s)
    [] e.ev = "noread"    -> IF There(s) THEN "unreadable" ELSE "ok"
    [] e.ev = "files"     -> IF e.odd # 0 THEN "foreign_file"
                             ELSE IF ~(s.files \subseteq Set(e.ids)) \/ ~(Written(s) \subseteq Set(e.ids) \/ Failed(s)) THEN "file_lost"
                             ELSE IF ~(Set(e.ids) \subseteq Written(s) \cup s.files) THEN "foreign_file" ELSE "ok"
    [] OTHER -> "error"

Apply(e, s) ==
  CASE e.ev = "run"       -> [s EXCEPT !.run = e, !.calls = <<>>, !.res = {}, !.pub = 0]
    [] e.ev = "call"      -> [s EXCEPT !.calls = Append(@, e.x)]
    [] e.ev = "node"      -> [s EXCEPT !.res = @ \cup {e.res}]
    [] e.ev = "published" -> [s EXCEPT !.pub = 1]
    \* the order of a run which has none is what is read
    [] e.ev = "read"      -> [s EXCEPT !.data = e.items, !.has = TRUE]
    [] e.ev = "noread"    -> [s EXCEPT !.data = <<>>, !.has = FALSE]
    [] e.ev = "files"     -> [s EXCEPT !.files = Set(e.ids)]
    [] OTHER -> s
InvClause(s) == "ok"
Final(s) == "ok"
=============================================================================
