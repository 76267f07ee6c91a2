---------------------------------- MODULE Map ----------------------------------
(* litdata.map over values, files, a streaming dataloader or Parquet files, and *)
(* optimize over the latter two.                                               *)
(*                                                                             *)
(* cfg: n inputs (1..n), out (files written for each), old files in the output *)
(* directory before (ids -1, -2, ...), refuse (the directory has to be empty   *)
(* and isn't), at/fail (planned failure), B (largest batch), ordered, lastflag *)
(* Events:                                                                     *)
(*   call(xs, w, last)  worker w got the inputs xs; last: told it's the last   *)
(*   fault              a planned failure of a copy took place                 *)
(*   ok, fail, crash, hang                                                     *)
(*   dir(files)         files [id, good] of the output directory afterwards;   *)
(*                      id of the k-th file of input x is 10x+k, 0 is unknown  *)
(*   inputs(same)           the input files are what they were                 *)
(*   read(items)        the dataset written by optimize                        *)
(*   error(what)                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

InitSt(c) == [cfg |-> c, done |-> {}, ended |-> {}, began |-> {}, struck |-> FALSE, res |-> ""]

Ids(c) == UNION {{10 * x + k : k \in 1..c.out[x]} : x \in 1..c.n}
Old(c) == {-k : k \in 1..c.old}
Set(q) == {q[k] : k \in 1..Len(q)}
Distinct(q) == Cardinality(Set(q)) = Len(q)

CallClause(e, s) ==
  LET c == s.cfg IN
  IF c.refuse THEN "called_though_refused"
  ELSE IF ~(Set(e.xs) \subseteq 1..c.n) THEN "unknown_input"
  ELSE IF ~Distinct(e.xs) \/ Set(e.xs) \cap s.done # {} THEN "input_twice"
  ELSE IF Len(e.xs) > c.B THEN "batch_too_big"
  ELSE IF c.lastflag /\ e.w \in s.ended THEN "call_after_the_last"
  ELSE "ok"

OkClause(s) ==
  LET c == s.cfg IN
  IF c.refuse THEN "not_refused"
  ELSE IF s.struck THEN "failure_not_reported"
  ELSE IF s.done # 1..c.n THEN "input_missing"
  ELSE IF c.lastflag /\ s.began # s.ended THEN "last_not_announced"
  ELSE "ok"

DirClause(e, s) ==
  LET c == s.cfg
      there == {e.files[k].id : k \in 1..Len(e.files)}
      good == {e.files[k].id : k \in {k \in 1..Len(e.files) : e.files[k].good}} IN
  IF ~(Old(c) \subseteq good) THEN "old_file_lost"
  ELSE IF c.refuse /\ there # Old(c) THEN "file_unexpected"
  ELSE IF ~(there \subseteq Old(c) \cup Ids(c)) THEN "file_unexpected"
  ELSE IF there # good THEN "file_altered"
  ELSE IF s.res = "ok" /\ ~(Ids(c) \subseteq there) THEN "file_missing"
  ELSE "ok"

ReadClause(e, s) ==
  LET c == s.cfg IN
  IF ~Distinct(e.items) THEN "item_twice"
  ELSE IF Set(e.items) # 1..c.n THEN "item_missing"
  ELSE IF c.ordered /\ \E k \in 1..Len(e.items) : e.items[k] # k THEN "order"
  ELSE "ok"

Clause(e, s) ==
  CASE e.ev = "call"  -> CallClause(e, s)
    [] e.ev = "fault" -> "ok"
    [] e.ev = "ok"    -> OkClause(s)
    [] e.ev = "fail"  -> IF s.cfg.refuse \/ s.struck THEN "ok" ELSE "spurious_failure"
    [] e.ev = "crash" -> "crashed"
    [] e.ev = "hang"  -> "hang"
    [] e.ev = "dir"   -> DirClause(e, s)
    [] e.ev = "inputs" -> IF e.same THEN "ok" ELSE "input_file_changed"
    [] e.ev = "read"  -> IF s.res = "ok" THEN ReadClause(e, s) ELSE "ok"
    [] e.ev = "error" -> "error"
    [] OTHER -> "unknown_event"

Apply(e, s) ==
  CASE e.ev = "call"  -> [s EXCEPT !.done = @ \cup Set(e.xs), !.began = @ \cup {e.w},
                                   !.ended = IF e.last THEN @ \cup {e.w} ELSE @,
                                   !.struck = @ \/ (s.cfg.fail \in {"raise", "exit", "kill"} /\ s.cfg.at \in Set(e.xs))]
    [] e.ev = "fault" -> [s EXCEPT !.struck = TRUE]
    [] e.ev \in {"ok", "fail"} -> [s EXCEPT !.res = e.ev]
    [] OTHER -> s
InvClause(s) == "ok"
Final(s) == IF s.res = "" THEN "no_result" ELSE "ok"
=============================================================================
