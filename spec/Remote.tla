-------------------------------- MODULE Remote --------------------------------
(* Remote datasets which are written again and again, and read through caches. *)
(*                                                                             *)
(* cfg: n sources                                                              *)
(* Events:                                                                     *)
(*   write(u, items)     source u now holds these items                        *)
(*   read(u, items)      a process which opened u after the last write read it *)
(*   size(u, n)          ... said it has n items                               *)
(*   kept(u, n)          the caches hold n versions of u, nobody reading       *)
(*   error(what)         opening or reading failed                             *)
EXTENDS Naturals, Integers, Sequences

InitSt(c) == [cfg |-> c, cur |-> [u \in 1..c.n |-> <<>>]]
Clause(e, s) ==
  CASE e.ev = "write" -> "ok"
    [] e.ev = "read"  -> IF e.items = s.cur[e.u] THEN "ok" ELSE "items_of_something_else"
    [] e.ev = "size"  -> IF e.n = Len(s.cur[e.u]) THEN "ok" ELSE "size_of_something_else"
    [] e.ev = "kept"  -> IF e.n <= 1 THEN "ok" ELSE "stale_versions_kept"
    [] e.ev = "error" -> "error"
    [] OTHER -> "unknown_event"
Apply(e, s) == IF e.ev = "write" THEN [s EXCEPT !.cur[e.u] = e.items] ELSE s
InvClause(s) == "ok"
Final(s) == "ok"
=============================================================================
