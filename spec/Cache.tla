--------------------------------- MODULE Cache ---------------------------------
(* Reading a remote dataset through a local cache of limited size, with any    *)
(* number of readers (ranks and dataloader workers) sharing the cache.         *)
(*                                                                             *)
(* cfg: N items, K chunks, R ranks, W readers per rank, pre chunks ahead,      *)
(* fits (the dataset is smaller than the limit), clean (only complete epochs), *)
(* enforce (groups of clauses).  Events:                                       *)
(*   epoch(complete), got(items)    what one rank received                     *)
(*   end(wait, peak, left, locks, other, fetched)                              *)
(*       wait: the longest time (ms) spent for one item; peak/left: chunks in  *)
(*       the cache at most/at the end; locks, other: lock counts and remains   *)
(*       of unfinished downloads at the end; fetched: downloads                *)
(*   get(asked, got)                items read by their number                 *)
(*   source(same)                   the remote files are what they were        *)
(*   error(what)                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

On(c, grp) == \E k \in 1..Len(c.enforce) : c.enforce[k] = grp
InitSt(c) == [cfg |-> c, seen |-> {}, complete |-> FALSE, epochs |-> 0, left |-> 0]

Readers(c) == c.R * c.W
Ahead(c) == IF c.pre < 2 THEN 2 ELSE c.pre
\* chunks a reader may keep: those ahead, the one it reads, the one it has just read
Keep(c) == Readers(c) * (Ahead(c) + 2)
Max(a, b) == IF a > b THEN a ELSE b

Distinct(q) == Cardinality({q[k] : k \in 1..Len(q)}) = Len(q)

GotClause(e, s) ==
  LET S == {e.items[k] : k \in 1..Len(e.items)} IN
  IF -1 \in S THEN "altered_item"
  ELSE IF ~(S \subseteq 0..(s.cfg.N - 1)) THEN "unknown_item"
  ELSE IF ~Distinct(e.items) \/ S \cap s.seen # {} THEN "item_twice"
  ELSE "ok"

EndClause(e, s) ==
  LET c == s.cfg IN
  IF On(c, "data") /\ s.complete /\ s.seen # 0..(c.N - 1) THEN "item_missing"
  ELSE IF On(c, "data") /\ e.wait >= c.stall THEN "stalled"
  ELSE IF On(c, "cache") /\ ~c.fits /\ e.peak > s.left + Keep(c) THEN "cache_too_big"
  ELSE IF On(c, "cache") /\ c.clean /\ ~c.fits /\ e.left > Max(s.left, Keep(c)) THEN "not_evicted"
  ELSE IF On(c, "cache") /\ c.clean /\ e.locks > 0 THEN "stays_locked"
  ELSE IF On(c, "cache") /\ c.clean /\ e.other > 0 THEN "remains"
  ELSE IF On(c, "cache") /\ c.fits /\ s.complete /\ e.left < c.K THEN "evicted_needlessly"
  ELSE IF On(c, "cache") /\ c.fits /\ c.clean /\ s.epochs > 1 /\ e.fetched > 0 THEN "fetched_again"
  ELSE "ok"

Clause(e, s) ==
  CASE e.ev = "epoch"  -> "ok"
    [] e.ev = "got"    -> IF On(s.cfg, "data") THEN GotClause(e, s) ELSE "ok"
    [] e.ev = "end"    -> EndClause(e, s)
    [] e.ev = "get"    -> IF On(s.cfg, "data") /\ e.got # e.asked THEN "wrong_item"
                          ELSE IF On(s.cfg, "data") /\ e.wait >= s.cfg.stall THEN "stalled" ELSE "ok"
    [] e.ev = "source" -> IF e.same THEN "ok" ELSE "source_changed"
    [] e.ev = "error"  -> IF On(s.cfg, "data") THEN "error" ELSE "ok"
    [] OTHER -> "unknown_event"

Apply(e, s) ==
  CASE e.ev = "epoch"  -> [s EXCEPT !.seen = {}, !.complete = e.complete, !.epochs = @ + 1]
    [] e.ev = "got"    -> [s EXCEPT !.seen = @ \cup {e.items[k] : k \in 1..Len(e.items)}]
    [] e.ev = "end"    -> [s EXCEPT !.left = e.left]
    [] OTHER -> s
InvClause(s) == "ok"
Final(s) == "ok"
=============================================================================
