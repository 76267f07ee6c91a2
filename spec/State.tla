--------------------------------- MODULE State ---------------------------------
(* A state is taken from one training run and loaded into another one, whose   *)
(* dataset or options may differ.                                              *)
(*                                                                             *)
(* cfg: a, b: the options of both runs, as far as they have to agree:          *)
(*      data, shuffle, seed, drop, W (workers), block (of tokens, 0: none)     *)
(*      force, n (items of the dataset of b)                                   *)
(* Events:                                                                     *)
(*   before(items)       delivered by a up to the state, in its last epoch     *)
(*   refused             iterating b raised a ValueError and gave nothing      *)
(*                       (a position that b's dataset lacks can't be forced) *)
(*   after(items)        delivered by b in the resumed epoch                   *)
(*   next(items)         delivered by b in the epoch after                     *)
(*   state(same)         the state given by the user is what it was (a forced  *)
(*                       override is noted in it, which a test relies on)      *)
(*   error(what)                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

InitSt(c) == [cfg |-> c, before |-> <<>>, refused |-> FALSE]
Set(q) == {q[k] : k \in 1..Len(q)}
Distinct(q) == Cardinality(Set(q)) = Len(q)
Match(c) == c.a = c.b
Whole(q, c) == Distinct(q) /\ (IF c.b.drop THEN Len(q) <= c.n ELSE Len(q) = c.n) /\ Set(q) \subseteq 1..c.n

AfterClause(e, s) ==
  LET c == s.cfg IN
  IF ~Match(c) /\ ~c.force THEN "not_refused"
  ELSE IF ~(Set(e.items) \subseteq 1..c.n) THEN "items_of_something_else"
  ELSE IF ~Distinct(e.items) THEN "item_twice"
  ELSE IF ~Match(c) THEN "ok"
  ELSE IF Set(e.items) \cap Set(s.before) # {} THEN "item_again"
  ELSE IF ~Whole(s.before \o e.items, c) THEN "item_missing"
  ELSE "ok"

Clause(e, s) ==
  CASE e.ev = "before"  -> "ok"
    [] e.ev = "refused" -> IF Match(s.cfg) \/ (s.cfg.force /\ Len(s.before) < s.cfg.n) THEN "refused_in_vain" ELSE "ok"
    [] e.ev = "after"   -> AfterClause(e, s)
    [] e.ev = "next"    -> IF s.refused \/ Whole(e.items, s.cfg) THEN "ok" ELSE "next_epoch"
    [] e.ev = "state"   -> IF e.same \/ (s.cfg.force /\ ~Match(s.cfg)) THEN "ok" ELSE "state_altered"
    [] e.ev = "error"   -> "error"
    [] OTHER -> "unknown_event"
Apply(e, s) == CASE e.ev = "before" -> [s EXCEPT !.before = e.items]
                 [] e.ev = "refused" -> [s EXCEPT !.refused = TRUE]
                 [] OTHER -> s
InvClause(s) == "ok"
Final(s) == "ok"
=============================================================================
