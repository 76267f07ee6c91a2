------------------------------- MODULE Foreign -------------------------------
(* Datasets written by other tools: folders of Parquet files (their rows in   *)
(* the order of the file names), shards of MosaicML.  Every view of such a    *)
(* dataset (any loader option, cache, wildcard, number of workers, order of   *)
(* accesses) shows the very same rows.                                        *)
(* cfg.rows: the content of the rows, in order; cfg.n: how many are shown;    *)
(* cfg.exact: all of them are (otherwise a subsample, unknown yet but fixed). *)
(* Events: length(n), got(i, c), pass(cs, order),  *)
(* split(parts), unread.                                                            *)
EXTENDS Naturals, Sequences, FiniteSets
Range(q) == {q[x] : x \in 1..Len(q)}
InitSt(c) == [cfg |-> c, know |-> [x \in 1..c.n |-> IF c.exact THEN c.rows[x] ELSE ""]]
Fits(k, c, s) == c \in Range(s.cfg.rows) /\ (s.know[k] = c \/ (s.know[k] = "" /\ c \notin Range(s.know)))
Clause(e, s) ==
  CASE e.ev = "length" -> IF e.n = s.cfg.n THEN "ok" ELSE "wrong_length"
    [] e.ev = "got" -> IF e.i \in 0..(s.cfg.n - 1) /\ Fits(e.i + 1, e.c, s) THEN "ok"
                       ELSE IF e.c \in Range(s.cfg.rows) THEN "another_row" ELSE "altered_row"
    [] e.ev = "pass" ->
         IF ~(Range(e.cs) \subseteq Range(s.cfg.rows)) THEN "altered_row"
         ELSE IF Len(e.cs) # s.cfg.n THEN "rows_lost_or_repeated"
         ELSE IF Cardinality(Range(e.cs)) # Len(e.cs) THEN "row_repeated"
         ELSE IF e.order THEN IF \A x \in 1..s.cfg.n : s.know[x] \in {"", e.cs[x]} THEN "ok" ELSE "wrong_order"
         ELSE IF Range(s.know) \ {""} \subseteq Range(e.cs) THEN "ok" ELSE "other_rows"
    [] e.ev = "split" ->
         LET all == e.parts[1] \o e.parts[2] IN
         IF ~(Range(all) \subseteq Range(s.cfg.rows)) THEN "altered_row"
         ELSE IF Len(e.parts[1]) # s.cfg.n \div 2 \/ Len(e.parts[2]) # s.cfg.n \div 2 THEN "wrong_split_size"
         ELSE IF Cardinality(Range(all)) # Len(all) THEN "row_in_both_splits" ELSE "ok"
    [] e.ev = "unread" -> "unreadable"
    [] OTHER -> "error"
Apply(e, s) ==
  CASE e.ev = "got" -> [s EXCEPT !.know[e.i + 1] = e.c]
    [] e.ev = "pass" /\ e.order -> [s EXCEPT !.know = e.cs]
    [] OTHER -> s
InvClause(s) == "ok"
Final(s) == "ok"
=============================================================================
