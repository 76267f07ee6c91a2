--------------------------------- MODULE View ---------------------------------
(* What a program sees of StreamingDataset objects over one stored dataset:    *)
(* a view is a finite sequence of items; opening with a subsample, splitting,  *)
(* indexing, slicing, len, complete or abandoned iteration and sharing over    *)
(* processes and workers are all operations on that sequence.                  *)
(*                                                                             *)
(* Items of the stored dataset are 0..N-1 in stored order.                     *)
(* Events: open, split, refused, get, slice, len, iter, streams.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NONE == 999
N(c) == c.n
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
Range(q) == {q[k] : k \in 1..Len(q)}
SubBag(q, r) == \A x \in Range(q) : Count(q, x) <= Count(r, x)
SameBag(q, r) == Len(q) = Len(r) /\ SubBag(q, r)
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))
IsPrefix(q, r) == Len(q) <= Len(r) /\ q = SubSeq(r, 1, Len(q))

\* k = floor(num/den * n), or one less when rounding of floats hits an exact boundary
FracOk(k, num, den, n) == k * den <= num * n /\ ((k + 1) * den > num * n \/ (k + 1) * den = num * n)

\* the unshuffled subsample: whole copies of the dataset, then a prefix
Stored(n, k) == [j \in 1..k |-> (j - 1) % n]

(* ---- indexing --------------------------------------------------------------- *)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* python's slice(a, b, c).indices(n)
SliceStep(c) == IF c = NONE THEN 1 ELSE c
SliceStart(n, a, c) ==
  IF SliceStep(c) > 0 THEN IF a = NONE THEN 0 ELSE IF a < 0 THEN Max(a + n, 0) ELSE Min(a, n)
  ELSE IF a = NONE THEN n - 1 ELSE IF a < 0 THEN Max(a + n, -1) ELSE Min(a, n - 1)
SliceStop(n, b, c) ==
  IF SliceStep(c) > 0 THEN IF b = NONE THEN n ELSE IF b < 0 THEN Max(b + n, 0) ELSE Min(b, n)
  ELSE IF b = NONE THEN -1 ELSE IF b < 0 THEN Max(b + n, -1) ELSE Min(b, n - 1)
RECURSIVE Steps(_, _, _)
Steps(i, stop, s) == IF (s > 0 /\ i >= stop) \/ (s < 0 /\ i <= stop) THEN <<>> ELSE <<i>> \o Steps(i + s, stop, s)
SliceOf(q, a, b, c) ==
  LET n == Len(q)
      ix == Steps(SliceStart(n, a, c), SliceStop(n, b, c), SliceStep(c))
  IN [k \in 1..Len(ix) |-> q[ix[k] + 1]]

(* ---- sharing a view over processes and workers ------------------------------- *)
RECURSIVE SumLen(_)
SumLen(qs) == IF qs = <<>> THEN 0 ELSE Len(Head(qs)) + SumLen(Tail(qs))
RankTotal(e, r) == SumLen(SubSeq(e.out, r * e.w + 1, (r + 1) * e.w))
StreamsClause(e, v) ==
  LET all == Flat(e.out) IN
  IF ~SubBag(all, v.items) THEN "view_item_repeated_or_foreign"
  ELSE IF ~e.drop /\ ~SameBag(all, v.items) THEN "view_item_missing"
  ELSE IF e.drop /\ Len(v.items) - Len(all) >= e.r * e.b THEN "view_too_many_dropped"
  ELSE IF e.drop /\ \E r1, r2 \in 0..(e.r - 1) : RankTotal(e, r1) # RankTotal(e, r2) THEN "view_ranks_unequal"
  ELSE IF \E r \in 1..e.r : e.lens[r] # RankTotal(e, r - 1) THEN "view_len_mismatch"
  ELSE IF ~v.shuf /\ ~e.drop /\ e.b = 1 /\ e.w = 1 /\ all # v.items THEN "view_order"
  ELSE "ok"

(* ---- the transition relation ------------------------------------------------- *)
InitSt(c) == [cfg |-> c, v |-> <<>>, splits |-> <<>>]

OpenClause(e, s) ==
  LET n == N(s.cfg)
      k == Len(e.items)
      full == e.num \div e.den
  IN IF e.len # k THEN "len_wrong"
     ELSE IF e.num = e.den /\ e.items # Stored(n, n) THEN "contents_wrong"
     ELSE IF ~FracOk(k, e.num, e.den, n) THEN "subsample_size_wrong"
     ELSE IF ~e.shuf /\ e.items # Stored(n, k) THEN "subsample_wrong_items"
     ELSE IF \E x \in Range(e.items) : x < 0 \/ x >= n THEN "foreign_item"
     ELSE IF \E x \in 0..(n - 1) : Count(e.items, x) < full \/ Count(e.items, x) > full + 1 THEN "subsample_uneven"
     ELSE IF \E h \in 1..Len(s.v) : s.v[h].def = <<e.num, e.den, e.shuf, e.seed>> /\ s.v[h].items # e.items
          THEN "subsample_not_deterministic"
     ELSE "ok"

SplitClause(e, s) ==
  LET p == s.v[e.h].items IN
  IF \E k \in 1..Len(e.fr) : ~FracOk(Len(e.parts[k]), e.fr[k][1], e.fr[k][2], Len(p)) THEN "split_size_wrong"
  ELSE IF ~SubBag(Flat(e.parts), p) THEN "splits_overlap_or_foreign"
  ELSE IF e.lens # [k \in 1..Len(e.parts) |-> Len(e.parts[k])] THEN "len_wrong"
  ELSE IF \E k \in 1..Len(s.splits) : s.splits[k][1] = <<e.h, e.fr, e.seed>> /\ s.splits[k][2] # e.parts THEN "split_not_deterministic"
  ELSE "ok"

Tenths(fr) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + (fr[k][1] * 40) \div fr[k][2] IN S(Len(fr))

Clause(e, s) ==
  CASE e.ev = "open" -> OpenClause(e, s)
    [] e.ev = "split" -> IF Tenths(e.fr) > 40 THEN "accepted_bad_split" ELSE SplitClause(e, s)
    [] e.ev = "refused" -> IF Tenths(e.fr) > 40 THEN "ok" ELSE "refused_valid_split"
    [] e.ev = "get" -> LET q == s.v[e.h].items IN
         IF e.i >= 0 /\ e.i < Len(q) THEN (IF e.v = q[e.i + 1] THEN "ok" ELSE IF e.v = -1 THEN "index_raised" ELSE "index_wrong_item")
         ELSE IF e.v = -1 \/ (e.i < 0 /\ -e.i <= Len(q) /\ e.v = q[Len(q) + e.i + 1]) THEN "ok" ELSE "index_out_of_range_accepted"
    [] e.ev = "slice" -> IF e.items = SliceOf(s.v[e.h].items, e.a, e.b, e.c) THEN "ok" ELSE "slice_wrong"
    [] e.ev = "len" -> IF e.n = Len(s.v[e.h].items) THEN "ok" ELSE "len_wrong"
    [] e.ev = "iter" -> LET v == s.v[e.h] IN
         IF ~v.shuf THEN IF e.full THEN (IF e.items = v.items THEN "ok" ELSE "iteration_wrong")
                         ELSE (IF IsPrefix(e.items, v.items) THEN "ok" ELSE "iteration_wrong")
         ELSE IF e.full THEN (IF SameBag(e.items, v.items) THEN "ok" ELSE "iteration_wrong")
         ELSE (IF SubBag(e.items, v.items) THEN "ok" ELSE "iteration_wrong")
    [] e.ev = "streams" -> StreamsClause(e, s.v[e.h])
    [] e.ev = "error" -> "unexpected_error"
    [] OTHER -> "unknown_event"

Apply(e, s) ==
  CASE e.ev = "open" -> [s EXCEPT !.v = Append(@, [items |-> e.items, shuf |-> e.shuf, def |-> <<e.num, e.den, e.shuf, e.seed>>])]
    [] e.ev = "split" -> [s EXCEPT !.v = @ \o [k \in 1..Len(e.parts) |->
                                        [items |-> e.parts[k], shuf |-> s.v[e.h].shuf, def |-> <<>>]],
                                   !.splits = Append(@, <<<<e.h, e.fr, e.seed>>, e.parts>>)]
    [] OTHER -> s

InvClause(s) == "ok"
Final(s) == "ok"
=============================================================================
