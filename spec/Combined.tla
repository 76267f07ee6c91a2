------------------------------- MODULE Combined -------------------------------
(* CombinedStreamingDataset under a StreamingDataLoader: several streams per    *)
(* worker (one of each dataset) are interleaved into one sequence of batches.   *)
(*                                                                              *)
(* cfg: D datasets, W workers, B batch size, weights (<<>>: all of everything,  *)
(* otherwise the sampling ratios), per (per_stream batching), enforce.          *)
(* An item is <<dataset, number>>.  Events:                                     *)
(*   ref(e, d, w, items)  what dataset d alone delivers to worker w in epoch e  *)
(*   new, start, batch(b), end, leave, save(slot), load(slot), len(n), error    *)
(* state: pr[w][d] = how much of ref(e, d, w) has been delivered in this epoch. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

On(c, grp) == \E k \in 1..Len(c.enforce) : c.enforce[k] = grp
All(c) == c.weights = <<>>
Weight(c, d) == c.weights[d]

Zero(c) == [w \in 1..c.W |-> [d \in 1..c.D |-> 0]]
InitSt(c) == [cfg |-> c, ref |-> [x \in {} |-> <<>>], made |-> FALSE, live |-> FALSE, begun |-> FALSE,
              epoch |-> 0, pr |-> Zero(c), over |-> [w \in 1..c.W |-> FALSE], fin |-> TRUE, pend |-> FALSE,
              drawn |-> <<>>, k |-> 0, resumed |-> FALSE, cur |-> <<>>, seen |-> <<>>, slots |-> <<>>]

\* seen[e] = the batches of epoch e, once a loader delivered that epoch from its start to its end
Seen(s) == s.epoch \in 1..Len(s.seen)
Ref(s, d, w) == s.ref[<<s.epoch, d, w>>]
Left(s, d, w) == Len(Ref(s, d, w)) - s.pr[w][d]
Total(s) == [w \in 1..s.cfg.W |-> [d \in 1..s.cfg.D |-> Len(Ref(s, d, w))]]
SumF(f, S) == LET RECURSIVE Sm(_)
                  Sm(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + Sm(T \ {x})
              IN Sm(S)
Progress(s) == SumF([w \in 1..s.cfg.W |-> SumF(s.pr[w], 1..s.cfg.D)], 1..s.cfg.W)

\* iter() takes effect with the first batch asked for
Begin(s) == IF s.begun THEN s
            \* where weighted sampling ends is only known from trying: the rest of its epoch may be empty
            ELSE IF s.pend /\ (~s.fin \/ ~All(s.cfg)) /\ s.k > 0
              THEN [s EXCEPT !.begun = TRUE, !.pend = FALSE, !.drawn = <<>>, !.resumed = TRUE, !.cur = <<>>]
            ELSE [s EXCEPT !.begun = TRUE, !.pend = FALSE, !.epoch = @ + 1, !.pr = Zero(s.cfg),
                           !.resumed = FALSE, !.k = 0, !.cur = <<>>,
                           !.over = [w \in 1..s.cfg.W |-> FALSE], !.fin = FALSE, !.drawn = <<>>]

\* the workers whose streams hold the item
Owners(s, x) == {w \in 1..s.cfg.W : \E k \in 1..Len(Ref(s, x[1], w)) : Ref(s, x[1], w)[k] = x[2]}
Of(b, d) == SelectSeq(b, LAMBDA x : x[1] = d)
DatasetsIn(b) == {b[k][1] : k \in 1..Len(b)}
\* b takes the streams of worker w on by exactly its items, in their order
FitsOrder(s, b, w) == \A d \in DatasetsIn(b) :
     LET q == Of(b, d) IN
     /\ Len(q) <= Left(s, d, w)
     /\ \A k \in 1..Len(q) : Ref(s, d, w)[s.pr[w][d] + k] = q[k][2]
After(s, b, w) == [d \in 1..s.cfg.D |-> s.pr[w][d] + Len(Of(b, d))]
Exhausted(s, p, w) == {d \in 1..s.cfg.D : p[d] = Len(Ref(s, d, w))}
Complete(s, w) == \A d \in 1..s.cfg.D : Left(s, d, w) = 0
Fits(s, b) == {w \in 1..s.cfg.W : FitsOrder(s, b, w)}

\* per_stream: another dataset may only complete a batch whose dataset ran out
OneStream(s, b, w) ==
   LET a == After(s, b, w) IN
   Cardinality({d \in DatasetsIn(b) : d \notin Exhausted(s, a, w)}) <= 1
   /\ \A k \in 1..(Len(b) - 1) : b[k][1] # b[k + 1][1] =>      \* and only from there on
        \A m \in (k + 1)..Len(b) : b[m][1] # b[k][1]

\* the weights are respected: over n draws each dataset is drawn about n * weight times (6 sigma)
Sq(x) == x * x
Ratio(c, drawn) ==
   LET n == Len(drawn)
       sw == SumF([d \in 1..c.D |-> Weight(c, d)], 1..c.D) IN
   \A d \in 1..c.D :
      LET cnt == Cardinality({k \in 1..n : drawn[k] = d}) IN
      Sq(cnt * sw - n * Weight(c, d)) <= 36 * n * Weight(c, d) * (sw - Weight(c, d)) + Sq(2 * sw)

\* what was delivered once is delivered again: by a resumed epoch (from its position on), by any other loader of the same options
SameClause(s, b) ==
  LET c == s.cfg
      same == s.k < Len(s.seen[s.epoch]) /\ s.seen[s.epoch][s.k + 1] = b IN
  IF ~Seen(s) THEN "ok"
  ELSE IF s.resumed /\ On(c, "resume") /\ ~same THEN "resume_wrong_batch"
  ELSE IF ~s.resumed /\ On(c, "same") /\ ~same THEN "not_reproducible"
  ELSE "ok"
SameEnd(s) ==
  LET c == s.cfg
      same == s.k = Len(s.seen[s.epoch]) IN
  IF ~Seen(s) THEN "ok"
  ELSE IF s.resumed /\ On(c, "resume") /\ ~same THEN "resume_too_few"
  ELSE IF ~s.resumed /\ On(c, "same") /\ ~same THEN "not_reproducible"
  ELSE "ok"

BatchClause(s, b) ==
  LET c == s.cfg IN
  IF b = <<>> \/ Len(b) > c.B THEN "batch_size"
  ELSE IF \E k \in 1..Len(b) : Owners(s, b[k]) = {} THEN "foreign_item"
  ELSE IF Fits(s, b) = {} THEN "wrong_order_or_repeated"
  ELSE LET w == CHOOSE w \in Fits(s, b) : TRUE
           a == After(s, b, w) IN
  IF s.over[w] THEN "short_batch_in_the_middle"
  ELSE IF ~All(c) /\ \E d \in DatasetsIn(b) : Weight(c, d) = 0 THEN "zero_weight_drawn"
  ELSE IF c.per /\ On(c, "per_stream") /\ ~OneStream(s, b, w) THEN "batch_of_several_streams"
  ELSE SameClause(s, b)

EndClause(s) ==
  LET c == s.cfg IN
  IF SameEnd(s) # "ok" THEN SameEnd(s)
  ELSE IF All(c) THEN (IF \A w \in 1..c.W : Complete(s, w) THEN "ok" ELSE "items_missing")
  ELSE IF \E w \in 1..c.W : ~\E d \in 1..c.D : Weight(c, d) > 0 /\ Left(s, d, w) = 0 THEN "stopped_before_a_dataset_ended"
  ELSE IF c.ratio /\ c.W = 1 /\ Len(s.drawn) > 0 /\ ~Ratio(c, s.drawn) THEN "weights_not_respected"
  ELSE "ok"

Clause(e, s0) ==
  LET s == IF e.ev \in {"batch", "end"} THEN Begin(s0) ELSE s0
      c == s.cfg IN
  CASE e.ev = "ref" -> IF s.made THEN "protocol" ELSE "ok"
    [] e.ev = "new" -> "ok"
    [] e.ev = "start" -> IF s.made /\ ~s.live THEN "ok" ELSE "protocol"
    [] e.ev = "batch" -> IF ~s.live THEN "protocol" ELSE BatchClause(s, e.b)
    [] e.ev = "end" -> IF ~s.live THEN "protocol" ELSE EndClause(s)
    [] e.ev = "leave" -> IF s.live THEN "ok" ELSE "protocol"
    [] e.ev = "save" -> IF s.made /\ e.slot = Len(s.slots) + 1 THEN "ok" ELSE "protocol"
    [] e.ev = "load" -> IF s.made /\ e.slot \in 1..Len(s.slots) THEN "ok" ELSE "protocol"
    [] e.ev = "len" -> IF ~All(c) THEN (IF e.n = -1 THEN "ok" ELSE "len_of_weighted")
                       ELSE IF <<1, 1, 1>> \in DOMAIN s.ref
                               /\ e.n # SumF([x \in DOMAIN s.ref |-> IF x[1] = 1 THEN Len(s.ref[x]) ELSE 0], DOMAIN s.ref)
                       THEN "len_mismatch" ELSE "ok"
    [] e.ev = "refused" -> IF ~c.legal THEN "ok" ELSE "refused_legal_options"
    [] e.ev = "error" -> "unexpected_error"
    [] OTHER -> "unknown_event"

\* with its last item delivered the epoch is over, also before the loader says so
Finished(s) == All(s.cfg) /\ s.pr = Total(s)

Apply(e, s0) ==
  LET s == IF e.ev \in {"batch", "end"} THEN Begin(s0) ELSE s0
      c == s.cfg IN
  CASE e.ev = "ref" -> [s EXCEPT !.ref = [x \in DOMAIN s.ref \cup {<<e.e, e.d, e.w>>} |->
                                             IF x = <<e.e, e.d, e.w>> THEN e.items ELSE s.ref[x]]]
    [] e.ev = "new" -> [s EXCEPT !.made = TRUE, !.live = FALSE, !.begun = FALSE, !.epoch = 0, !.k = 0, !.pr = Zero(c), !.fin = TRUE, !.pend = FALSE,
                                 !.over = [w \in 1..c.W |-> FALSE]]
    [] e.ev = "start" -> [s EXCEPT !.live = TRUE, !.begun = FALSE]
    [] e.ev = "batch" -> LET w == CHOOSE w \in Fits(s, e.b) : TRUE
                             t == [s EXCEPT !.k = @ + 1, !.cur = Append(@, e.b),
                                            !.pr[w] = After(s, e.b, w),
                                            !.over[w] = Len(e.b) < c.B,
                                            !.drawn = IF c.per THEN Append(@, e.b[1][1])
                                                      ELSE @ \o [k \in 1..Len(e.b) |-> e.b[k][1]]] IN
                         [t EXCEPT !.fin = Finished(t)]
    [] e.ev = "end" -> [s EXCEPT !.live = FALSE, !.fin = TRUE,
                                 !.seen = IF ~s.resumed /\ Len(s.seen) + 1 = s.epoch THEN Append(@, s.cur) ELSE @]
    [] e.ev = "leave" -> [s EXCEPT !.live = FALSE]
    [] e.ev = "save" -> [s EXCEPT !.slots = Append(@, [epoch |-> s.epoch, k |-> s.k, pr |-> s.pr, over |-> s.over, fin |-> s.fin])]
    [] e.ev = "load" -> [s EXCEPT !.live = FALSE, !.begun = FALSE, !.epoch = s.slots[e.slot].epoch, !.k = s.slots[e.slot].k, !.pr = s.slots[e.slot].pr,
                                  !.over = s.slots[e.slot].over, !.fin = s.slots[e.slot].fin, !.pend = TRUE]
    [] OTHER -> s

InvClause(s) == "ok"
Final(s) == "ok"
=============================================================================
