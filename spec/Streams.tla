------------------------------- MODULE Streams -------------------------------
(* What one training run sees of a StreamingDataset: R processes (ranks) on   *)
(* `nodes` nodes, W dataloader workers per process, batch size B, epochs      *)
(* 1, 2, ...  Items are numbered 0..N-1 in dataset order; chunk[i+1] is the   *)
(* chunk that stores item i.  g = r*W + w + 1 numbers the (rank, worker)      *)
(* streams.                                                                   *)
(*                                                                            *)
(* Events: epoch(e), item(g, i) = stream g yields item i, done(g) = stream g  *)
(* stopped, len(r, n) = length announced by rank r, endepoch, error.          *)
(*                                                                            *)
(* cfg.enforce lists the clause groups a check enforces.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Items(c) == {c.items[k] : k \in 1..Len(c.items)}
NumItems(c) == Len(c.items)
NStreams(c) == c.R * c.W
StreamsOf(c, r) == (r * c.W + 1)..(r * c.W + c.W)
Chunk(c, i) == c.chunk[i + 1]
On(c, grp) == \E k \in 1..Len(c.enforce) : c.enforce[k] = grp

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

EmptyStreams(c) == [g \in 1..NStreams(c) |-> <<>>]

InitSt(c) == [cfg |-> c, phase |-> "idle", epoch |-> 0,
              left |-> Items(c),                  \* not delivered yet in this epoch
              again |-> {},                       \* delivered more than once (named deviation, see RepeatAllowed)
              out |-> EmptyStreams(c),            \* what each stream delivered in this epoch
              over |-> {},                        \* streams that stopped
              lens |-> [r \in 0..(c.R - 1) |-> -1],
              ref |-> <<>>]                       \* ref[e] = out at the end of epoch e

(* ---- order inside a stream ------------------------------------------------ *)
PosOf(c, i) == CHOOSE k \in 1..Len(c.items) : c.items[k] = i
LastOf(q) == q[Len(q)]
\* Unshuffled: a stream delivers consecutive items of the dataset.
InOrder(c, q, i) == q = <<>> \/ PosOf(c, i) = PosOf(c, LastOf(q)) + 1
\* Shuffled: a stream finishes with a chunk before it goes to another one.
ChunkWise(c, q, i) == \/ q = <<>>
                      \/ Chunk(c, LastOf(q)) = Chunk(c, i)
                      \/ \A k \in 1..Len(q) : Chunk(c, q[k]) # Chunk(c, i)

(* Named deviation (known finding, several nodes + shuffle + later epochs): a *)
(* chunk that k workers shared in epoch 1 is handed out up to k times.        *)
Readers1(s, ch) == Cardinality({g \in 1..NStreams(s.cfg) :
                      \E k \in 1..Len(s.ref[1][g]) : Chunk(s.cfg, s.ref[1][g][k]) = ch})
TimesOut(s, i) == SumOver([g \in 1..NStreams(s.cfg) |->
                      Cardinality({k \in 1..Len(s.out[g]) : s.out[g][k] = i})], 1..NStreams(s.cfg))
RepeatAllowed(s, i) == /\ s.cfg.nodes > 1 /\ s.cfg.shuffle /\ s.epoch >= 2
                       /\ Len(s.ref) >= 1
                       /\ TimesOut(s, i) < Readers1(s, Chunk(s.cfg, i))

SharedOverNodes(s, i) == /\ s.cfg.nodes > 1 /\ s.cfg.shuffle /\ s.epoch >= 2
                         /\ Len(s.ref) >= 1 /\ Readers1(s, Chunk(s.cfg, i)) > 1

(* ---- end of an epoch -------------------------------------------------------- *)
Counts(s) == [g \in 1..NStreams(s.cfg) |-> Len(s.out[g])]
RankCount(s, r) == SumOver(Counts(s), StreamsOf(s.cfg, r))
Total(s) == SumOver(Counts(s), 1..NStreams(s.cfg))
Ranks(s) == 0..(s.cfg.R - 1)

\* Every process receives the same number of items, a whole number of batches.
Equal(s) == \A r1, r2 \in Ranks(s) : RankCount(s, r1) = RankCount(s, r2)
Whole(s) == \A g \in 1..NStreams(s.cfg) : Len(s.out[g]) % s.cfg.B = 0
\* Fewer than one batch per process is given up.
FewLost(s) == NumItems(s.cfg) - Total(s) < s.cfg.R * s.cfg.B
\* Inside a process no worker is more than a batch ahead of another; without drop_last the last
\* process additionally takes the remainder.
Batches(s, g) == Len(s.out[g]) \div s.cfg.B
Fair(s) == \A r \in Ranks(s) : (s.cfg.drop \/ r < s.cfg.R - 1) =>
             \A g1, g2 \in StreamsOf(s.cfg, r) : Batches(s, g1) - Batches(s, g2) \in {-1, 0, 1}
\* Without drop_last only the last process deviates, by less than a batch per process.
Near(s) == LET last == RankCount(s, s.cfg.R - 1) IN
             /\ \A r1, r2 \in 0..(s.cfg.R - 2) : RankCount(s, r1) = RankCount(s, r2)
             /\ s.cfg.R > 1 => /\ last >= RankCount(s, 0)
                               /\ last - RankCount(s, 0) < s.cfg.R * s.cfg.B

EndClause(s) ==
  LET c == s.cfg IN
  IF On(c, "coverage") /\ ~c.drop /\ s.left # {} THEN "missing_items"
  ELSE IF On(c, "balance") /\ c.drop /\ ~Equal(s) THEN "ranks_unequal"
  ELSE IF On(c, "balance") /\ c.drop /\ ~Whole(s) THEN "partial_batch_with_drop_last"
  ELSE IF On(c, "balance") /\ c.drop /\ s.again = {} /\ ~FewLost(s) THEN "too_many_dropped"
  ELSE IF On(c, "balance") /\ ~c.drop /\ ~Near(s) THEN "ranks_far_apart"
  ELSE IF On(c, "balance") /\ ~Fair(s) THEN "workers_unfair"
  ELSE IF On(c, "len") /\ \E r \in Ranks(s) : s.lens[r] # -1 /\ s.lens[r] # RankCount(s, r) THEN "len_mismatch"
  ELSE IF On(c, "shuffle") /\ c.shuffle /\ c.big /\ \E e \in 1..Len(s.ref) : s.ref[e] = s.out THEN "epochs_not_reshuffled"
  ELSE IF On(c, "shuffle") /\ c.shuffle /\ c.big /\
          \A g \in 1..NStreams(c) : \A k \in 2..Len(s.out[g]) : s.out[g][k - 1] < s.out[g][k] THEN "not_shuffled"
  ELSE "ok"

(* ---- the transition relation -------------------------------------------------- *)
Clause(e, s) ==
  LET c == s.cfg IN
  CASE e.ev = "epoch" -> IF s.phase = "idle" THEN "ok" ELSE "protocol"
    [] e.ev = "replay" -> IF s.phase = "idle" /\ e.e \in 1..Len(s.ref) THEN "ok" ELSE "protocol"
    \* a run of the same epoch with another seed
    [] e.ev = "otherseed" -> IF s.phase = "idle" /\ e.e \in 1..Len(s.ref) THEN "ok" ELSE "protocol"
    [] e.ev = "len" -> "ok"
    [] e.ev = "item" ->
         IF s.phase = "replay" THEN
           \* the same (seed, epoch, topology) gives the same streams again
           IF ~On(c, "determinism") THEN "ok"
           ELSE LET q == s.ref[s.epoch][e.g] IN
                IF Len(s.out[e.g]) < Len(q) /\ q[Len(s.out[e.g]) + 1] = e.i THEN "ok" ELSE "not_deterministic"
         ELSE IF s.phase = "other" THEN "ok"
         ELSE IF s.phase # "run" \/ e.g \in s.over THEN "protocol"
         ELSE IF e.i \notin Items(c) THEN (IF On(c, "coverage") THEN "foreign_item" ELSE "ok")
         ELSE IF e.i \notin s.left /\ On(c, "coverage") /\ ~RepeatAllowed(s, e.i) THEN "duplicate_item"
         ELSE IF On(c, "order") /\ ~c.shuffle /\ ~InOrder(c, s.out[e.g], e.i) THEN "out_of_order"
         ELSE IF On(c, "chunkwise") /\ c.shuffle /\ ~SharedOverNodes(s, e.i) /\ ~ChunkWise(c, s.out[e.g], e.i) THEN "chunks_interleaved"
         ELSE "ok"
    [] e.ev = "done" ->
         IF s.phase = "replay" THEN
           IF On(c, "determinism") /\ Len(s.out[e.g]) # Len(s.ref[s.epoch][e.g]) THEN "not_deterministic" ELSE "ok"
         ELSE IF e.g \in s.over THEN "protocol" ELSE "ok"
    [] e.ev = "endepoch" -> IF s.phase = "replay" THEN "ok"
                            ELSE IF s.phase = "other" THEN
                              (IF On(c, "shuffle") /\ c.big /\ s.out = s.ref[s.epoch] THEN "seed_ignored" ELSE "ok")
                            ELSE IF s.over # 1..NStreams(c) THEN "protocol" ELSE EndClause(s)
    [] e.ev = "error" -> "unexpected_error"
    [] OTHER -> "unknown_event"

Apply(e, s) ==
  LET c == s.cfg IN
  CASE e.ev = "epoch" -> [s EXCEPT !.phase = "run", !.epoch = e.e, !.left = Items(c), !.out = EmptyStreams(c),
                                   !.over = {}, !.lens = [r \in Ranks(s) |-> -1]]
    [] e.ev = "replay" -> [s EXCEPT !.phase = "replay", !.epoch = e.e, !.out = EmptyStreams(c), !.over = {}]
    [] e.ev = "otherseed" -> [s EXCEPT !.phase = "other", !.epoch = e.e, !.out = EmptyStreams(c), !.over = {}]
    [] e.ev = "len" -> [s EXCEPT !.lens = [@ EXCEPT ![e.r] = e.n]]
    [] e.ev = "item" -> [s EXCEPT !.left = @ \ {e.i},
                                  !.again = IF s.phase = "run" /\ e.i \notin s.left THEN @ \cup {e.i} ELSE @,
                                  !.out = [@ EXCEPT ![e.g] = Append(@, e.i)]]
    [] e.ev = "done" -> [s EXCEPT !.over = @ \cup {e.g}]
    [] e.ev = "endepoch" -> [s EXCEPT !.phase = "idle",
                                      !.ref = IF s.phase = "run" THEN Append(@, s.out) ELSE @]
    [] OTHER -> s

InvClause(s) == "ok"
Final(s) == IF s.phase # "idle" THEN "unfinished"
            ELSE IF s.again # {} /\ On(s.cfg, "coverage") THEN "shared_chunk_repeated_on_later_epochs"
            ELSE "ok"
=============================================================================
