---------------------------- MODULE StreamsDesign ----------------------------
(* Design of the distribution of a dataset over the streams, transcribed from *)
(* utilities/shuffle.py: the budget of every stream, the greedy association   *)
(* of chunks (and pieces of chunks) to streams, the re-shuffle within a node. *)
(* Random choices (permutations) are nondeterministic.  TLC checks that every *)
(* behaviour of the design is accepted by the contract Streams.               *)
EXTENDS Streams, TLC
CONSTANTS Sizes,        \* set of sequences of chunk sizes
          Rs, Ws, Bs, NodesSet, Shuffles, MaxEpoch, Dedup, AllOrders

VARIABLES cfg, first, asg, cur, pos, st, bad, ph
vars == <<cfg, first, asg, cur, pos, st, bad, ph>>

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE ChunkOf(_, _)
ChunkOf(sizes, k) == IF k > Len(sizes) THEN <<>>
                     ELSE [x \in 1..sizes[k] |-> k] \o ChunkOf(sizes, k + 1)
Start(sizes, k) == SumSeq(SubSeq(sizes, 1, k - 1))     \* first item of chunk k

(* items given to stream r*W+w *)
Budget(c, n) ==
  LET perRank == (n \div c.B) \div c.R
      base == perRank \div c.W
      rem == perRank % c.W
      full == [g \in 1..NStreams(c) |-> c.B * (base + (IF (g - 1) % c.W < rem THEN 1 ELSE 0))]
      left == n - SumSeq(full)
      lucky == (c.R - 1) * c.W + (rem % c.W) + 1
  IN IF c.drop THEN full ELSE [full EXCEPT ![lucky] = @ + left]

\* Greedy association; iv = sequence of <<chunk, lo, hi>>, one per chunk in visiting order.
RECURSIVE Associate(_, _, _, _)
Associate(iv, bud, g, acc) ==
  IF iv = <<>> \/ g > Len(bud) THEN acc
  ELSE LET h == Head(iv)  n == h[3] - h[2] IN
       IF bud[g] = 0 THEN Associate(iv, bud, g + 1, acc)
       ELSE IF n = 0 THEN Associate(Tail(iv), bud, 1, acc)
       ELSE IF n > bud[g]
         THEN Associate(<<<<h[1], h[2] + bud[g], h[3]>>>> \o Tail(iv), [bud EXCEPT ![g] = 0], g + 1,
                        [acc EXCEPT ![g] = Append(@, <<h[1], h[2], h[2] + bud[g]>>)])
         ELSE Associate(Tail(iv), [bud EXCEPT ![g] = @ - n], 1, [acc EXCEPT ![g] = Append(@, h)])

Whole3(c, k) == <<k, Start(c.sizes, k), Start(c.sizes, k) + c.sizes[k]>>
AssignOrder(c, order) ==
  LET iv == [k \in 1..Len(order) |-> Whole3(c, order[k])]
      n == SumSeq([k \in 1..Len(order) |-> c.sizes[order[k]]])
  IN Associate(iv, Budget(c, n), 1, [g \in 1..NStreams(c) |-> <<>>])

Perms(q) == {[k \in 1..Len(q) |-> q[p[k]]] : p \in Permutations(1..Len(q))}

RECURSIVE Uniq(_, _)
Uniq(q, seen) == IF q = <<>> THEN <<>>
                 ELSE IF Head(q) \in seen THEN Uniq(Tail(q), seen)
                 ELSE <<Head(q)>> \o Uniq(Tail(q), seen \cup {Head(q)})
\* chunks visited by the workers of node nd in the epoch-1 assignment a
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))
NodeOf(c, g) == ((g - 1) \div c.W) \div (c.R \div c.nodes)
NodeChunks(c, a, nd) == Concat([g \in 1..NStreams(c) |-> IF NodeOf(c, g) = nd THEN [k \in 1..Len(a[g]) |-> a[g][k][1]] ELSE <<>>])
NodeLists(c, a) ==
  LET raw == [nd \in 1..c.nodes |-> NodeChunks(c, a, nd - 1)] IN
  IF ~Dedup THEN raw
  ELSE [nd \in 1..c.nodes |->
         LET before == UNION {{raw[m][k] : k \in 1..Len(raw[m])} : m \in 1..(nd - 1)} IN Uniq(raw[nd], before)]
RECURSIVE Interleavings(_)
Interleavings(lists) == IF lists = <<>> THEN {<<>>}
                        ELSE {p \o q : p \in Perms(Head(lists)), q \in Interleavings(Tail(lists))}

Orders(c, e) ==
  IF ~c.shuffle THEN {[k \in 1..Len(c.sizes) |-> k]}
  ELSE IF c.nodes = 1 \/ e = 1 THEN Perms([k \in 1..Len(c.sizes) |-> k])
  ELSE Interleavings(NodeLists(c, first))

MkCfg(sz, R, W, B, nodes, drop, shuffle) ==
  [sizes |-> sz, R |-> R, W |-> W, B |-> B, nodes |-> nodes, drop |-> drop, shuffle |-> shuffle,
   items |-> [k \in 1..SumSeq(sz) |-> k - 1], chunk |-> ChunkOf(sz, 1), big |-> FALSE,
   enforce |-> <<"coverage", "balance", "order", "chunkwise", "len">>]

Init == /\ \E sz \in Sizes, R \in Rs, W \in Ws, B \in Bs, nodes \in NodesSet, drop \in BOOLEAN, shuffle \in Shuffles :
             /\ R % nodes = 0
             /\ cfg = MkCfg(sz, R, W, B, nodes, drop, shuffle)
        /\ st = InitSt(cfg)
        /\ first = <<>> /\ asg = <<>> /\ cur = <<>> /\ pos = <<>> /\ bad = "ok" /\ ph = "idle"

Do(e) == /\ bad' = Clause(e, st)
         /\ st' = Apply(e, st)

BeginEpoch == /\ ph = "idle" /\ st.epoch < MaxEpoch
              /\ Do([ev |-> "epoch", e |-> st.epoch + 1])
              /\ \E o \in Orders(cfg, st.epoch + 1) :
                   LET a == AssignOrder(cfg, o) IN
                     /\ asg' = a
                     /\ first' = IF st.epoch = 0 THEN a ELSE first
                     /\ pos' = [g \in 1..NStreams(cfg) |-> 1]       \* index in asg[g]
                     /\ cur' = [g \in 1..NStreams(cfg) |-> IF a[g] = <<>> THEN {} ELSE a[g][1][2]..(a[g][1][3] - 1)]
              /\ ph' = "run" /\ UNCHANGED cfg

Active(g) == g \notin st.over
May(g) == Active(g) /\ (AllOrders \/ \A h \in 1..(g - 1) : ~Active(h))
Pick(g, i) == i \in cur[g] /\ (cfg.shuffle \/ \A j \in cur[g] : i <= j)
\* without interleaving (large configurations) the first order of a chunk stands for all of them
Step(g) ==
  /\ ph = "run" /\ May(g)
  /\ IF cur[g] # {}
     THEN /\ \E i \in (IF AllOrders THEN {j \in cur[g] : Pick(g, j)} ELSE {CHOOSE j \in cur[g] : \A k \in cur[g] : j <= k}) :
               /\ Do([ev |-> "item", g |-> g, i |-> i])
               /\ cur' = [cur EXCEPT ![g] = @ \ {i}]
          /\ UNCHANGED <<pos, ph>>
     ELSE IF pos[g] < Len(asg[g])
          THEN /\ pos' = [pos EXCEPT ![g] = @ + 1]
               /\ cur' = [cur EXCEPT ![g] = asg[g][pos[g] + 1][2]..(asg[g][pos[g] + 1][3] - 1)]
               /\ UNCHANGED <<st, bad, ph>>
          ELSE /\ Do([ev |-> "done", g |-> g])
               /\ UNCHANGED <<pos, cur, ph>>
  /\ UNCHANGED <<cfg, first, asg>>

EndEpoch == /\ ph = "run" /\ st.over = 1..NStreams(cfg)
            /\ Do([ev |-> "endepoch"])
            /\ ph' = "idle"
            /\ UNCHANGED <<cfg, first, asg, cur, pos>>

Next == BeginEpoch \/ EndEpoch \/ \E g \in 1..NStreams(cfg) : Step(g)
Spec == Init /\ [][Next]_vars

Accepted == bad = "ok"
\* in the de-duplicated design nothing is ever repeated
NoRepeat == Dedup => st.again = {}
=============================================================================
