-------------------------------- MODULE CacheGen --------------------------------
(* Random ways of reading a remote dataset through a cache; replayed in the     *)
(* real code with random delays.                                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOps, Plain
VARIABLES conf, ops, ph
vars == <<conf, ops, ph>>

Init == /\ conf = [W |-> 0, R |-> 1, sizes |-> <<>>, pre |-> 2, max |-> "tiny", kind |-> "plain", via |-> "slow",
                   shuffle |-> FALSE, B |-> 1, slow |-> 0, jitter |-> 0, litter |-> "none", seed |-> 0, pace |-> 0]
        /\ ops = <<>> /\ ph = "readers"
Readers == /\ ph = "readers" /\ ph' = "pre" /\ UNCHANGED ops
           /\ \E W \in {0, 0, 1, 2, 3}, R \in {1, 2} : conf' = [conf EXCEPT !.W = W, !.R = R]
Pre == /\ ph = "pre" /\ ph' = "count" /\ UNCHANGED ops
       /\ \E p \in {1, 2, 3, 5, 8} : conf' = [conf EXCEPT !.pre = p]
Ahead == IF conf.pre < 2 THEN 2 ELSE conf.pre
RW == conf.R * (IF conf.W = 0 THEN 1 ELSE conf.W)
\* Plain: so many chunks that keeping them all is noticed
Count == /\ ph = "count" /\ ph' = "size" /\ UNCHANGED ops
         /\ \E d \in 1..5 :
              LET big == RW * (Ahead + 2) + d
                  n == IF big <= 30 /\ Plain THEN big ELSE 2 + 2 * d IN
              conf' = [conf EXCEPT !.sizes = [k \in 1..n |-> 0]]
Size == /\ ph = "size" /\ UNCHANGED ops
        /\ \E k \in 1..Len(conf.sizes) :
             /\ conf.sizes[k] = 0 /\ \A x \in 1..(k - 1) : conf.sizes[x] > 0
             /\ \E v \in {1, 2, 3} : conf' = [conf EXCEPT !.sizes[k] = v]
             /\ ph' = IF k = Len(conf.sizes) THEN "store" ELSE ph
Store == /\ ph = "store" /\ ph' = "max" /\ UNCHANGED ops
         /\ \E kind \in {"plain", "zstd", "tokens"}, via \in {"slow", "local", "s3"} : conf' = [conf EXCEPT !.kind = kind, !.via = via]
Limit == /\ ph = "max" /\ ph' = "time" /\ UNCHANGED ops
         /\ \E m \in {"tiny", "half", "most", "twice", "none"} : conf' = [conf EXCEPT !.max = m]
Time == /\ ph = "time" /\ ph' = "flags" /\ UNCHANGED ops
        /\ \E sl \in {0, 10, 40}, j \in {0, 2, 8} : conf' = [conf EXCEPT !.slow = sl, !.jitter = j]
Flags == /\ ph = "flags" /\ ph' = "ops" /\ UNCHANGED ops
         /\ \E sh \in BOOLEAN, B \in 1..3, seed \in 1..100, l \in (IF Plain THEN {"none"} ELSE {"none", "none", "tmp", "locks", "counts"}) :
              conf' = [conf EXCEPT !.shuffle = sh, !.B = B, !.seed = seed, !.litter = l]
More == ph' = IF Len(ops) + 1 = MaxOps THEN "finish" ELSE "ops"
\* an epoch is left unfinished in the very process which would read by number: a known finding, see checks/k01.py
Unfinished == conf.W = 0 /\ \E x \in 1..Len(ops) : ops[x].op = "part" /\ \A y \in (x + 1)..Len(ops) : ops[y].op = "get"
Kind == /\ ph = "ops" /\ UNCHANGED <<conf, ops>>
        /\ \E k \in (IF Plain THEN {"full"} ELSE {"full", "part", "get"}) : ph' = IF k = "get" /\ (conf.R > 1 \/ Unfinished) THEN "full" ELSE k
Full == ph = "full" /\ More /\ ops' = Append(ops, [op |-> "full"]) /\ UNCHANGED conf
Part == ph = "part" /\ More /\ (\E n \in 1..6 : ops' = Append(ops, [op |-> "part", n |-> n])) /\ UNCHANGED conf
Get == ph = "get" /\ More /\ (\E i, j, k \in 0..9 : ops' = Append(ops, [op |-> "get", ix |-> <<i, j, k, i>>])) /\ UNCHANGED conf
Finish == /\ ph = "finish" /\ ph' = "done" /\ UNCHANGED <<conf, ops>>
          /\ PrintT(<<"GEN", ToJson([conf |-> conf, ops |-> ops])>>)
Next == Readers \/ Pre \/ Count \/ Size \/ Store \/ Limit \/ Time \/ Flags \/ Kind \/ Full \/ Part \/ Get \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
