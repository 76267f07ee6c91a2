------------------------------- MODULE RemoteGen -------------------------------
(* Histories of writing and reading remote datasets, replayed in the real code. *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES c, ph, target, op
vars == <<c, ph, target, op>>

Init == c = [kind |-> <<>>, store |-> <<>>, ops |-> <<>>, lag |-> 0, names |-> "apart"] /\ ph = "n" /\ target = 0 /\ op = "none"
PickN == ph = "n" /\ ph' = "lag" /\ UNCHANGED <<c, op>> /\ \E k \in 1..6 : target' = IF k <= 3 THEN 1 ELSE k - 3
Lag == ph = "lag" /\ ph' = "src" /\ UNCHANGED <<target, op>> /\ \E l \in 0..20, nm \in {"apart", "prefix", "base"} : c' = [c EXCEPT !.lag = l, !.names = nm]
Src == /\ ph = "src" /\ Len(c.kind) < target /\ UNCHANGED <<ph, target, op>>
       /\ \E k \in {"optimize", "zstd", "merge", "parquet", "mds"}, s \in {"local", "s3"} :
            c' = [c EXCEPT !.kind = Append(@, k), !.store = Append(@, IF k = "parquet" THEN "local" ELSE s)]
SrcDone == /\ ph = "src" /\ Len(c.kind) = target /\ ph' = "ops" /\ UNCHANGED <<c, op>> /\ \E k \in 4..8 : target' = k
\* the first operation is a write of some source
Kind == /\ ph = "ops" /\ op = "none" /\ Len(c.ops) < target /\ UNCHANGED <<c, ph, target>>
        /\ \E o \in (IF c.ops = <<>> THEN {"write"} ELSE {"write", "read", "both", "mix", "kill", "damage"}) : op' = o
Has(u) == \E k \in 1..Len(c.ops) : c.ops[k].op = "write" /\ c.ops[k].u = u
Write == /\ ph = "ops" /\ op = "write" /\ op' = "none" /\ UNCHANGED <<ph, target>>
         /\ \E u \in 1..Len(c.kind), n \in {3, 4, 6}, per \in 1..3 : c' = [c EXCEPT !.ops = Append(@, [op |-> "write", u |-> u, n |-> n, k |-> per, how |-> "all"])]
Use == /\ ph = "ops" /\ op \in {"read", "both", "mix", "kill", "damage"} /\ op' = "none" /\ UNCHANGED <<ph, target>>
       /\ \E u \in 1..Len(c.kind), where \in 0..1, how \in {"all", "byindex", "workers", "slice"} :
            Has(u) /\ c' = [c EXCEPT !.ops = Append(@, [op |-> op, u |-> u, n |-> 0, k |-> where, how |-> how])]
Finish == ph = "ops" /\ op = "none" /\ Len(c.ops) = target /\ ph' = "done" /\ UNCHANGED <<c, target, op>> /\ PrintT(<<"GEN", ToJson(c)>>)
Next == PickN \/ Lag \/ Src \/ SrcDone \/ Kind \/ Write \/ Use \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
