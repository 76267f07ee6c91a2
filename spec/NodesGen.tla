-------------------------------- MODULE NodesGen --------------------------------
(* Random histories of runs of several nodes, replayed in real processes.       *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES c, o, ph
vars == <<c, o, ph>>
O0 == [op |-> "optimize", mode |-> "none", P |-> 2, W |-> 1, n |-> 2, kind |-> "plain", reorder |-> FALSE, size |-> 2, bs |-> 1, at |-> 0, delay |-> <<0, 0, 0>>]

Init == c = [store |-> "s3", ops |-> <<>>, few |-> FALSE, size |-> 1] /\ o = O0 /\ ph = "store"
Store == ph = "store" /\ ph' = "op" /\ UNCHANGED o /\ \E st \in {"s3", "local"}, f \in 1..3, z \in 1..3 : c' = [c EXCEPT !.size = z, !.store = st, !.few = f = 1 /\ st = "s3"]
Op == /\ ph = "op" /\ ph' = "par" /\ UNCHANGED c
      /\ \E k \in {"optimize1", "optimize2", "optimize3", "optimize4", "map"}, m \in {"overwrite", "append"} :
           o' = [O0 EXCEPT !.op = IF k = "map" THEN "map" ELSE "optimize", !.mode = IF Len(c.ops) = 0 THEN "none" ELSE m]
Par == /\ ph = "par" /\ ph' = "n" /\ UNCHANGED c
       /\ \E p \in 2..3, w \in 1..2 : o' = [o EXCEPT !.P = p, !.W = w]
\* every worker has work, as the nodes wait for each other in it
PickN == /\ ph = "n" /\ ph' = "kind" /\ UNCHANGED c
         /\ \E d \in 0..5 : o' = [o EXCEPT !.n = IF c.few THEN 1 + d ELSE o.P * o.W + d]
Kind == /\ ph = "kind" /\ ph' = "size" /\ UNCHANGED c
        /\ \E k \in {"plain", "files"}, r \in BOOLEAN : o' = [o EXCEPT !.kind = k, !.reorder = r, !.size = c.size]
Time == /\ ph = "size" /\ ph' = "fail" /\ UNCHANGED c
        /\ \E a, b, d \in 0..2 : o' = [o EXCEPT !.delay = <<a, b, d>>]
Fail == /\ ph = "fail" /\ ph' = "next" /\ UNCHANGED c
        /\ \E f \in 1..5, a \in 1..o.n : o' = [o EXCEPT !.at = IF f = 1 /\ ~c.few THEN a ELSE 0]
Put == /\ ph = "next" /\ c' = [c EXCEPT !.ops = Append(@, o)] /\ UNCHANGED o
       /\ \E m \in 1..3 : ph' = IF Len(c.ops) = 2 \/ c.few \/ m = 1 THEN "finish" ELSE "op"
Finish == ph = "finish" /\ ph' = "done" /\ UNCHANGED <<c, o>> /\ PrintT(<<"GEN", ToJson(c)>>)
Next == Store \/ Op \/ Par \/ PickN \/ Kind \/ Time \/ Fail \/ Put \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
