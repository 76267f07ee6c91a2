---------------------------- MODULE StoreGenMerge ----------------------------
(* Random histories of merges: datasets in several directories and formats,    *)
(* merged by twos and threes, changed and merged again (spec: Store).          *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES ops, ph, left
vars == <<ops, ph, left>>
Pads == <<8, 24, 60, 200, 8, 60, 24, 8>>
Run(d, m, n, w, s, c, t) ==
  [op |-> "run", dir |-> d, mode |-> m, out |-> [x \in 1..n |-> 1], kind |-> "plain", reorder |-> FALSE, nw |-> w, size |-> s, bytes |-> 0,
   comp |-> c, pads |-> SubSeq(Pads, 1, n), fail |-> "no", at |-> 1, up |-> 1, down |-> 1, ckpt |-> FALSE, bs |-> 1, typ |-> t]
\* most datasets have the same format
Comp(k) == IF k = 1 THEN "zstd" ELSE "none"
Typ(k) == IF k = 1 THEN "int" ELSE "str"
Init == ops = <<>> /\ ph = "A" /\ left = 0
Make(d, nxt) == /\ ph = d /\ ph' = nxt /\ UNCHANGED left
                /\ \E n \in 1..6, w \in 1..3, s \in 1..3, c \in 1..5, t \in 1..5 :
                     ops' = Append(ops, Run(d, "none", n, w, s, Comp(c), Typ(t)))
Sources == {<<"A", "B">>, <<"B", "A">>, <<"A", "B", "C">>, <<"C", "A", "B">>, <<"B", "C", "A">>, <<"C", "B">>, <<"A", "C">>, <<"C", "B", "A">>}
Merge(src, dst) == ops' = Append(ops, [op |-> "merge", srcs |-> src, dir |-> dst])
Merge1 == /\ ph = "m" /\ \E s \in Sources : Merge(s, "D")
          /\ \E k \in 0..2 : left' = k
          /\ ph' = "more"
More == /\ ph = "more" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED ph
        /\ \/ \E d \in {"A", "D"}, m \in {"append", "overwrite", "none"}, n \in 1..3, s \in 1..3 : ops' = Append(ops, Run(d, m, n, 1, s, ops[1].comp, ops[1].typ))
           \/ \E s \in {<<"D", "A">>, <<"B", "D">>, <<"A", "B">>}, t \in {"C", "D", "A"} : Merge(s, t)
Finish == /\ ph = "more" /\ left = 0 /\ ph' = "done" /\ PrintT(<<"GEN", ToJson(ops)>>) /\ UNCHANGED <<ops, left>>
Next == Make("A", "B") \/ Make("B", "C") \/ Make("C", "m") \/ Merge1 \/ More \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
