------------------------------ MODULE CombinedGen ------------------------------
(* Random usage histories of a combined dataset; replayed in the real code.  A first     *)
(* loader delivers complete epochs (the reference), then the history: sessions *)
(*   begin (same loader | new loader | same loader + load | new loader + load) *)
(*   next*, save, next*, save, finish | leave.                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxSessions, MaxSize, Workers, Loads
VARIABLES conf, ops, ph, nsl, n
vars == <<conf, ops, ph, nsl, n>>

Init == /\ conf = [sizes |-> <<>>, R |-> 1, rank |-> 0, W |-> 0, B |-> 1, drop |-> FALSE, shuffle |-> FALSE,
                   weights |-> <<>>, per |-> FALSE, seed |-> 0]
        /\ ops = <<>> /\ ph = "sizes" /\ nsl = 0 /\ n = 0

Sizes == /\ ph = "sizes" /\ UNCHANGED <<ops, nsl, n>>
         /\ \/ /\ conf.sizes = <<>> /\ UNCHANGED ph
               /\ \E D \in {1, 2, 2, 3, 4} : conf' = [conf EXCEPT !.sizes = [d \in 1..D |-> 0]]
            \/ \E d \in 1..Len(conf.sizes) :
                 /\ conf.sizes[d] = 0 /\ \A x \in 1..(d - 1) : conf.sizes[x] > 0
                 /\ \E k \in 1..MaxSize : conf' = [conf EXCEPT !.sizes[d] = k]
                 /\ ph' = IF d = Len(conf.sizes) THEN "load" ELSE ph
Ld == /\ ph = "load" /\ ph' = "how" /\ UNCHANGED <<ops, nsl, n>>
      /\ \E W \in Workers, B \in 1..4 : conf' = [conf EXCEPT !.W = W, !.B = B]
How == /\ ph = "how" /\ UNCHANGED <<conf, ops, nsl, n>> /\ \E x \in {"flags", "weights"} : ph' = x
Weigh == /\ ph = "weights" /\ ph' = "flags" /\ UNCHANGED <<ops, nsl, n>>
         /\ \E ws \in [1..Len(conf.sizes) -> 0..3] :
               conf' = [conf EXCEPT !.weights = IF \E d \in 1..Len(conf.sizes) : ws[d] > 0 THEN ws ELSE [d \in 1..Len(conf.sizes) |-> 1]]
Flags == /\ ph = "flags" /\ ph' = "begin" /\ UNCHANGED <<ops, nsl, n>>
         /\ \E sh \in BOOLEAN, per \in BOOLEAN, d \in BOOLEAN, R \in {1, 1, 2}, seed \in 1..50 :
              \E rank \in 0..(R - 1) :
              conf' = [conf EXCEPT !.shuffle = sh, !.per = per, !.drop = d, !.R = R, !.rank = rank, !.seed = seed]

Add(q) == ops' = ops \o q
Start(o) == Add(<<o, [op |-> "start"]>>)
Begin == /\ ph = "begin" /\ n < MaxSessions
         /\ n' = n + 1 /\ ph' = "run1" /\ UNCHANGED <<conf, nsl>>
         /\ \/ n = 0 /\ Start([op |-> "new"])
            \/ n > 0 /\ Start([op |-> "nop"])
            \/ \E x \in 1..nsl : n > 0 /\ Loads /\ Start([op |-> "load", slot |-> x])
            \/ n > 0 /\ ~Loads /\ Start([op |-> "new"])
            \/ \E x \in 1..nsl : Loads /\ Start([op |-> "renew", slot |-> x])
Run1 == /\ ph = "run1" /\ ph' = "save1" /\ UNCHANGED <<conf, nsl, n>>
        /\ \E x \in 0..5 : IF x = 0 THEN Add(<<>>) ELSE Add(<<[op |-> "next", n |-> x]>>)
Save1 == /\ ph = "save1" /\ ph' = "run2" /\ UNCHANGED <<conf, n>>
         /\ \E x \in {0, 1, 2} : IF x = 0 THEN Add(<<>>) /\ UNCHANGED nsl ELSE Add(<<[op |-> "save"]>>) /\ nsl' = nsl + 1
Run2 == /\ ph = "run2" /\ ph' = "save2" /\ UNCHANGED <<conf, nsl, n>>
        /\ \E x \in 0..4 : IF x = 0 THEN Add(<<>>) ELSE Add(<<[op |-> "next", n |-> x]>>)
Save2 == /\ ph = "save2" /\ ph' = "end" /\ UNCHANGED <<conf, n>>
         /\ \E x \in {0, 1} : IF x = 0 THEN Add(<<>>) /\ UNCHANGED nsl ELSE Add(<<[op |-> "save"]>>) /\ nsl' = nsl + 1
End == /\ ph = "end" /\ ph' = "begin" /\ UNCHANGED <<conf, n>>
       /\ \/ Add(<<[op |-> "finish"]>>) /\ UNCHANGED nsl
          \/ Add(<<[op |-> "leave"]>>) /\ UNCHANGED nsl
          \/ Add(<<[op |-> "finish"], [op |-> "save"]>>) /\ nsl' = nsl + 1
Finish == /\ ph = "begin" /\ n = MaxSessions /\ ph' = "done"
          /\ PrintT(<<"GEN", ToJson([conf |-> conf, ops |-> ops])>>)
          /\ UNCHANGED <<conf, ops, nsl, n>>
Next == Sizes \/ Ld \/ How \/ Weigh \/ Flags \/ Begin \/ Run1 \/ Save1 \/ Run2 \/ Save2 \/ End \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
