------------------------------ MODULE LoaderGen ------------------------------
(* Random usage histories of a loader; replayed in the real code.  A first     *)
(* loader delivers complete epochs (the reference), then the history: sessions *)
(*   begin (same loader | new loader | same loader + load | new loader + load) *)
(*   next*, save, next*, save, finish | leave.                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxSessions, MinChunks, MaxChunks, MaxSize
VARIABLES conf, ops, ph, nsl, n
vars == <<conf, ops, ph, nsl, n>>

Init == /\ conf = [sizes |-> <<>>, R |-> 1, rank |-> 0, W |-> 0, B |-> 1, drop |-> FALSE, shuffle |-> FALSE, persistent |-> FALSE]
        /\ ops = <<>> /\ ph = "sizes" /\ nsl = 0 /\ n = 0

Sizes == /\ ph = "sizes" /\ UNCHANGED <<ops, nsl, n>>
         /\ \/ /\ Len(conf.sizes) < MaxChunks
               /\ \E x \in 1..MaxSize : conf' = [conf EXCEPT !.sizes = Append(@, x)]
               /\ UNCHANGED ph
            \/ /\ Len(conf.sizes) >= MinChunks /\ ph' = "top" /\ UNCHANGED conf
Top == /\ ph = "top" /\ ph' = "load" /\ UNCHANGED <<ops, nsl, n>>
       /\ \E x \in 1..6 : IF x <= 3 THEN UNCHANGED conf
                          ELSE LET R == x - 2 IN \E rank \in 0..(R - 1) : conf' = [conf EXCEPT !.R = R, !.rank = rank]
Ld == /\ ph = "load" /\ ph' = "flags" /\ UNCHANGED <<ops, nsl, n>>
      /\ \E W \in 0..4, B \in 1..4 : conf' = [conf EXCEPT !.W = W, !.B = B]
Flags == /\ ph = "flags" /\ ph' = "begin" /\ UNCHANGED <<ops, nsl, n>>
         /\ \E d \in BOOLEAN, sh \in BOOLEAN, p \in 1..10 :
              conf' = [conf EXCEPT !.drop = d, !.shuffle = sh, !.persistent = (p = 1 /\ conf.W \in {1, 2})]

Add(q) == ops' = ops \o q
Start(o) == Add(<<o, [op |-> "start"]>>)
Begin == /\ ph = "begin" /\ n < MaxSessions
         /\ n' = n + 1 /\ ph' = "run1" /\ UNCHANGED <<conf, nsl>>
         /\ \/ n = 0 /\ Start([op |-> "new"])
            \/ n > 0 /\ Start([op |-> "nop"])
            \/ \E x \in 1..nsl : n > 0 /\ Start([op |-> "load", slot |-> x])
            \/ \E x \in 1..nsl : Start([op |-> "renew", slot |-> x])
Run1 == /\ ph = "run1" /\ ph' = "save1" /\ UNCHANGED <<conf, nsl, n>>
        /\ \E x \in 0..5 : IF x = 0 THEN Add(<<>>) ELSE Add(<<[op |-> "next", n |-> x]>>)
Save1 == /\ ph = "save1" /\ ph' = "run2" /\ UNCHANGED <<conf, n>>
         /\ \E x \in {0, 1, 2} : IF x = 0 THEN Add(<<>>) /\ UNCHANGED nsl ELSE Add(<<[op |-> "save"]>>) /\ nsl' = nsl + 1
Run2 == /\ ph = "run2" /\ ph' = "save2" /\ UNCHANGED <<conf, nsl, n>>
        /\ \E x \in 0..4 : IF x = 0 THEN Add(<<>>) ELSE Add(<<[op |-> "next", n |-> x]>>)
Save2 == /\ ph = "save2" /\ ph' = "end" /\ UNCHANGED <<conf, n>>
         /\ \E x \in {0, 1} : IF x = 0 THEN Add(<<>>) /\ UNCHANGED nsl ELSE Add(<<[op |-> "save"]>>) /\ nsl' = nsl + 1
End == /\ ph = "end" /\ ph' = "begin" /\ UNCHANGED <<conf, n>>
       /\ \/ Add(<<[op |-> "finish"]>>) /\ UNCHANGED nsl
          \* persistent workers do not learn that an epoch was abandoned (known finding, replayed separately)
          \/ ~conf.persistent /\ Add(<<[op |-> "leave"]>>) /\ UNCHANGED nsl
          \/ Add(<<[op |-> "finish"], [op |-> "save"]>>) /\ nsl' = nsl + 1
Finish == /\ ph = "begin" /\ n = MaxSessions /\ ph' = "done"
          /\ PrintT(<<"GEN", ToJson([conf |-> conf, ops |-> ops])>>)
          /\ UNCHANGED <<conf, ops, nsl, n>>
Next == Sizes \/ Top \/ Ld \/ Flags \/ Begin \/ Run1 \/ Save1 \/ Run2 \/ Save2 \/ End \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
