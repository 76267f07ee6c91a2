-------------------------------- MODULE StateGen --------------------------------
(* Pairs of runs: a state of the first one is loaded into the second one.       *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES c, ph, target
vars == <<c, ph, target>>
Init == /\ c = [sizes |-> <<>>, B |-> 1, bare |-> FALSE, epoch |-> 1, at |-> 1, disk |-> FALSE, force |-> FALSE, remote |-> FALSE,
                a |-> [data |-> 1, shuffle |-> FALSE, seed |-> 1, drop |-> FALSE, W |-> 0, block |-> 0],
                b |-> [data |-> 1, shuffle |-> FALSE, seed |-> 1, drop |-> FALSE, W |-> 0, block |-> 0]]
        /\ ph = "n" /\ target = 0
PickN == ph = "n" /\ ph' = "sizes" /\ UNCHANGED c /\ \E k \in 2..6 : target' = k
Sizes == /\ ph = "sizes" /\ Len(c.sizes) < target /\ UNCHANGED <<ph, target>> /\ \E n \in 2..5 : c' = [c EXCEPT !.sizes = Append(@, n)]
SizesDone == ph = "sizes" /\ Len(c.sizes) = target /\ ph' = "run" /\ UNCHANGED <<c, target>>
Run == /\ ph = "run" /\ ph' = "mode" /\ UNCHANGED target
       /\ \E sh, dr \in BOOLEAN, w \in 0..3, sd \in 1..3, bl \in {0, 0, 2} :
            LET r == [data |-> 1, shuffle |-> sh, seed |-> sd, drop |-> dr, W |-> w, block |-> bl] IN c' = [c EXCEPT !.a = r, !.b = r]
Mode == /\ ph = "mode" /\ ph' = "kind" /\ UNCHANGED target
        /\ \E bare \in {1, 2, 3}, b \in 1..3, e \in 1..2, k \in 1..9, d, f, rm \in BOOLEAN :
             c' = [c EXCEPT !.bare = bare = 3, !.a.W = IF bare = 3 THEN 0 ELSE @, !.b.W = IF bare = 3 THEN 0 ELSE @,
                            !.B = IF bare = 3 THEN 1 ELSE b, !.epoch = e, !.at = k, !.disk = d, !.force = f, !.remote = rm /\ c.a.block = 0]
Kind == /\ ph = "kind" /\ ph' \in {"none", "data", "shuffle", "seed", "drop", "W", "block", "again"} /\ UNCHANGED <<c, target>>
Change == /\ ph \in {"none", "data", "shuffle", "seed", "drop", "W", "block", "again"}
          /\ c' = CASE ph = "data" -> [c EXCEPT !.b.data = 2]
                    [] ph = "shuffle" -> [c EXCEPT !.b.shuffle = ~@]
                    [] ph = "seed" -> [c EXCEPT !.b.seed = @ + 1]
                    [] ph = "drop" -> [c EXCEPT !.b.drop = ~@]
                    [] ph = "W" -> IF c.bare THEN c ELSE [c EXCEPT !.b.W = IF @ = 3 THEN 2 ELSE @ + 1]
                    [] ph = "block" -> IF c.a.block = 0 THEN c ELSE [c EXCEPT !.b.block = 4]
                    [] OTHER -> c
          /\ \E p \in {"end", "end", "end2"} : ph' = IF p = "end2" /\ ph # "again" THEN "kind" ELSE "end"
          /\ UNCHANGED target
Finish == ph = "end" /\ ph' = "done" /\ UNCHANGED <<c, target>> /\ PrintT(<<"GEN", ToJson(c)>>)
Next == PickN \/ Sizes \/ SizesDone \/ Run \/ Mode \/ Kind \/ Change \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
