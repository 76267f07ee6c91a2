------------------------------ MODULE StreamsGen ------------------------------
(* Enumerates configurations of the design model; each one is replayed in the *)
(* real code and the recorded streams are validated against Streams.          *)
EXTENDS StreamsDesign, Json
RECURSIVE Compositions(_, _)
Compositions(n, m) == IF n = 0 THEN {<<>>}
                      ELSE UNION {{<<k>> \o q : q \in Compositions(n - k, m)} : k \in 1..(IF n < m THEN n ELSE m)}
GenSizes == UNION {Compositions(n, 4) : n \in 1..5}
            \cup {<<3, 1, 2>>, <<2, 2, 2>>, <<5, 2>>, <<1, 4, 1>>, <<4, 3, 1>>, <<7>>, <<2, 5, 3, 1>>, <<6, 6>>, <<1, 1, 1, 1, 1, 1, 1>>,
                  <<4, 4, 4>>, <<3, 5, 2, 3>>, <<1, 7, 2>>}
Emit == /\ ph = "idle" /\ ph' = "emitted"
        /\ PrintT(<<"GEN", ToJson([sizes |-> cfg.sizes, R |-> cfg.R, W |-> cfg.W, B |-> cfg.B, nodes |-> cfg.nodes,
                                   drop |-> cfg.drop, shuffle |-> cfg.shuffle])>>)
        /\ UNCHANGED <<cfg, first, asg, cur, pos, st, bad>>
GenSpec == Init /\ [][Emit]_vars
=============================================================================
