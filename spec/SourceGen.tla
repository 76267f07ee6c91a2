------------------------------- MODULE SourceGen -------------------------------
(* Random uses of map and optimize over a streaming dataloader or a reader of  *)
(* Parquet files (contract: Map), replayed in the real code.                   *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES c, ph, target
vars == <<c, ph, target>>

Init == /\ c = [src |-> "loader", api |-> "map", sizes |-> <<>>, nw |-> 1, W |-> 0, B |-> 1, shuffle |-> FALSE, seed |-> 1, store |-> "local",
                rows |-> 1, names |-> "differ", runs |-> 1, up |-> 1, size |-> 1, cloud |-> FALSE, fail |-> "no", at |-> 1]
        /\ ph = "kind" /\ target = 0
Kind == /\ ph = "kind" /\ ph' = "sizes"
        /\ \E s \in {"loader", "loader", "parquet"}, a \in {"map", "optimize"}, k \in 1..6 :
             c' = [c EXCEPT !.src = s, !.api = a] /\ target' = k
Sizes == /\ ph = "sizes" /\ Len(c.sizes) < target /\ UNCHANGED <<ph, target>>
         /\ \E n \in (IF c.src = "loader" THEN 1..5 ELSE 0..7) : c' = [c EXCEPT !.sizes = Append(@, n)]
SizesDone == ph = "sizes" /\ Len(c.sizes) = target /\ ph' = c.src /\ UNCHANGED <<c, target>>
Loader == /\ ph = "loader" /\ ph' = "par" /\ UNCHANGED target
          /\ \E w \in 0..3, b \in 1..4, sh \in BOOLEAN, seed \in 1..20, st \in {"local", "remote", "zstd"} :
               c' = [c EXCEPT !.W = w, !.B = b, !.shuffle = sh, !.seed = seed, !.store = st]
Parquet == /\ ph = "parquet" /\ ph' = "par" /\ UNCHANGED target
           /\ \E r \in 1..4, nm \in {"differ", "same"}, t \in 1..2 : c' = [c EXCEPT !.rows = r, !.names = nm, !.runs = t]
Par == /\ ph = "par" /\ ph' = "end" /\ UNCHANGED target
       /\ \E w \in 1..5, u \in 1..2, z \in 1..4, x \in 1..3, f \in {"no1", "no2", "no3", "raise"}, a \in 1..9 :
            c' = [c EXCEPT !.nw = w, !.up = u, !.size = z, !.cloud = x = 3, !.fail = IF f = "raise" THEN f ELSE "no", !.at = a]
Finish == ph = "end" /\ ph' = "done" /\ UNCHANGED <<c, target>> /\ PrintT(<<"GEN", ToJson(c)>>)
Next == Kind \/ Sizes \/ SizesDone \/ Loader \/ Parquet \/ Par \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
