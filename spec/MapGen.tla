-------------------------------- MODULE MapGen ---------------------------------
(* Random uses of litdata.map, replayed in the real code.                      *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES c, ph, target
vars == <<c, ph, target>>

Init == /\ c = [kind |-> "plain", out |-> <<>>, style |-> <<>>, sz |-> <<>>, wt |-> <<>>, nw |-> 1, up |-> 1, down |-> 1, reorder |-> FALSE,
                bs |-> 1, last |-> FALSE, cloud |-> FALSE, old |-> 0, empty |-> FALSE, fail |-> "no", at |-> 1, form |-> "fn", where |-> "inside", name |-> "data"]
        /\ ph = "n" /\ target = 0
PickN == ph = "n" /\ ph' = "kind" /\ UNCHANGED c /\ \E k \in 1..11 : target' = k
Kind == /\ ph = "kind" /\ ph' = "out" /\ UNCHANGED target
        /\ \E k \in {"plain", "weights", "files", "shared", "batch"}, r \in BOOLEAN, b \in 2..4,
              wh \in {"inside", "relative", "outside"} :
             c' = [c EXCEPT !.kind = k, !.where = IF k \in {"files", "shared"} THEN wh ELSE @, !.reorder = r, !.bs = IF k = "batch" THEN b ELSE 1]
\* files written for the next input: how many, where, how long
Out == /\ ph = "out" /\ Len(c.out) < target /\ UNCHANGED <<ph, target>>
       /\ \E k \in 0..3, s \in 0..5, z \in {0, 1, 30, 5000}, w \in 0..3 :
            c' = [c EXCEPT !.out = Append(@, k), !.style = Append(@, s), !.sz = Append(@, z), !.wt = Append(@, 1 + w * w)]
OutDone == ph = "out" /\ Len(c.out) = target /\ ph' = "par" /\ UNCHANGED <<c, target>>
Par == /\ ph = "par" /\ ph' = "dest" /\ UNCHANGED target
       /\ \E w \in 1..5, u \in 1..3, d \in 1..2, l \in BOOLEAN, f \in {"fn", "partial", "object", "method", "partialobject"} :
            c' = [c EXCEPT !.nw = w, !.up = u, !.down = d, !.last = l, !.form = f]
Dest == /\ ph = "dest" /\ ph' = "fail" /\ UNCHANGED target
        /\ \E x \in 1..3, o \in {0, 0, 2}, e \in {1, 2, 3}, nm \in {"data", "my.checkpoints"} :
             c' = [c EXCEPT !.name = nm, !.cloud = x = 3, !.old = o, !.empty = e = 3]
Fail == /\ ph = "fail" /\ ph' = "end" /\ UNCHANGED target
        /\ \E f \in {"no1", "no2", "no3", "no4", "raise", "exit", "kill", "copyfail", "downfail"}, a \in 1..target :
             LET f2 == IF f \in {"no1", "no2", "no3", "no4"} \/ (f = "downfail" /\ c.kind # "files") THEN "no" ELSE f
                 c2 == [c EXCEPT !.fail = f2, !.at = a] IN
             c' = c2
Finish == ph = "end" /\ ph' = "done" /\ UNCHANGED <<c, target>> /\ PrintT(<<"GEN", ToJson(c)>>)
Next == PickN \/ Kind \/ Out \/ OutDone \/ Par \/ Dest \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
