------------------------------- MODULE StoreGen -------------------------------
(* Random histories of dataset writing, replayed in the real code.             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MinOps, MaxOps, MaxInputs, Fails, Modes, Ckpt, ManyWorkers
VARIABLES ops, cur, ph, nops, target
vars == <<ops, cur, ph, nops, target>>
Dirs == IF MinOps > 2 THEN {"A", "B", "C"} ELSE {"A", "B"}
\* a run with so many inputs is one worker writing many small chunks
Big(t) == t > MaxInputs
Blank == [op |-> "run", dir |-> "A", mode |-> "none", out |-> <<>>, kind |-> "plain", reorder |-> FALSE, nw |-> 1, size |-> 0, bytes |-> 0,
          comp |-> "none", pads |-> <<>>, fail |-> "no", at |-> 0, up |-> 1, down |-> 1, ckpt |-> FALSE, bs |-> 1, typ |-> "str"]

Init == ops = <<>> /\ cur = Blank /\ ph = "n" /\ nops = 0 /\ target = 0

\* how many operations, how many inputs
PickN == /\ ph = "n" /\ \E k \in (1..MaxInputs) \cup (IF MaxOps > 1 THEN {MaxInputs + 6} ELSE {}) : target' = k
         /\ ph' = "kind" /\ cur' = Blank /\ UNCHANGED <<ops, nops>>
Kind == /\ ph = "kind" /\ ph' = "out"
        /\ \E k \in {"plain", "plain", "gen", "holes", "files"}, rd \in BOOLEAN :
             cur' = [cur EXCEPT !.kind = k, !.reorder = rd]
        /\ UNCHANGED <<ops, nops, target>>
Out == /\ ph = "out" /\ Len(cur.out) < target
       /\ \E m \in 0..4, pad \in {8, 24, 60, 200} :
            /\ LET k == IF cur.kind \in {"plain", "files"} THEN 1 ELSE IF cur.kind = "holes" THEN (IF m > 1 THEN 1 ELSE 0)
                        ELSE (IF m > 3 THEN 1 ELSE m)
               IN cur' = [cur EXCEPT !.out = Append(@, k), !.pads = Append(@, pad)]
       /\ UNCHANGED <<ops, nops, target, ph>>
OutDone == /\ ph = "out" /\ Len(cur.out) = target /\ ph' = "lim" /\ UNCHANGED <<ops, cur, nops, target>>
Lim == /\ ph = "lim" /\ ph' = "par"
       /\ \/ \E x \in 1..5 : cur' = [cur EXCEPT !.size = IF Big(target) THEN 1 ELSE x]
          \/ \E x \in {40, 90, 150, 300, 700} : cur' = [cur EXCEPT !.bytes = x]
       /\ UNCHANGED <<ops, nops, target>>
Par == /\ ph = "par" /\ ph' = "par2"
       /\ \E w \in 1..5, c \in 1..4, b \in 1..4 :
            cur' = [cur EXCEPT !.nw = IF Big(target) THEN 1 ELSE IF ManyWorkers /\ b = 4 THEN 8 + w ELSE w, !.comp = IF c = 4 THEN "zstd" ELSE "none",
                               !.bs = IF b = 3 /\ cur.kind = "gen" THEN 2 ELSE 1]
       /\ UNCHANGED <<ops, nops, target>>
Par2 == /\ ph = "par2" /\ ph' = "mode"
        /\ \E u \in 1..3, d \in 1..2, t \in 1..4 : cur' = [cur EXCEPT !.up = u, !.down = d,
                                                             !.typ = IF t = 1 /\ cur.kind # "files" THEN "int" ELSE "str"]
        /\ UNCHANGED <<ops, nops, target>>
Mode == /\ ph = "mode" /\ ph' = "fail"
        /\ \E m \in Modes, d \in Dirs :
             cur' = [cur EXCEPT !.mode = m, !.dir = d]
        /\ UNCHANGED <<ops, nops, target>>
\* later runs mostly repeat the format of the first one, or append would only ever be refused
Same(c) == IF ops = <<>> \/ ~(\E k \in 1..Len(ops) : ops[k].op = "run") THEN c
           ELSE LET f == ops[1] IN [c EXCEPT !.size = f.size, !.bytes = f.bytes, !.comp = f.comp, !.typ = f.typ,
                                             !.kind = IF f.kind = "files" THEN "files" ELSE IF c.kind = "files" THEN "plain" ELSE c.kind,
                                             !.out = IF f.kind = "files" THEN [x \in 1..Len(c.out) |-> 1] ELSE c.out]
Fail == /\ ph = "fail" /\ ph' = "end"
        /\ \E f \in Fails, a \in 1..target, sm \in 1..5 :
             LET c == IF sm = 5 THEN cur ELSE Same(cur) IN
             /\ ops' = Append(ops, [c EXCEPT !.fail = f, !.at = a, !.ckpt = Ckpt, !.bs = IF c.kind = "gen" THEN @ ELSE 1])
             /\ nops' = nops + 1
        /\ UNCHANGED <<cur, target>>
Merge == /\ ph = "end" /\ nops < MaxOps /\ nops > 0 /\ ph' = "end" /\ nops' = nops + 1
         /\ \E a \in Dirs \cup {"C"}, b \in Dirs, x \in {"A", "B", "C", "-"}, c \in {"A", "C", "D", "D"} :
              a # b /\ x # a /\ x # b
              /\ ops' = Append(ops, [op |-> "merge", srcs |-> IF x = "-" THEN <<a, b>> ELSE <<a, b, x>>, dir |-> c])
         /\ UNCHANGED <<cur, target>>
Again == /\ ph = "end" /\ nops < MaxOps /\ ph' = "n" /\ UNCHANGED <<ops, cur, nops, target>>
Finish == /\ ph = "end" /\ nops >= MinOps /\ ph' = "done"
          /\ PrintT(<<"GEN", ToJson(ops)>>) /\ UNCHANGED <<ops, cur, nops, target>>
Next == PickN \/ Kind \/ Out \/ OutDone \/ Lim \/ Par \/ Par2 \/ Mode \/ Fail \/ (IF MaxOps > 1 THEN Merge ELSE FALSE) \/ Again \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
