----------------------------- MODULE StoreGenCkpt -----------------------------
(* Random histories of a checkpointed run which is interrupted and started     *)
(* again with the same arguments, until it completes.                          *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxInputs, MaxCrashes, Modes
VARIABLES cur, ops, ph, target
vars == <<cur, ops, ph, target>>
Init == /\ ops = <<>> /\ ph = "kind" /\ target \in 3..MaxInputs
        /\ cur = [op |-> "run", dir |-> "A", mode |-> "none", out |-> <<>>, kind |-> "plain", reorder |-> FALSE, nw |-> 1, size |-> 0,
                  bytes |-> 0, comp |-> "none", pads |-> <<>>, fail |-> "no", at |-> 0, up |-> 1, down |-> 1, ckpt |-> TRUE, bs |-> 1,
                  typ |-> "str", again |-> 0]
Kind == /\ ph = "kind" /\ ph' = "out"
        /\ \E k \in {"plain", "holes", "files"}, rd \in BOOLEAN, w \in 1..3, u \in 1..3, d \in 1..2, z \in 1..4 :
             cur' = [cur EXCEPT !.kind = k, !.reorder = rd, !.nw = w, !.up = u, !.down = d, !.comp = IF z = 1 THEN "zstd" ELSE "none"]
        /\ UNCHANGED <<ops, target>>
Out == /\ ph = "out" /\ Len(cur.out) < target
       /\ \E m \in 0..2, pad \in {8, 24, 60, 200} :
            cur' = [cur EXCEPT !.out = Append(@, IF cur.kind = "holes" THEN (IF m = 0 THEN 0 ELSE 1) ELSE 1), !.pads = Append(@, pad)]
       /\ UNCHANGED <<ops, ph, target>>
Lim == /\ ph = "out" /\ Len(cur.out) = target /\ ph' = "mode"
       /\ \/ \E x \in 1..3 : cur' = [cur EXCEPT !.size = x]
          \/ \E x \in {40, 90, 150} : cur' = [cur EXCEPT !.bytes = x]
       /\ UNCHANGED <<ops, target>>
Mode == /\ ph = "mode" /\ ph' = "first"
        /\ \E m \in Modes : /\ cur' = [cur EXCEPT !.mode = m]
                            /\ ops' = IF m = "append" THEN <<[cur EXCEPT !.ckpt = FALSE]>> ELSE <<>>
        /\ UNCHANGED target
NCrash == Len(SelectSeq(ops, LAMBDA o : o.fail # "no"))
First(o) == IF \E k \in 1..Len(ops) : ops[k].ckpt THEN CHOOSE k \in 1..Len(ops) : ops[k].ckpt /\ (\A j \in 1..(k-1) : ~ops[j].ckpt) ELSE 0
Crash == /\ ph = "first" /\ NCrash < MaxCrashes
         /\ \E f \in {"crash", "raise", "copycrash", "kill", "copyfail"}, a \in 1..(target + 3) :
              ops' = Append(ops, [cur EXCEPT !.fail = f, !.at = IF f \in {"copycrash", "copyfail"} THEN a ELSE ((a - 1) % target) + 1, !.again = First(0)])
         /\ UNCHANGED <<cur, ph, target>>
\* mostly the same arguments, sometimes others
Last == /\ ph = "first" /\ NCrash > 0 /\ ph' = "done"
        /\ \E v \in 1..6 :
             LET o == [cur EXCEPT !.again = First(0)]
                 p == IF v = 5 THEN [o EXCEPT !.comp = IF @ = "none" THEN "zstd" ELSE "none"]
                      ELSE IF v = 6 THEN [o EXCEPT !.nw = @ + 1] ELSE o
             IN ops' = Append(ops, p)
        /\ PrintT(<<"GEN", ToJson(ops')>>)
        /\ UNCHANGED <<cur, target>>
Next == Kind \/ Out \/ Lim \/ Mode \/ Crash \/ Last
Spec == Init /\ [][Next]_vars
=============================================================================
