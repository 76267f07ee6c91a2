---------------------------- MODULE LoaderDesign ----------------------------
(* Design of StreamingDataLoader: W workers hold share[w] items, the loader    *)
(* collects one batch from each non-exhausted worker in turn; a state is       *)
(* (epoch, samples counted batch-wise, latest worker); to resume, the sampling *)
(* is replayed to find the position of every worker.  Every behaviour of the   *)
(* design must be accepted by the contract Loader.  Exhausted says whether the *)
(* replay knows about exhausted workers (it did not before commit a48cee7).    *)
EXTENDS Loader, TLC
CONSTANTS Shares, Bs, MaxEpoch, MaxSaves, MaxSteps, Exhausted

VARIABLES share, B, epoch, taken, nextw, samples, latest, ph, slots, restore, st, bad, steps, refdone
vars == <<share, B, epoch, taken, nextw, samples, latest, ph, slots, restore, st, bad, steps, refdone>>

W == Len(share)
Min2(a, b) == IF a < b THEN a ELSE b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Total == SumSeq(share)
\* item j of worker w in epoch e
Id(e, w, j) == e * 1000 + w * 100 + j

\* ---- replay of the sampling (dataset.py) --------------------------------------
RECURSIVE ReplayRest(_, _, _)
ReplayRest(n, w, pos) ==
  IF n = 0 THEN pos
  ELSE IF Exhausted /\ \A x \in 1..W : pos[x] >= share[x] THEN pos
  ELSE IF Exhausted /\ pos[w] >= share[w] THEN ReplayRest(n, (w % W) + 1, pos)
  ELSE LET k == Min2(B, n)
           d == IF Exhausted THEN Min2(k, share[w] - pos[w]) ELSE k
       IN ReplayRest(n - k, (w % W) + 1, [pos EXCEPT ![w] = @ + d])
Replay(n) ==
  LET r0 == n \div (W * B)
      r == IF Exhausted THEN Min2(r0, Min({share[x] : x \in 1..W}) \div B) ELSE r0
  IN ReplayRest(n - r * W * B, 1, [x \in 1..W |-> r * B])

Init == /\ share \in Shares /\ B \in Bs
        /\ epoch = 0 /\ taken = [x \in 1..W |-> 0] /\ nextw = 1 /\ samples = 0 /\ latest = 0
        /\ ph = "idle" /\ slots = <<>> /\ restore = FALSE
        /\ st = Apply([ev |-> "new"], InitSt([enforce |-> <<"resume", "reiterate", "len">>]))
        /\ bad = "ok" /\ steps = 0 /\ refdone = FALSE

Emit(e) == /\ bad' = Clause(e, st) /\ st' = Apply(e, st)

\* iter() only creates a generator; its body runs with the first next(): RunBody is glued to the first Batch / End
Start == /\ ph = "idle"
         /\ refdone \/ epoch < MaxEpoch
         /\ ph' = "iter" /\ Emit([ev |-> "start"])
         /\ UNCHANGED <<share, B, epoch, taken, nextw, samples, latest, slots, restore, refdone>>
RunBody ==
         /\ ph = "iter" /\ ph' = "begun"
         /\ IF restore
            THEN /\ taken' = Replay(samples) /\ nextw' = ((latest + 1) % W) + 1
                 /\ UNCHANGED <<epoch, samples, latest>>
            ELSE /\ epoch' = epoch + 1 /\ taken' = [x \in 1..W |-> 0] /\ nextw' = 1 /\ samples' = 0 /\ latest' = 0
         /\ restore' = FALSE
         /\ UNCHANGED <<share, B, slots, refdone, st, bad>>

Batch == /\ ph \in {"begun", "run"} /\ ph' = "run"
         /\ \E w \in 1..W : taken[w] < share[w]
         /\ LET w == CHOOSE x \in 1..W : /\ taken[x] < share[x]
                                         /\ \A y \in 1..W : taken[y] < share[y] =>
                                              ((x - nextw + W) % W) <= ((y - nextw + W) % W)
                n == Min2(B, share[w] - taken[w])
            IN /\ Emit([ev |-> "batch", b |-> [j \in 1..n |-> Id(epoch, w, taken[w] + j)]])
               /\ taken' = [taken EXCEPT ![w] = @ + n]
               /\ nextw' = (w % W) + 1
               /\ latest' = w - 1
         /\ samples' = samples + B
         /\ UNCHANGED <<share, B, epoch, slots, restore, refdone>>

End == /\ ph \in {"begun", "run"} /\ \A w \in 1..W : taken[w] >= share[w]
       /\ ph' = "idle" /\ Emit([ev |-> "end"])
       /\ refdone' = (refdone \/ epoch = MaxEpoch)
       /\ UNCHANGED <<share, B, epoch, taken, nextw, samples, latest, slots, restore>>

Save == /\ refdone /\ ph # "begun" /\ Len(slots) < MaxSaves
        /\ Emit([ev |-> "save", slot |-> Len(slots) + 1])
        /\ slots' = Append(slots, <<epoch, samples, latest>>)
        /\ UNCHANGED <<share, B, epoch, taken, nextw, samples, latest, ph, restore, refdone>>

Leave == /\ refdone /\ ph \in {"iter", "run"} /\ ph' = "idle" /\ Emit([ev |-> "leave"])
         /\ UNCHANGED <<share, B, epoch, taken, nextw, samples, latest, slots, restore, refdone>>

New == /\ refdone /\ ph = "idle" /\ Emit([ev |-> "new"])
       /\ epoch' = 0 /\ taken' = [x \in 1..W |-> 0] /\ nextw' = 1 /\ samples' = 0 /\ latest' = 0 /\ restore' = FALSE
       /\ UNCHANGED <<share, B, slots, ph, refdone>>

Load == /\ refdone /\ ph = "idle"
        /\ \E x \in 1..Len(slots) :
             /\ Emit([ev |-> "load", slot |-> x])
             /\ epoch' = slots[x][1] /\ samples' = slots[x][2] /\ latest' = slots[x][3]
             /\ restore' = (slots[x][2] > 0 /\ slots[x][2] < Total)
        /\ UNCHANGED <<share, B, taken, nextw, slots, ph, refdone>>

Next == /\ steps < MaxSteps
        /\ steps' = IF refdone THEN steps + 1 ELSE 0
        /\ \/ Start \/ RunBody \/ Batch \/ End \/ Save \/ Leave \/ New \/ Load
Spec == Init /\ [][Next]_vars
\* once the reference epochs are over an epoch beyond them is not judged
Accepted == bad = "ok"
=============================================================================
