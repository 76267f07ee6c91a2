------------------------------ MODULE CkptDesign ------------------------------
(* The checkpoint protocol of one optimize worker, with crashes at any point.  *)
(*                                                                             *)
(* The worker applies the function to its inputs in order, collects the items  *)
(* in an open chunk, closes it when it is full, and hands the closed chunk and *)
(* a checkpoint (the chunks so far, and the input to resume from) to upload    *)
(* queues.  Each queue is drained in order, the queues run independently.      *)
(* Copies are atomic (write aside, rename).  A crash loses everything but the  *)
(* output directory.  The next attempt starts from the checkpoint found there. *)
(*                                                                             *)
(* SameQueue: chunks and checkpoints go through one queue.                     *)
(* CountItems: the checkpoint counts the stored items instead of the inputs.   *)
(* Atomic: files appear complete or not at all.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Cap, NQ, MaxCrash, SameQueue, CountItems, Atomic

Inputs == 1..N
Outs == [Inputs -> {0, 1}]

VARIABLES out,      \* how many items each input gives
          pos, open, chunks, stored, base, nidx, queues, todo, state,      \* volatile
          disk, ck, index,                                                   \* the output directory
          crashes, turn
vars == <<out, pos, open, chunks, stored, base, nidx, queues, todo, state, disk, ck, index, crashes, turn>>

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Wanted == SelectSeq([i \in 1..N |-> i], LAMBDA i : out[i] = 1)

NoCk == [chunks |-> <<>>, done |-> 0]
Fresh == /\ open = <<>> /\ queues = [q \in 1..NQ |-> <<>>] /\ state = "run" /\ stored = <<>> /\ turn = 0 /\ todo = <<>>

Init == /\ out \in Outs /\ pos = 1 /\ chunks = <<>> /\ base = NoCk /\ nidx = 0 /\ Fresh
        /\ disk = <<>> /\ ck = NoCk /\ index = <<>> /\ crashes = 0

\* disk: a function from chunk names to contents, as a sequence of pairs
Put(d, name, val) == Append(SelectSeq(d, LAMBDA p : p[1] # name), <<name, val>>)
Get(d, name) == LET S == SelectSeq(d, LAMBDA p : p[1] = name) IN IF S = <<>> THEN <<-1>> ELSE S[1][2]

Queue == IF SameQueue THEN 1 ELSE (turn % NQ) + 1
DoneTill(chs, st) ==
  IF CountItems THEN Len(Flat([k \in 1..Len(chs) |-> chs[k].items]))
  ELSE LET n == Len(Flat([k \in 1..Len(chs) |-> chs[k].items])) - Len(Flat([k \in 1..Len(base.chunks) |-> base.chunks[k].items]))
       IN IF n = 0 THEN base.done ELSE st[n]

\* an input is processed: a full chunk is closed before the item which doesn't fit is added
Process ==
  /\ state = "run" /\ pos <= N
  /\ IF out[pos] = 0 THEN UNCHANGED <<open, chunks, stored, nidx, queues>>
     ELSE /\ stored' = Append(stored, pos)
          /\ IF Len(open) < Cap
               THEN /\ open' = Append(open, pos) /\ UNCHANGED <<chunks, nidx>>
                    /\ IF chunks # <<>> THEN queues' = [queues EXCEPT ![Queue] = Append(@, [k |-> "ck", chunks |-> chunks, done |-> DoneTill(chunks, stored')])]
                       ELSE UNCHANGED queues
               ELSE LET c == [name |-> nidx, items |-> open]
                        chs == Append(chunks, c) IN
                    /\ chunks' = chs /\ open' = <<pos>> /\ nidx' = nidx + 1
                    /\ queues' = [queues EXCEPT ![Queue] = @ \o <<[k |-> "chunk", c |-> c],
                                                                    [k |-> "ck", chunks |-> chs, done |-> DoneTill(chs, stored')]>>]
  /\ pos' = pos + 1 /\ turn' = turn + 1
  /\ UNCHANGED <<out, base, todo, state, disk, ck, index, crashes>>

Finish ==
  /\ state = "run" /\ pos > N /\ state' = "wait"
  /\ LET c == [name |-> nidx, items |-> open]
         chs == IF open = <<>> THEN chunks ELSE Append(chunks, c)
         q0 == IF SameQueue THEN 1 ELSE 1
         q1 == IF open = <<>> THEN queues ELSE [queues EXCEPT ![q0] = Append(@, [k |-> "chunk", c |-> c])]
     IN /\ chunks' = chs
        /\ queues' = IF chs = <<>> THEN q1 ELSE [q1 EXCEPT ![Queue] = Append(@, [k |-> "ck", chunks |-> chs, done |-> DoneTill(chs, stored)])]
  /\ open' = <<>>
  /\ UNCHANGED <<out, pos, stored, base, nidx, todo, disk, ck, index, crashes, turn>>

\* one upload: with Atomic in one step, otherwise the file is there half-written first
Upload(q) ==
  /\ state \in {"run", "wait"} /\ queues[q] # <<>>
  /\ LET m == Head(queues[q]) IN
     IF Atomic \/ todo = <<q, m>> THEN
       /\ queues' = [queues EXCEPT ![q] = Tail(@)] /\ todo' = <<>>
       /\ IF m.k = "chunk" THEN disk' = Put(disk, m.c.name, m.c.items) /\ UNCHANGED ck
          ELSE ck' = [chunks |-> m.chunks, done |-> m.done] /\ UNCHANGED disk
     ELSE /\ todo = <<>> /\ todo' = <<q, m>> /\ UNCHANGED queues
          /\ IF m.k = "chunk" THEN disk' = Put(disk, m.c.name, <<0>>) /\ UNCHANGED ck
             ELSE ck' = [chunks |-> <<>>, done |-> -1] /\ UNCHANGED disk
  /\ UNCHANGED <<out, pos, open, chunks, stored, base, nidx, state, index, crashes, turn>>

Publish ==
  /\ state = "wait" /\ \A q \in 1..NQ : queues[q] = <<>>
  /\ index' = chunks /\ state' = "done"
  /\ UNCHANGED <<out, pos, open, chunks, stored, base, nidx, queues, todo, disk, ck, crashes, turn>>

Crash ==
  /\ state \in {"run", "wait"} /\ crashes < MaxCrash
  /\ crashes' = crashes + 1
  /\ open' = <<>> /\ queues' = [q \in 1..NQ |-> <<>>] /\ stored' = <<>> /\ turn' = 0 /\ todo' = <<>>
  /\ base' = ck /\ chunks' = ck.chunks /\ pos' = ck.done + 1 /\ nidx' = ck.done
  /\ state' = IF ck.done < 0 THEN "unreadable" ELSE "run"
  /\ UNCHANGED <<out, disk, ck, index>>

Next == Process \/ Finish \/ (\E q \in 1..NQ : Upload(q)) \/ Publish \/ Crash
Spec == Init /\ [][Next]_vars

\* ---- what is wanted -------------------------------------------------------
\* A published dataset has every item once and in order, in chunks which are there with the contents listed.
Complete == state = "done" =>
  /\ Flat([k \in 1..Len(index) |-> index[k].items]) = Wanted
  /\ \A k \in 1..Len(index) : Get(disk, index[k].name) = index[k].items
  /\ \A j, k \in 1..Len(index) : j # k => index[j].name # index[k].name
\* A checkpoint in the output directory only refers to chunks which are there.
Durable == \A k \in 1..Len(ck.chunks) : Get(disk, ck.chunks[k].name) = ck.chunks[k].items
Resumable == state # "unreadable"
=============================================================================
