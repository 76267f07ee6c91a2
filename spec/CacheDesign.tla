----------------------------- MODULE CacheDesign -----------------------------
(* The cache shared by the readers of one node, with every interleaving.       *)
(*                                                                             *)
(* Each worker has a reader (main thread) and a prepare thread.  The prepare   *)
(* thread downloads the worker's chunks in order, at most Pre ahead, and       *)
(* evicts consumed chunks; lock counts tell which chunks other workers use.    *)
(* The reader waits for its chunk, opens it (an open file survives eviction),  *)
(* and on the first item of the next chunk releases the previous one.          *)
(*                                                                             *)
(* MinTwo:    at least two chunks are kept in flight, whatever Pre.            *)
(* Evict:     "split": check the count, check the file, remove it: three steps *)
(*            "atomic": one step, as seen by those who change the count.       *)
(* LockFirst: the count is incremented before looking for the file.            *)
(* Early:     a chunk consumed before its thread locked it is never locked.    *)
(* Tolerant:  removing a file which is gone already is no error.               *)
(* Eager:     a consumed chunk is evicted whatever the number of chunks ahead. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, Plan, Pre, MinTwo, Evict, LockFirst, Early, Tolerant, Eager, Cached, Bound

P(w) == Plan[w]
Chunks == UNION {{P(w)[i] : i \in 1..Len(P(w))} : w \in 1..W}
Ahead == IF MinTwo /\ Pre < 2 THEN 2 ELSE Pre

VARIABLES file, cnt, dl,                                    \* the cache directory
          pc, cur, nxt, ctr, delq, tbd, held, gone,         \* prepare threads
          pos, open                                         \* readers
vars == <<file, cnt, dl, pc, cur, nxt, ctr, delq, tbd, held, gone, pos, open>>

Init ==
  /\ file \in (IF Cached THEN SUBSET Chunks ELSE {{}})
  /\ cnt = [c \in Chunks |-> 0] /\ dl = [c \in Chunks |-> 0]
  /\ pc = [w \in 1..W |-> "idle"] /\ cur = [w \in 1..W |-> 0] /\ nxt = [w \in 1..W |-> 1]
  /\ ctr = [w \in 1..W |-> 0] /\ delq = [w \in 1..W |-> <<>>] /\ tbd = [w \in 1..W |-> <<>>]
  /\ held = [w \in 1..W |-> {}] /\ gone = [w \in 1..W |-> {}]
  /\ pos = [w \in 1..W |-> 0] /\ open = [w \in 1..W |-> FALSE]

Go(w, l) == pc' = [pc EXCEPT ![w] = l]
Min(a, b) == IF a < b THEN a ELSE b

\* ---- prepare thread: downloads ----
\* takes the next chunk
Take(w) ==
  /\ pc[w] = "idle" /\ ctr[w] < Ahead /\ nxt[w] <= Len(P(w))
  /\ LET c == P(w)[nxt[w]] IN
     /\ nxt' = [nxt EXCEPT ![w] = @ + 1]
     /\ IF Early /\ c \in gone[w]
          THEN \* consumed already
               /\ gone' = [gone EXCEPT ![w] = @ \ {c}] /\ cur' = [cur EXCEPT ![w] = c] /\ Go(w, "look")
               /\ UNCHANGED <<held, cnt>>
          ELSE /\ cur' = [cur EXCEPT ![w] = c]
               /\ UNCHANGED gone
               /\ IF LockFirst
                    THEN /\ held' = [held EXCEPT ![w] = @ \cup {c}] /\ cnt' = [cnt EXCEPT ![c] = @ + 1] /\ Go(w, "look")
                    ELSE /\ Go(w, IF c \in file THEN "lock" ELSE "lockfetch") /\ UNCHANGED <<held, cnt>>
     /\ UNCHANGED <<file, dl, ctr, delq, tbd, pos, open>>
Lock(w) ==
  /\ pc[w] \in {"lock", "lockfetch"}
  /\ cnt' = [cnt EXCEPT ![cur[w]] = @ + 1]
  /\ held' = [held EXCEPT ![w] = @ \cup {cur[w]}]
  /\ IF pc[w] = "lock" THEN Go(w, "idle") /\ ctr' = [ctr EXCEPT ![w] = @ + 1] ELSE Go(w, "fetch") /\ UNCHANGED ctr
  /\ UNCHANGED <<file, dl, cur, nxt, delq, tbd, gone, pos, open>>
Look(w) ==
  /\ pc[w] = "look"
  /\ IF cur[w] \in file THEN Go(w, "idle") /\ ctr' = [ctr EXCEPT ![w] = @ + 1] ELSE Go(w, "fetch") /\ UNCHANGED ctr
  /\ UNCHANGED <<file, cnt, dl, cur, nxt, delq, tbd, held, gone, pos, open>>
\* the download lock is not waited for: whoever has it brings the file
Fetch(w) ==
  /\ pc[w] = "fetch"
  /\ IF dl[cur[w]] # 0 \/ cur[w] \in file
       THEN Go(w, "idle") /\ ctr' = [ctr EXCEPT ![w] = @ + 1] /\ UNCHANGED dl
       ELSE Go(w, "copy") /\ dl' = [dl EXCEPT ![cur[w]] = w] /\ UNCHANGED ctr
  /\ UNCHANGED <<file, cnt, cur, nxt, delq, tbd, held, gone, pos, open>>
Copy(w) ==
  /\ pc[w] = "copy"
  /\ file' = file \cup {cur[w]}
  /\ Go(w, "unlock")
  /\ UNCHANGED <<cnt, dl, cur, nxt, ctr, delq, tbd, held, gone, pos, open>>
Unlock(w) ==
  /\ pc[w] = "unlock"
  /\ dl' = [dl EXCEPT ![cur[w]] = 0] /\ Go(w, "idle") /\ ctr' = [ctr EXCEPT ![w] = @ + 1]
  /\ UNCHANGED <<file, cnt, cur, nxt, delq, tbd, held, gone, pos, open>>

\* ---- prepare thread: evictions ----
CanDelete(w) == IF Eager THEN ctr[w] >= 1 ELSE ctr[w] >= Ahead - 1
Pop(w) ==
  /\ pc[w] = "idle" /\ delq[w] # <<>>
  /\ tbd' = [tbd EXCEPT ![w] = Append(@, Head(delq[w]))] /\ delq' = [delq EXCEPT ![w] = Tail(@)]
  /\ Go(w, "clean")
  /\ UNCHANGED <<file, cnt, dl, cur, nxt, ctr, held, gone, pos, open>>
Clean(w) ==
  /\ pc[w] = "clean"
  /\ IF tbd[w] = <<>> \/ ~CanDelete(w)
       THEN /\ ctr' = [ctr EXCEPT ![w] = @ - 1] /\ Go(w, "idle") /\ UNCHANGED <<tbd, cur, file>>
       ELSE /\ tbd' = [tbd EXCEPT ![w] = Tail(@)] /\ cur' = [cur EXCEPT ![w] = Head(tbd[w])]
            /\ UNCHANGED ctr
            /\ IF cnt[Head(tbd[w])] > 0 THEN UNCHANGED <<file, pc>>
               ELSE IF Evict = "atomic" THEN file' = file \ {Head(tbd[w])} /\ UNCHANGED pc
               ELSE Go(w, "exists") /\ UNCHANGED file
  /\ UNCHANGED <<cnt, dl, nxt, delq, held, gone, pos, open>>
Exists(w) ==
  /\ pc[w] = "exists"
  /\ Go(w, IF cur[w] \in file THEN "remove" ELSE "clean")
  /\ UNCHANGED <<file, cnt, dl, cur, nxt, ctr, delq, tbd, held, gone, pos, open>>
Remove(w) ==
  /\ pc[w] = "remove"
  /\ IF cur[w] \in file \/ Tolerant THEN file' = file \ {cur[w]} /\ Go(w, "clean") ELSE Go(w, "dead") /\ UNCHANGED file
  /\ UNCHANGED <<cnt, dl, cur, nxt, ctr, delq, tbd, held, gone, pos, open>>

\* ---- reader ----
\* opens its next chunk, releases the previous one
Release(w, c) ==
  IF Early /\ c \notin held[w]
    THEN gone' = [gone EXCEPT ![w] = @ \cup {c}] /\ UNCHANGED <<cnt, held>>
    ELSE /\ held' = [held EXCEPT ![w] = @ \ {c}]
         /\ cnt' = [cnt EXCEPT ![c] = IF @ = 0 THEN 0 ELSE @ - 1]
         /\ UNCHANGED gone
Open(w) ==
  /\ pos[w] < Len(P(w)) /\ ~open[w] /\ P(w)[pos[w] + 1] \in file
  /\ open' = [open EXCEPT ![w] = TRUE]
  /\ pos' = [pos EXCEPT ![w] = @ + 1]
  /\ IF pos[w] = 0 THEN UNCHANGED <<cnt, held, gone, delq>>
     ELSE Release(w, P(w)[pos[w]]) /\ delq' = [delq EXCEPT ![w] = Append(@, P(w)[pos[w]])]
  /\ UNCHANGED <<file, dl, pc, cur, nxt, ctr, tbd>>
Consume(w) ==
  /\ open[w] /\ open' = [open EXCEPT ![w] = FALSE]
  /\ IF pos[w] = Len(P(w))
       THEN Release(w, P(w)[pos[w]]) /\ delq' = [delq EXCEPT ![w] = Append(@, P(w)[pos[w]])]
       ELSE UNCHANGED <<cnt, held, gone, delq>>
  /\ UNCHANGED <<file, dl, pc, cur, nxt, ctr, tbd, pos>>

Prepare(w) == Take(w) \/ Lock(w) \/ Look(w) \/ Fetch(w) \/ Copy(w) \/ Unlock(w) \/ Pop(w) \/ Clean(w) \/ Exists(w) \/ Remove(w)
Read(w) == Open(w) \/ Consume(w)
Next == \E w \in 1..W : Prepare(w) \/ Read(w)
Spec == Init /\ [][Next]_vars /\ \A w \in 1..W : WF_vars(Prepare(w)) /\ WF_vars(Read(w))

Done(w) == pos[w] = Len(P(w)) /\ ~open[w]
Quiet == \A w \in 1..W : Done(w) /\ pc[w] = "idle" /\ nxt[w] > Len(P(w)) /\ delq[w] = <<>>

\* every reader gets all of its chunks, with no help
Progress == <>(\A w \in 1..W : Done(w))
\* nobody dies
Alive == \A w \in 1..W : pc[w] # "dead"
\* a chunk its worker still needs is never evicted once the worker holds it
Safe == \A w \in 1..W : \A c \in held[w] : (c \in file) \/ pc[w] # "idle" \/ dl[c] # 0
\* no lock outlives its reader
Released == Quiet => \A c \in Chunks : cnt[c] = 0
\* the cache is bounded
Bounded == Cardinality(file) <= Bound
=============================================================================
