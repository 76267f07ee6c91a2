------------------------------- MODULE MapDesign -------------------------------
(* The processes of map over input files: every worker has downloaders, which  *)
(* copy the files of its items into a cache shared by all workers, uploaders   *)
(* of the files its function wrote, and a remover of the copies it no longer   *)
(* needs.  Any downloader and uploader may fail at any point.                  *)
(*                                                                             *)
(* Atomic:   a copy appears in the cache complete                              *)
(* KeepShared: copies several items need aren't removed                        *)
(* InOrder:  items which are ready early wait for their turn                   *)
(* UpCheck:  a worker checks that its uploaders didn't fail                    *)
(* DownCheck: a worker waiting for an item checks its downloaders are alive    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS W, N, F, D, U, Atomic, KeepShared, InOrder, UpCheck, DownCheck
VARIABLES items, cache, todo, cur, ready, early, cnt, upq, upalive, rmq, state, published, order, bad
vars == <<items, cache, todo, cur, ready, early, cnt, upq, upalive, rmq, state, published, order, bad>>
Ws == 1..W
Ds == 1..D
Us == 1..U
None == 99

Downloads(d) == SelectSeq([k \in 1..N |-> k], LAMBDA k : (k - 1) % D = d - 1)
Init == /\ items \in [Ws -> [1..N -> 1..F]]
        /\ cache = [f \in 1..F |-> "no"]
        /\ todo = [w \in Ws |-> [d \in Ds |-> Downloads(d) \o <<None>>]]
        /\ cur = [w \in Ws |-> [d \in Ds |-> 0]]        \* being copied; None: failed
        /\ ready = [w \in Ws |-> <<>>] /\ early = [w \in Ws |-> {}] /\ cnt = [w \in Ws |-> 0]
        /\ upq = [w \in Ws |-> [u \in Us |-> <<>>]] /\ upalive = [w \in Ws |-> [u \in Us |-> "run"]]
        /\ rmq = [w \in Ws |-> <<>>] /\ state = [w \in Ws |-> "run"] /\ published = {} /\ order = [w \in Ws |-> <<>>] /\ bad = FALSE

Shared(f) == Cardinality({<<w, k>> \in Ws \X (1..N) : items[w][k] = f}) > 1

\* ---- downloaders
DStart(w, d) == /\ cur[w][d] = 0 /\ todo[w][d] # <<>>
                /\ todo' = [todo EXCEPT ![w][d] = Tail(@)]
                /\ LET k == Head(todo[w][d]) IN
                   IF k = None THEN ready' = [ready EXCEPT ![w] = Append(@, None)] /\ UNCHANGED <<cur, cache>>
                   ELSE LET f == items[w][k] IN
                     IF cache[f] # "no" THEN ready' = [ready EXCEPT ![w] = Append(@, k)] /\ UNCHANGED <<cur, cache>>
                     ELSE cur' = [cur EXCEPT ![w][d] = k] /\ UNCHANGED ready
                          /\ cache' = IF Atomic THEN cache ELSE [cache EXCEPT ![f] = "part"]
                /\ UNCHANGED <<items, early, cnt, upq, upalive, rmq, state, published, order, bad>>
DCopied(w, d) == /\ cur[w][d] \in 1..N
                 /\ cache' = [cache EXCEPT ![items[w][cur[w][d]]] = "full"]
                 /\ ready' = [ready EXCEPT ![w] = Append(@, cur[w][d])] /\ cur' = [cur EXCEPT ![w][d] = 0]
                 /\ UNCHANGED <<items, todo, early, cnt, upq, upalive, rmq, state, published, order, bad>>
DFail(w, d) == /\ cur[w][d] \in 1..N /\ cur' = [cur EXCEPT ![w][d] = None]
               /\ UNCHANGED <<items, cache, todo, ready, early, cnt, upq, upalive, rmq, state, published, order, bad>>

\* ---- the worker
Process(w, k, rd, ea) ==
  /\ bad' = (bad \/ cache[items[w][k]] # "full")
  /\ order' = [order EXCEPT ![w] = Append(@, k)]
  /\ cnt' = [cnt EXCEPT ![w] = @ + 1]
  /\ upq' = [upq EXCEPT ![w][(cnt[w] % U) + 1] = Append(@, k)]
  /\ rmq' = IF KeepShared /\ Shared(items[w][k]) THEN rmq ELSE [rmq EXCEPT ![w] = Append(@, items[w][k])]
  /\ ready' = rd /\ early' = ea
  /\ UNCHANGED <<items, cache, todo, cur, upalive, state, published>>
Take(w) == /\ state[w] = "run"
           /\ IF InOrder /\ (cnt[w] + 1) \in early[w] THEN Process(w, cnt[w] + 1, ready, early)
              ELSE /\ ready[w] # <<>> /\ Head(ready[w]) # None
                   /\ IF ~InOrder \/ Head(ready[w]) = cnt[w] + 1 THEN Process(w, Head(ready[w]), [ready EXCEPT ![w] = Tail(@)], early)
                      ELSE /\ early' = [early EXCEPT ![w] = @ \cup {Head(ready[w])}] /\ ready' = [ready EXCEPT ![w] = Tail(@)]
                           /\ UNCHANGED <<items, cache, todo, cur, cnt, upq, upalive, rmq, state, published, order, bad>>
TakeNone(w) == /\ state[w] = "run" /\ ~(InOrder /\ (cnt[w] + 1) \in early[w]) /\ ready[w] # <<>> /\ Head(ready[w]) = None
               /\ LET rest == Tail(ready[w])
                      got == {x \in 1..Len(rest) : rest[x] = None}
                      \* the last signal: all the others were taken before
                      last == got = {} /\ \A d \in Ds : todo[w][d] = <<>> /\ cur[w][d] = 0 IN
                  /\ ready' = [ready EXCEPT ![w] = rest]
                  /\ IF last THEN state' = [state EXCEPT ![w] = "join"] /\ upq' = [upq EXCEPT ![w] = [u \in Us |-> Append(@[u], None)]]
                     ELSE UNCHANGED <<state, upq>>
               /\ UNCHANGED <<items, cache, todo, cur, early, cnt, upalive, rmq, published, order, bad>>
Stuck(w) == /\ DownCheck /\ state[w] = "run" /\ ready[w] = <<>> /\ ~(InOrder /\ (cnt[w] + 1) \in early[w])
            /\ \E d \in Ds : cur[w][d] = None
            /\ state' = [state EXCEPT ![w] = "error"]
            /\ UNCHANGED <<items, cache, todo, cur, ready, early, cnt, upq, upalive, rmq, published, order, bad>>
Join(w) == /\ state[w] = "join" /\ \A u \in Us : upalive[w][u] # "run"
           /\ state' = [state EXCEPT ![w] = IF UpCheck /\ \E u \in Us : upalive[w][u] = "failed" THEN "error" ELSE "done"]
           /\ UNCHANGED <<items, cache, todo, cur, ready, early, cnt, upq, upalive, rmq, published, order, bad>>

\* ---- uploaders, remover
Upload(w, u) == /\ upalive[w][u] = "run" /\ upq[w][u] # <<>>
                /\ upq' = [upq EXCEPT ![w][u] = Tail(@)]
                /\ IF Head(upq[w][u]) = None THEN upalive' = [upalive EXCEPT ![w][u] = "ended"] /\ UNCHANGED published
                   ELSE published' = published \cup {<<w, Head(upq[w][u])>>} /\ UNCHANGED upalive
                /\ UNCHANGED <<items, cache, todo, cur, ready, early, cnt, rmq, state, order, bad>>
UpFail(w, u) == /\ upalive[w][u] = "run" /\ upq[w][u] # <<>> /\ Head(upq[w][u]) # None
                /\ upalive' = [upalive EXCEPT ![w][u] = "failed"]
                /\ UNCHANGED <<items, cache, todo, cur, ready, early, cnt, upq, rmq, state, published, order, bad>>
Remove(w) == /\ rmq[w] # <<>> /\ rmq' = [rmq EXCEPT ![w] = Tail(@)] /\ cache' = [cache EXCEPT ![Head(rmq[w])] = "no"]
             /\ UNCHANGED <<items, todo, cur, ready, early, cnt, upq, upalive, state, published, order, bad>>

Good(w) == Take(w) \/ TakeNone(w) \/ Stuck(w) \/ Join(w) \/ Remove(w) \/ (\E d \in Ds : DStart(w, d) \/ DCopied(w, d)) \/ (\E u \in Us : Upload(w, u))
Next == \E w \in Ws : Good(w) \/ (\E d \in Ds : DFail(w, d)) \/ (\E u \in Us : UpFail(w, u))
\* a step of each process is taken sooner or later (a failure counts as one)
Spec == /\ Init /\ [][Next]_vars
        /\ \A w \in Ws : WF_vars(Take(w) \/ TakeNone(w) \/ Stuck(w) \/ Join(w))
        /\ \A w \in Ws, d \in Ds : WF_vars(DStart(w, d) \/ DCopied(w, d))
        /\ \A w \in Ws, u \in Us : WF_vars(Upload(w, u))

\* the function never sees a missing or incomplete file
Complete == ~bad
\* each item once, in order (the last call can be announced)
Order == \A w \in Ws : \A k \in 1..Len(order[w]) : order[w][k] = k
\* a worker succeeds only if everything is processed and published
Published == \A w \in Ws : state[w] = "done" => Len(order[w]) = N /\ \A k \in 1..N : <<w, k>> \in published
\* without failures it succeeds
Healthy == \A w \in Ws : state[w] = "error" => (\E d \in Ds : cur[w][d] = None) \/ (\E u \in Us : upalive[w][u] = "failed")
Inv == Complete /\ Order /\ Published /\ Healthy
Ends == \A w \in Ws : <>(state[w] \in {"done", "error"})
=============================================================================
