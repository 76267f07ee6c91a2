------------------------------ MODULE SplitDesign ------------------------------
(* Design of train_test_split: the (shuffled) list of chunks, each with its     *)
(* region of interest [lo, hi), is cut into consecutive pieces; a chunk at a    *)
(* cut is given to both sides with disjoint regions.  Splits may be split       *)
(* again, and are indexed through their regions.                                *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxChunks, MaxSize, MaxParts,
          Advance      \* TRUE: a chunk used up completely is not offered again (the code); FALSE: wrong variant
VARIABLES left, parts, whole
vars == <<left, parts, whole>>

Seqs(n) == UNION {[1..k -> 1..MaxSize] : k \in 1..n}
Perms(k) == {p \in [1..k -> 1..k] : \A a, b \in 1..k : a # b => p[a] # p[b]}
Size(r) == r.hi - r.lo
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Total(Tail(q))

Init == \E s \in Seqs(MaxChunks) : \E p \in Perms(Len(s)) :
          /\ left = [k \in 1..Len(s) |-> [chunk |-> p[k], lo |-> 0, hi |-> s[p[k]]]]
          /\ whole = left /\ parts = <<>>

\* the cut after n items: index of the chunk at the cut and how much of it is used
RECURSIVE Match(_, _, _)
Match(q, n, k) == IF Total(SubSeq(q, 1, k)) >= n THEN k ELSE Match(q, n, k + 1)
Prefix(q, n) == IF n = 0 THEN <<>>
                ELSE LET m == Match(q, n, 1)
                         over == Total(SubSeq(q, 1, m)) - n
                     IN [SubSeq(q, 1, m) EXCEPT ![m] = [@ EXCEPT !.hi = @ - over]]
Rest(q, n) == IF n = 0 THEN q
              ELSE LET m == Match(q, n, 1)
                       over == Total(SubSeq(q, 1, m)) - n
                   IN IF over = 0 THEN SubSeq(q, IF Advance THEN m + 1 ELSE m, Len(q))
                      ELSE [SubSeq(q, m, Len(q)) EXCEPT ![1] = [@ EXCEPT !.lo = q[m].hi - over]]
Take(n) == /\ Len(parts) < MaxParts
           /\ parts' = Append(parts, Prefix(left, n))
           /\ left' = Rest(left, n)
           /\ UNCHANGED whole
\* a split is taken as the dataset to be split next
Nest(k) == /\ whole' = parts[k] /\ left' = parts[k] /\ parts' = <<>> /\ Len(parts[k]) < Len(whole)
Next == (\E n \in 0..Total(left) : Take(n)) \/ (\E k \in 1..Len(parts) : Nest(k))
Spec == Init /\ [][Next]_vars

\* items of a view, in index order (what ds[0], ds[1], ... have to be)
RECURSIVE Items(_)
Items(q) == IF q = <<>> THEN <<>>
            ELSE [k \in 1..Size(Head(q)) |-> <<Head(q).chunk, Head(q).lo + k - 1>>] \o Items(Tail(q))
Set(q) == {Items(q)[k] : k \in 1..Len(Items(q))}
\* the lookup of an index through the zero based regions
RECURSIVE Lookup(_, _)
Lookup(q, i) == IF i < Size(Head(q)) THEN <<Head(q).chunk, Head(q).lo + i>> ELSE Lookup(Tail(q), i - Size(Head(q)))

Disjoint == \A a, b \in 1..Len(parts) : a # b => Set(parts[a]) \cap Set(parts[b]) = {}
NoRepeat == \A a \in 1..Len(parts) : Cardinality(Set(parts[a])) = Len(Items(parts[a]))
Inside == \A a \in 1..Len(parts) : Set(parts[a]) \subseteq Set(whole)
Lossless == (UNION {Set(parts[a]) : a \in 1..Len(parts)}) \cup Set(left) = Set(whole)
Indexed == \A a \in 1..Len(parts) : \A i \in 0..(Total(parts[a]) - 1) : Lookup(parts[a], i) = Items(parts[a])[i + 1]
Inv == Disjoint /\ NoRepeat /\ Inside /\ Lossless /\ Indexed
=============================================================================
