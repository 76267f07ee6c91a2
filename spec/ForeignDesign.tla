----------------------------- MODULE ForeignDesign -----------------------------
(* The reader of Parquet files: a file is a sequence of row groups; reading row *)
(* i loads the group which holds it; the group is kept until it was read as     *)
(* often as it has rows; the file may be evicted (and downloaded again)         *)
(* anytime.  Cumulative: the group is found from the real sizes; otherwise the  *)
(* size of the first group is assumed for all of them.                          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxGroups, MaxRows, MaxReads, Cumulative, Sequential
VARIABLES groups, file, open, cached, want, out, reads
vars == <<groups, file, open, cached, want, out, reads>>
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Start(g) == Sum(SubSeq(groups, 1, g - 1))
Total == Sum(groups)
None == Total + 1
Find(i) == IF Cumulative THEN CHOOSE g \in 1..Len(groups) : Start(g) <= i /\ i < Start(g) + groups[g]
           ELSE (i \div groups[1]) + 1
Within(i) == IF Cumulative THEN i - Start(Find(i)) ELSE i % groups[1]
Init == /\ groups \in UNION {[1..n -> 0..MaxRows] : n \in 1..MaxGroups} /\ Total > 0 /\ (~Cumulative => groups[1] > 0)
        /\ file \in BOOLEAN /\ open = FALSE /\ cached = [g \in 1..Len(groups) |-> 0] /\ want = None /\ out = None /\ reads = 0
Ask == /\ want = None /\ reads < MaxReads /\ reads' = reads + 1
       /\ \E i \in 0..(Total - 1) : (Sequential => i = reads % Total) /\ want' = i
       /\ out' = None /\ UNCHANGED <<groups, file, open, cached>>
Open == /\ want # None /\ ~open /\ file /\ open' = TRUE /\ UNCHANGED <<groups, file, cached, want, out, reads>>
Evict == /\ file /\ ~Sequential /\ file' = FALSE /\ \E closed \in BOOLEAN : IF closed THEN open' = FALSE /\ cached' = [g \in 1..Len(groups) |-> 0] ELSE UNCHANGED <<open, cached>>
         /\ UNCHANGED <<groups, want, out, reads>>
Download == ~file /\ file' = TRUE /\ UNCHANGED <<groups, open, cached, want, out, reads>>
Read == /\ want # None /\ open
        /\ LET g == Find(want) IN
           IF g > Len(groups) \/ Within(want) >= groups[g] THEN out' = None + 1 /\ UNCHANGED cached
           ELSE /\ out' = Start(g) + Within(want)
                /\ cached' = [cached EXCEPT ![g] = IF @ + 1 >= groups[g] THEN 0 ELSE @ + 1]
        /\ want' = None /\ UNCHANGED <<groups, file, open, reads>>
\* the row which was asked last
VARIABLE last
Next == \/ (Ask /\ last' = want') \/ ((Open \/ Evict \/ Download \/ Read) /\ UNCHANGED last)
Spec == Init /\ last = None /\ [][Next]_<<vars, last>> /\ WF_<<vars, last>>(Open /\ UNCHANGED last) /\ WF_<<vars, last>>(Read /\ UNCHANGED last) /\ SF_<<vars, last>>(Download /\ UNCHANGED last)
Right == out # None => out = last
\* read in order and never evicted, at most one group is kept
Frugal == Sequential => Cardinality({g \in 1..Len(groups) : cached[g] > 0}) <= 1
=============================================================================
