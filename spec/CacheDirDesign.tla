----------------------------- MODULE CacheDirDesign -----------------------------
(* How processes which open the same remote dataset at the same time get the   *)
(* directory of its version within the cache, when the cache may still hold an *)
(* earlier version.  Entries of the cache: versions 1 (old) and 2 (current).   *)
(* Whole: when anything but the current version is there, everything is removed *)
(* (the code did so), otherwise only the other versions are.                   *)
EXTENDS Naturals, FiniteSets
CONSTANTS P, Chunks, Whole
VARIABLES there, files, pc, seen, got
vars == <<there, files, pc, seen, got>>
Ps == 1..P
\* files of the current version: 0 is the index
Init == /\ there \in SUBSET {1, 2} /\ files = (IF 2 \in there THEN {0} ELSE {}) /\ pc = [p \in Ps |-> "list"]
        /\ seen = [p \in Ps |-> {}] /\ got = [p \in Ps |-> 0]
List(p) == /\ pc[p] = "list" /\ seen' = [seen EXCEPT ![p] = there]
           /\ pc' = [pc EXCEPT ![p] = IF there \in {{}, {2}} THEN "mkdir" ELSE "clear"] /\ UNCHANGED <<there, files, got>>
\* an empty directory of the dataset counts as "anything but" as well
ListEmpty(p) == /\ Whole /\ pc[p] = "list" /\ there = {} /\ seen' = [seen EXCEPT ![p] = {}]
                /\ pc' = [pc EXCEPT ![p] = "clear"] /\ UNCHANGED <<there, files, got>>
Clear(p) == /\ pc[p] = "clear" /\ pc' = [pc EXCEPT ![p] = "mkdir"]
            /\ IF Whole THEN there' = {} /\ files' = {} ELSE there' = there \ {1} /\ UNCHANGED files
            /\ UNCHANGED <<seen, got>>
Mkdir(p) == /\ pc[p] = "mkdir" /\ pc' = [pc EXCEPT ![p] = "index"] /\ there' = there \cup {2} /\ UNCHANGED <<files, seen, got>>
Index(p) == /\ pc[p] = "index" /\ 2 \in there /\ pc' = [pc EXCEPT ![p] = "load"] /\ files' = files \cup {0} /\ UNCHANGED <<there, seen, got>>
Load(p) == /\ pc[p] = "load" /\ pc' = [pc EXCEPT ![p] = IF 0 \in files THEN "read" ELSE "failed"] /\ UNCHANGED <<there, files, seen, got>>
\* a chunk is downloaded (if it isn't there) and read then
Get(p) == /\ pc[p] = "read" /\ got[p] < Chunks /\ pc' = [pc EXCEPT ![p] = IF 2 \in there THEN "map" ELSE "failed"]
          /\ files' = (IF 2 \in there THEN files \cup {got[p] + 1} ELSE files) /\ UNCHANGED <<there, seen, got>>
Map(p) == /\ pc[p] = "map" /\ IF (got[p] + 1) \in files THEN pc' = [pc EXCEPT ![p] = "read"] /\ got' = [got EXCEPT ![p] = @ + 1]
                              ELSE pc' = [pc EXCEPT ![p] = "failed"] /\ UNCHANGED got
          /\ UNCHANGED <<there, files, seen>>
Step(p) == List(p) \/ ListEmpty(p) \/ Clear(p) \/ Mkdir(p) \/ Index(p) \/ Load(p) \/ Get(p) \/ Map(p)
Next == \E p \in Ps : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Ps : WF_vars(Step(p))
\* nobody fails, all end up reading everything, and the old version is gone
Inv == \A p \in Ps : pc[p] # "failed"
Ends == <>(\A p \in Ps : pc[p] = "read" /\ got[p] = Chunks)
Gone == <>[](1 \notin there)
=============================================================================
