------------------------------ MODULE NodesDesign ------------------------------
(* How several nodes publish one dataset: each one uploads its chunks, then     *)
(* its own index; the last node waits for the indexes of the others and         *)
(* publishes index.json.  Runs follow each other in the same directory; a node  *)
(* may fail, then the run is given up and another one is begun.                 *)
(* Nodes begin to work once all of them have begun the run (cleaned).           *)
EXTENDS Naturals, FiniteSets
CONSTANTS P, Runs, MayFail,
          Clean,     \* "own": a node removes its own index of former runs when it begins; "none"
          Wait,      \* the last node waits for the other indexes
          ChunksFirst \* chunks are uploaded before the index which lists them
Nodes == 1..P
VARIABLES run, pc, chunks, idx, index
vars == <<run, pc, chunks, idx, index>>
\* chunks[p], idx[p]: the run they are of (0: none); index: the runs of the parts listed by index.json (or none)
NoIndex == [p \in Nodes |-> 0]

Init == /\ run = 1 /\ pc = [p \in Nodes |-> "begin"] /\ chunks = NoIndex /\ idx = NoIndex /\ index = NoIndex
Begin(p) == /\ pc[p] = "begin" /\ pc' = [pc EXCEPT ![p] = "ready"]
            /\ idx' = IF Clean = "own" THEN [idx EXCEPT ![p] = 0] ELSE idx
            /\ index' = NoIndex                     \* mode overwrite
            /\ UNCHANGED <<run, chunks>>
AllBegun == \A p \in Nodes : pc[p] # "begin"
Work(p) == /\ pc[p] = "ready" /\ AllBegun
           /\ IF ChunksFirst THEN chunks' = [chunks EXCEPT ![p] = run] /\ UNCHANGED idx
                             ELSE idx' = [idx EXCEPT ![p] = run] /\ UNCHANGED chunks
           /\ pc' = [pc EXCEPT ![p] = "worked"] /\ UNCHANGED <<run, index>>
Own(p) == /\ pc[p] = "worked" /\ pc' = [pc EXCEPT ![p] = IF p = P THEN "last" ELSE "done"]
          /\ IF ChunksFirst THEN idx' = [idx EXCEPT ![p] = run] /\ UNCHANGED chunks
                            ELSE chunks' = [chunks EXCEPT ![p] = run] /\ UNCHANGED idx
          /\ UNCHANGED <<run, index>>
Publish == /\ pc[P] = "last" /\ (Wait => \A p \in Nodes : idx[p] # 0)
           /\ index' = idx /\ pc' = [pc EXCEPT ![P] = "done"] /\ UNCHANGED <<run, chunks, idx>>
Fail(p) == /\ MayFail /\ pc[p] \in {"ready", "worked"} /\ AllBegun
           /\ pc' = [pc EXCEPT ![p] = "failed"] /\ UNCHANGED <<run, chunks, idx, index>>
Over == \A p \in Nodes : pc[p] \in {"done", "failed"} \/ (p = P /\ pc[p] = "last" /\ \E q \in Nodes : pc[q] = "failed")
Again == /\ Over /\ run < Runs /\ run' = run + 1 /\ pc' = [p \in Nodes |-> "begin"] /\ UNCHANGED <<chunks, idx, index>>
Next == (\E p \in Nodes : Begin(p) \/ Work(p) \/ Own(p) \/ Fail(p)) \/ Publish \/ Again
Fair == \A p \in Nodes : WF_vars(Begin(p)) /\ WF_vars(Work(p)) /\ WF_vars(Own(p))
Spec == Init /\ [][Next]_vars /\ Fair /\ WF_vars(Publish) /\ WF_vars(Again)

Published == \E p \in Nodes : index[p] # 0
\* what is published is all of this run, and there
Complete == (Published /\ AllBegun) => \A p \in Nodes : index[p] = run /\ chunks[p] = run
\* without failures the run ends, with a published dataset
Ends == <>(run = Runs /\ pc[P] = "done" /\ Published)
=============================================================================
