------------------------------- MODULE RunDesign -------------------------------
(* How the main process of optimize / map learns the fate of its workers.      *)
(*                                                                             *)
(* Workers process their items and either finish (report the final count),     *)
(* fail (report the error) or die at any point without a word.  Reports travel *)
(* through an error queue and a progress queue.  The main process polls the    *)
(* error queue, then the progress queue; when both are empty it compares the   *)
(* workers which are gone and incomplete with those of its previous round.     *)
(* LostCheck: the comparison takes place.  TwoRounds: a worker has to be lost  *)
(* in two consecutive rounds.  Worker 1 has K1 items (a resumed worker may     *)
(* have none left).  AllReport: success needs a report of every worker.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS W, K, K1, LostCheck, TwoRounds, AllReport
VARIABLES done, alive, errq, progq, tracker, main, pc, seen, died, fin
vars == <<done, alive, errq, progq, tracker, main, pc, seen, died, fin>>
Workers == 1..W
Items(w) == IF w = 1 THEN K1 ELSE K
Total == (W - 1) * K + K1

Init == /\ done = [w \in Workers |-> 0] /\ alive = [w \in Workers |-> TRUE] /\ errq = <<>> /\ progq = <<>>
        /\ tracker = [w \in Workers |-> K + 1]     \* K+1: nothing heard
        /\ main = "polling" /\ pc = "err" /\ seen = {} /\ died = FALSE /\ fin = {}

Work(w) == /\ alive[w] /\ done[w] < Items(w) /\ done' = [done EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<alive, errq, progq, tracker, main, pc, seen, died, fin>>
\* intermediate report
Tell(w) == /\ alive[w] /\ done[w] < Items(w) /\ Len(progq) < 2 /\ progq' = Append(progq, <<w, done[w]>>)
           /\ UNCHANGED <<done, alive, errq, tracker, main, pc, seen, died, fin>>
Finish(w) == /\ alive[w] /\ done[w] = Items(w) /\ progq' = Append(progq, <<w, Items(w)>>) /\ alive' = [alive EXCEPT ![w] = FALSE]
             /\ fin' = fin \cup {w} /\ UNCHANGED <<done, errq, tracker, main, pc, seen, died>>
FailW(w) == /\ alive[w] /\ errq' = Append(errq, w) /\ alive' = [alive EXCEPT ![w] = FALSE] /\ died' = TRUE
            /\ UNCHANGED <<done, progq, tracker, main, pc, seen, fin>>
Die(w) == /\ alive[w] /\ alive' = [alive EXCEPT ![w] = FALSE] /\ died' = TRUE
          /\ UNCHANGED <<done, errq, progq, tracker, main, pc, seen, fin>>

Count(w) == IF tracker[w] = K + 1 THEN 0 ELSE tracker[w]
RECURSIVE SumC(_)
SumC(S) == IF S = {} THEN 0 ELSE LET w == CHOOSE x \in S : TRUE IN Count(w) + SumC(S \ {w})
Lost == {w \in Workers : ~alive[w] /\ tracker[w] # Items(w)}

PollErr == /\ main = "polling" /\ pc = "err"
           /\ IF errq # <<>> THEN main' = "error" /\ pc' = "end" ELSE pc' = "prog" /\ UNCHANGED main
           /\ UNCHANGED <<done, alive, errq, progq, tracker, seen, died, fin>>
PollProg == /\ main = "polling" /\ pc = "prog" /\ progq # <<>>
            /\ tracker' = [tracker EXCEPT ![Head(progq)[1]] = Head(progq)[2]] /\ progq' = Tail(progq)
            /\ pc' = "sum" /\ UNCHANGED <<done, alive, errq, main, seen, died, fin>>
Sum == /\ main = "polling" /\ pc = "sum"
       /\ IF SumC(Workers) = Total /\ (AllReport => \A w \in Workers : tracker[w] # K + 1) THEN main' = "ok" /\ pc' = "end" ELSE pc' = "err" /\ UNCHANGED main
       /\ UNCHANGED <<done, alive, errq, progq, tracker, seen, died, fin>>
Empty == /\ main = "polling" /\ pc = "prog" /\ progq = <<>> /\ pc' = IF LostCheck THEN "lost" ELSE "err"
         /\ UNCHANGED <<done, alive, errq, progq, tracker, main, seen, died, fin>>
LostStep == /\ main = "polling" /\ pc = "lost"
            /\ IF (IF TwoRounds THEN Lost \cap seen # {} ELSE Lost # {}) THEN main' = "error" /\ pc' = "end"
               ELSE pc' = "err" /\ UNCHANGED main
            /\ seen' = Lost
            /\ UNCHANGED <<done, alive, errq, progq, tracker, died, fin>>
Main == PollErr \/ PollProg \/ Sum \/ Empty \/ LostStep
Worker(w) == Work(w) \/ Finish(w)
Next == Main \/ (\E w \in Workers : Work(w) \/ Tell(w) \/ Finish(w) \/ FailW(w) \/ Die(w))
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ (\A w \in Workers : WF_vars(Worker(w)))

\* success is only announced when every item of every worker is processed, failure only when something failed
OkIsComplete == main = "ok" => \A w \in Workers : w \in fin /\ done[w] = Items(w)
ErrorIsReal == main = "error" => died
Ends == <>(main # "polling")
=============================================================================
