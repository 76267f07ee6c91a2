-------------------------------- MODULE Loader --------------------------------
(* The iteration / checkpoint / resume protocol of StreamingDataLoader (one    *)
(* process).  A fresh loader delivers epoch 1, 2, ... ; state_dict may be       *)
(* taken between any two batches; load_state_dict puts a loader back to that    *)
(* point.                                                                       *)
(*                                                                              *)
(* Events: new, start, batch(b), end, leave (iteration abandoned), save(slot),  *)
(* load(slot), len(n), error.                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

On(c, grp) == \E k \in 1..Len(c.enforce) : c.enforce[k] = grp

InitSt(c) == [cfg |-> c,
              made |-> FALSE, live |-> FALSE, begun |-> FALSE,
              epoch |-> 0,          \* last epoch started by the current loader
              k |-> 0,              \* batches delivered in it
              resumed |-> FALSE,
              fin |-> TRUE,         \* that epoch was delivered completely (or there is none)
              pend |-> FALSE,       \* a state has been loaded and not been used yet
              ref |-> <<>>,         \* ref[e] = the batches of epoch e, once seen completely from the start
              cur |-> <<>>,         \* the batches delivered since the start of an epoch, if not resumed
              slots |-> <<>>]       \* saved positions

Known(s, e) == e \in 1..Len(s.ref)
\* the epoch and position at which the next iteration begins
StartAt(s) == IF s.pend /\ s.k > 0 /\ ~s.fin THEN <<s.epoch, s.k>> ELSE <<s.epoch + 1, 0>>

\* iter() takes effect with the first batch that is asked for
Begin(s) == IF s.begun THEN s
            ELSE [s EXCEPT !.begun = TRUE, !.epoch = StartAt(s)[1], !.k = StartAt(s)[2], !.resumed = StartAt(s)[2] > 0,
                           !.pend = FALSE, !.cur = <<>>, !.fin = FALSE]

Clause(e, s0) ==
  LET c == s0.cfg
      s == IF e.ev \in {"batch", "end"} THEN Begin(s0) ELSE s0 IN
  CASE e.ev = "new" -> "ok"
    [] e.ev = "start" -> IF s.made /\ ~s.live THEN "ok" ELSE "protocol"
    [] e.ev = "batch" ->
         IF ~s.live THEN "protocol"
         ELSE IF ~Known(s, s.epoch) THEN "ok"
         ELSE IF s.k >= Len(s.ref[s.epoch])
                THEN (IF s.resumed THEN (IF On(c, "resume") THEN "resume_too_many" ELSE "ok")
                                   ELSE (IF On(c, "reiterate") THEN "iteration_too_many" ELSE "ok"))
         ELSE IF s.ref[s.epoch][s.k + 1] # e.b
                THEN (IF s.resumed THEN (IF On(c, "resume") THEN "resume_wrong_batch" ELSE "ok")
                                   ELSE (IF On(c, "reiterate") THEN "iteration_wrong_batch" ELSE "ok"))
         ELSE "ok"
    [] e.ev = "end" ->
         IF ~s.live THEN "protocol"
         ELSE IF Known(s, s.epoch) /\ s.k < Len(s.ref[s.epoch])
                THEN (IF s.resumed THEN (IF On(c, "resume") THEN "resume_too_few" ELSE "ok")
                                   ELSE (IF On(c, "reiterate") THEN "iteration_too_few" ELSE "ok"))
         ELSE "ok"
    [] e.ev = "leave" -> IF s.live THEN "ok" ELSE "protocol"
    [] e.ev = "save" -> IF s.made /\ e.slot = Len(s.slots) + 1 THEN "ok" ELSE "protocol"
    [] e.ev = "load" -> IF s.made /\ e.slot \in 1..Len(s.slots) THEN "ok" ELSE "protocol"
    [] e.ev = "len" -> IF On(c, "len") /\ Known(s, 1) /\ \E x \in 1..Len(s.ref) : Len(s.ref[x]) # e.n
                       THEN "len_mismatch" ELSE "ok"
    [] e.ev = "error" -> "unexpected_error"
    [] OTHER -> "unknown_event"

Apply(e, s0) ==
  LET s == IF e.ev \in {"batch", "end"} THEN Begin(s0) ELSE s0 IN
  CASE e.ev = "new" -> [s EXCEPT !.made = TRUE, !.live = FALSE, !.epoch = 0, !.k = 0, !.resumed = FALSE, !.fin = TRUE,
                                 !.pend = FALSE, !.cur = <<>>]
    [] e.ev = "start" -> [s EXCEPT !.live = TRUE, !.begun = FALSE]
    [] e.ev = "batch" -> LET k2 == s.k + 1 IN
                         [s EXCEPT !.k = k2, !.cur = Append(@, e.b),
                                   \* with the last batch the epoch is complete, also before the loader says so
                                   !.fin = s.ref # <<>> /\ k2 = Len(s.ref[1])]    \* all epochs are equally long
    [] e.ev = "end" -> [s EXCEPT !.live = FALSE, !.fin = TRUE,
                                 !.ref = IF ~s.resumed /\ Len(s.ref) + 1 = s.epoch THEN Append(@, s.cur) ELSE @]
    [] e.ev = "leave" -> [s EXCEPT !.live = FALSE]
    [] e.ev = "save" -> [s EXCEPT !.slots = Append(@, [epoch |-> s.epoch, k |-> s.k, fin |-> s.fin])]
    [] e.ev = "load" -> [s EXCEPT !.live = FALSE, !.epoch = s.slots[e.slot].epoch, !.k = s.slots[e.slot].k,
                                  !.fin = s.slots[e.slot].fin, !.pend = TRUE]
    [] OTHER -> s

InvClause(s) == "ok"
Final(s) == "ok"
=============================================================================
