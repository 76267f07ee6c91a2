---------------------------- MODULE CombinedDesign ----------------------------
(* The sampler of one worker of a combined dataset, and how its position is     *)
(* rebuilt from nothing but the number of samples taken from each dataset.      *)
(* The random generator is a fixed but arbitrary sequence of numbers; a draw    *)
(* maps the next number to one of the datasets that are left.                   *)
(*                                                                              *)
(* Replay = "exact": replays the draws, seeing from the counts which of them    *)
(* hit an exhausted dataset.  "old": replays one draw per sample, all datasets  *)
(* being left (the code before its repair).                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS D, MaxLen, Draws, U, BatchSize, Replay
VARIABLES len, us, all, per, st, out
vars == <<len, us, all, per, st, out>>

Sets == 1..D
Fresh == [alive |-> Sets, cnt |-> [d \in Sets |-> 0], pos |-> 0, cur |-> 0, i |-> 1, over |-> FALSE]

\* the d-th of the datasets left
RECURSIVE Nth(_, _)
Nth(S, k) == LET m == CHOOSE x \in S : \A y \in S : x <= y IN IF k = 0 THEN m ELSE Nth(S \ {m}, k - 1)
Pick(i, S) == Nth(S, us[i] % Cardinality(S))

\* which dataset the next sample is asked from: <<dataset, state>>
Ask(s) == IF ~per THEN <<Pick(s.i, s.alive), [s EXCEPT !.i = @ + 1]>>
          ELSE LET t == IF s.pos >= BatchSize THEN [s EXCEPT !.pos = 0, !.cur = 0] ELSE s IN
               IF t.cur # 0 THEN <<t.cur, t>> ELSE LET d == Pick(t.i, t.alive) IN <<d, [t EXCEPT !.i = @ + 1, !.cur = d]>>
Remove(s, d) == [s EXCEPT !.alive = @ \ {d}, !.cur = 0]
Take(s, d) == [s EXCEPT !.cnt[d] = @ + 1, !.pos = @ + 1]

\* one call of next(): <<dataset (0: stop), state>>
RECURSIVE Step(_)
Step(s) ==
  IF s.over THEN <<0, s>>
  ELSE IF all
    THEN IF Cardinality(s.alive) = 1
           THEN LET d == Nth(s.alive, 0) IN IF s.cnt[d] < len[d] THEN <<d, Take(s, d)>> ELSE <<0, [s EXCEPT !.over = TRUE]>>
           ELSE LET a == Ask(s) IN IF a[2].cnt[a[1]] < len[a[1]] THEN <<a[1], Take(a[2], a[1])>> ELSE Step(Remove(a[2], a[1]))
    ELSE LET a == Ask(s) IN IF a[2].cnt[a[1]] < len[a[1]] THEN <<a[1], Take(a[2], a[1])>> ELSE <<0, [a[2] EXCEPT !.over = TRUE]>>

SumOf(f) == LET RECURSIVE S(_)
                S(k) == IF k = 0 THEN 0 ELSE f[k] + S(k - 1)
            IN S(D)

\* rebuilding a position from the counts
RECURSIVE Re(_, _)
Re(s, target) ==
  IF SumOf(s.cnt) = SumOf(target) THEN s
  ELSE IF Replay = "old" THEN (LET a == Ask(s) IN Re([a[2] EXCEPT !.cnt[1] = @ + 1], target))
  ELSE IF all /\ Cardinality(s.alive) = 1 THEN [s EXCEPT !.cnt = target]
  ELSE LET a == Ask(s) IN IF s.cnt[a[1]] < target[a[1]] THEN Re(Take(a[2], a[1]), target) ELSE Re(Remove(a[2], a[1]), target)
Rebuilt(target) == [Re(Fresh, target) EXCEPT !.cnt = target]

Init == /\ len \in [Sets -> 0..MaxLen] /\ us \in [1..Draws -> 0..(U - 1)]
        /\ all \in BOOLEAN /\ per \in BOOLEAN /\ st = Fresh /\ out = <<>>
\* enough numbers for this run
Enough(s) == s.i + D + 1 <= Draws
Next == /\ ~st.over /\ Enough(st)
        /\ LET r == Step(st) IN st' = r[2] /\ out' = (IF r[1] = 0 THEN out ELSE Append(out, r[1]))
        /\ UNCHANGED <<len, us, all, per>>
Spec == Init /\ [][Next]_vars

\* iterating over all: every sample exactly once
Complete == (st.over /\ all) => \A d \in Sets : st.cnt[d] = len[d]
\* by weights: it stops because a dataset is exhausted
Stopped == (st.over /\ ~all) => \E d \in Sets : st.cnt[d] = len[d]
\* every batch of BatchSize samples is from one dataset, unless one was exhausted in it
Exhausted(n) == {d \in Sets : Cardinality({k \in 1..n : out[k] = d}) = len[d]}
PerStream == per =>
   \A k \in 2..Len(out) : ((k - 1) % BatchSize # 0 /\ out[k] # out[k - 1]) => out[k - 1] \in Exhausted(k - 1)
\* a rebuilt position goes on as the original
Resumes == (~st.over /\ Enough(st)) => Step(Rebuilt(st.cnt))[1] = Step(st)[1]
=============================================================================
