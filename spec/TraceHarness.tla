---------------------------- MODULE TraceHarness ----------------------------
(* Trace validation, shared by all conformance modules.                     *)
(* The specification under test supplies its own transition relation as     *)
(*   InitSt(cfg)    - the abstract state a behaviour starts in              *)
(*   Clause(e, s)   - "ok" iff the specification allows event e in state s, *)
(*                    else the name of the clause that forbids it           *)
(*   Apply(e, s)    - the successor state of an allowed event               *)
(*   InvClause(s)   - "ok" iff the state invariants hold, else a name       *)
(*   Final(s)       - "ok" iff a behaviour may end in s, else a name        *)
(* (the model-checking modules use the very same operators).  Each recorded *)
(* case is replayed event by event; its verdict is total: "ok" or a clause. *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Cases, InitSt(_), Clause(_, _), Apply(_, _), InvClause(_), Final(_)
VARIABLES cs, pos, st, verdict



TInit == /\ cs \in 1..Len(Cases)
         /\ pos = 1
         /\ st = InitSt(Cases[cs].cfg)
         /\ verdict = "run"

Decide(v) == /\ verdict' = v
             /\ PrintT(<<"VERDICT", cs, pos, v>>)
             /\ UNCHANGED <<cs, pos, st>>

TNext == /\ verdict = "run"
         /\ IF InvClause(st) # "ok" THEN Decide(InvClause(st))
            ELSE IF pos > Len(Cases[cs].trace) THEN Decide(Final(st))
            ELSE LET e == Cases[cs].trace[pos]
                     k == Clause(e, st)
                 IN IF k # "ok" THEN Decide(k)
                    ELSE /\ st' = Apply(e, st)
                         /\ pos' = pos + 1
                         /\ UNCHANGED <<cs, verdict>>

TSpec == TInit /\ [][TNext]_<<cs, pos, st, verdict>>
=============================================================================
