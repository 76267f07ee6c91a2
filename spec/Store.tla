-------------------------------- MODULE Store --------------------------------
(* Writing datasets: optimize (modes none / append / overwrite, checkpoints),  *)
(* merge_datasets, failures and crashes, over a set of directories.  A run     *)
(* turns a sequence of inputs, each giving zero or more items, into a dataset. *)
(* A directory holds one of a set of possible contents: after a crash several  *)
(* are possible, the next observation settles which.                           *)
(*                                                                             *)
(* Events:                                                                     *)
(*  run(dir, mode, out, ordered, fmt, size, bytes, at, ckpt, args)  a run begins  *)
(*  call(x)  the user function is applied to input x                           *)
(*  fault    a copy fails (planned)                                            *)
(*  ok / fail / crash / hang           how the run ended                       *)
(*  merge(srcs, dir, ok)               merge_datasets                          *)
(*  index(dir, chunks), noindex(dir)   what index.json and the files say       *)
(*  read(dir, items), noread(dir)      what StreamingDataset delivers          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

On(c, grp) == \E k \in 1..Len(c.enforce) : c.enforce[k] = grp

Absent == [there |-> FALSE, segs |-> <<>>, fmt |-> "", size |-> 0, bytes |-> 0]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Range(q) == {q[k] : k \in 1..Len(q)}

NoRun == [on |-> FALSE]

InitSt(c) == [cfg |-> c, dirs |-> [d \in Range(c.dirs) |-> {Absent}], run |-> NoRun, ck |-> [d \in Range(c.dirs) |-> NoRun]]

\* ---- contents ------------------------------------------------------------
NewSeg(r) == [items |-> Flat(r.out), ordered |-> r.ordered]
NewContent(r) == [there |-> TRUE, segs |-> <<NewSeg(r)>>, fmt |-> r.fmt, size |-> r.size, bytes |-> r.bytes]
Appended(c, r) == IF ~c.there THEN NewContent(r) ELSE [c EXCEPT !.segs = Append(@, NewSeg(r))]
Items(c) == Flat([k \in 1..Len(c.segs) |-> c.segs[k].items])

\* the sequence q is the content segs: segment by segment, in order or as a bag
RECURSIVE Matches(_, _)
Matches(q, segs) ==
  IF segs = <<>> THEN q = <<>>
  ELSE LET n == Len(Head(segs).items)
           a == SubSeq(q, 1, n)
           it == Head(segs).items
       IN /\ Len(q) >= n
          /\ IF Head(segs).ordered THEN a = it ELSE Range(a) = Range(it)        \* the items of a history are distinct
          /\ Matches(SubSeq(q, n + 1, Len(q)), Tail(segs))
RECURSIVE MatchesBag(_, _)
MatchesBag(q, segs) ==
  LET its == Flat([k \in 1..Len(segs) |-> segs[k].items]) IN Len(q) = Len(its) /\ Range(q) = Range(its)

\* the run is bound to fail once input `at` is processed or a copy has failed
Fails(r) == r.at \in r.called \/ r.fault

\* ---- when may a run succeed ----------------------------------------------
MayOk(s, r) == \E c \in s.dirs[r.dir] :
  /\ r.mode = "none" => ~c.there
  /\ (r.mode = "append" /\ c.there) => c.fmt = r.fmt
MayFail(s, r) == \/ Fails(r)
                 \/ \E c \in s.dirs[r.dir] : \/ r.mode = "none" /\ c.there
                                             \/ r.mode = "append" /\ c.there /\ c.fmt # r.fmt
                 \/ Flat(r.out) = <<>>         \* nothing at all to write: either way
                 \/ r.ckpt /\ s.ck[r.dir].on /\ s.ck[r.dir].args # r.args    \* checkpoints of another run
Resuming(s, r) == r.ckpt /\ s.ck[r.dir].on /\ s.ck[r.dir].out = r.out
AllCalled(r) == \A x \in 1..Len(r.out) : x \in r.called

MergeOk(s, e) == /\ \A k \in 1..Len(e.srcs) : \E c \in s.dirs[e.srcs[k]] : c.there
                 /\ \E c \in s.dirs[e.dir] : ~c.there
                 /\ \E f \in {c.fmt : c \in UNION {s.dirs[e.srcs[k]] : k \in 1..Len(e.srcs)}} : TRUE
\* every source certainly has items (a dataset without any may be refused)
MergeHas(s, e) == \A k \in 1..Len(e.srcs) : \A c \in s.dirs[e.srcs[k]] : Items(c) # <<>>
Pick(S) == CHOOSE c \in S : TRUE
MergeKinds(s, e) == {Pick(s.dirs[e.srcs[k]]).fmt : k \in 1..Len(e.srcs)}
Merged(s, e) == [there |-> TRUE, segs |-> Flat([k \in 1..Len(e.srcs) |-> Pick(s.dirs[e.srcs[k]]).segs]),
                 fmt |-> Pick(s.dirs[e.srcs[1]]).fmt, size |-> 0, bytes |-> 0]    \* chunks of sources with other limits

ChunkClause(s, e) ==
  LET c == Pick(s.dirs[e.dir])
      ch == e.chunks IN
  IF \E k \in 1..Len(ch) : ~ch[k].there THEN "chunk_file_missing"
  ELSE IF \E j, k \in 1..Len(ch) : j < k /\ ch[j].name = ch[k].name THEN "chunk_listed_twice"
  ELSE IF \E k \in 1..Len(ch) : ch[k].n # ch[k].hdr THEN "chunk_count_wrong"
  ELSE IF \E k \in 1..Len(ch) : ch[k].raw # ch[k].bytes THEN "chunk_bytes_wrong"
  ELSE IF \E k \in 1..Len(ch) : ch[k].n = 0 THEN "empty_chunk"
  ELSE IF \E k \in 1..Len(ch) : c.size > 0 /\ ch[k].n > c.size THEN "chunk_too_many_items"
  ELSE IF \E k \in 1..Len(ch) : c.bytes > 0 /\ ch[k].n > 1 /\ ch[k].data > c.bytes THEN "chunk_too_many_bytes"
  ELSE IF c.there /\ Sum([k \in 1..Len(ch) |-> ch[k].n]) # Len(Items(c)) THEN "index_count_wrong"
  ELSE "ok"

Clause(e, s) ==
  LET c == s.cfg  r == s.run IN
  CASE e.ev = "run" -> IF r.on THEN "protocol" ELSE "ok"
    [] e.ev = "call" -> IF ~r.on THEN "protocol"
                        ELSE IF ~On(c, "calls") THEN "ok"
                        ELSE IF e.x \notin 1..Len(r.out) THEN "input_unknown_or_altered"
                        ELSE IF e.x \in r.called THEN "input_processed_twice"
                        ELSE "ok"
    [] e.ev = "ok" -> IF ~r.on THEN "protocol"
                      ELSE IF Fails(r) /\ On(c, "failure") THEN "failure_not_reported"
                      ELSE IF ~MayOk(s, r) /\ On(c, "lifecycle") THEN "run_must_be_refused"
                      ELSE IF ~Fails(r) /\ MayOk(s, r) /\ ~AllCalled(r) /\ ~Resuming(s, r) /\ On(c, "calls") THEN "input_not_processed"
                      ELSE "ok"
    [] e.ev = "fail" -> IF ~r.on THEN "protocol"
                        ELSE IF ~MayFail(s, r) THEN "run_failed_without_reason" ELSE "ok"
    [] e.ev = "fault" -> IF ~r.on THEN "protocol" ELSE "ok"
    [] e.ev = "crash" -> IF ~r.on THEN "protocol" ELSE "ok"
    [] e.ev = "hang" -> IF On(c, "failure") \/ ~Fails(r) THEN "run_never_ends" ELSE "ok"
    [] e.ev = "merge" -> IF e.ok /\ ~MergeOk(s, e) THEN "merge_must_be_refused"
                         ELSE IF e.ok /\ Cardinality(MergeKinds(s, e)) > 1 /\ e.kinds > 1 THEN "merge_must_be_refused"
                         ELSE IF ~e.ok /\ MergeOk(s, e) /\ e.kinds = 1 /\ MergeHas(s, e) THEN "merge_failed_without_reason"
                         ELSE "ok"
    [] e.ev = "index" -> IF (\A x \in s.dirs[e.dir] : ~x.there)
                            THEN (IF On(c, "lifecycle") \/ On(c, "failure") THEN "dataset_published_wrongly" ELSE "ok")
                         ELSE IF On(c, "chunks") /\ Cardinality(s.dirs[e.dir]) = 1 THEN ChunkClause(s, e)
                         ELSE "ok"
    [] e.ev = "noindex" -> IF (\A x \in s.dirs[e.dir] : x.there) THEN "dataset_lost" ELSE "ok"
    [] e.ev = "read" -> IF \E x \in s.dirs[e.dir] : x.there /\ Matches(e.items, x.segs) THEN "ok"
                        ELSE IF \E x \in s.dirs[e.dir] : x.there /\ MatchesBag(e.items, x.segs)
                          THEN (IF On(c, "order") THEN "wrong_order" ELSE "ok")
                        ELSE IF On(c, "content") THEN "wrong_content" ELSE "ok"
    [] e.ev = "noread" -> IF (\A x \in s.dirs[e.dir] : x.there /\ Items(x) # <<>>) THEN "dataset_unreadable" ELSE "ok"
    [] e.ev = "error" -> "unexpected_error"
    [] OTHER -> "unknown_event"

Apply(e, s) ==
  LET r == s.run IN
  CASE e.ev = "run" -> [s EXCEPT !.run = [on |-> TRUE, dir |-> e.dir, mode |-> e.mode, out |-> e.out, ordered |-> e.ordered,
                                          fmt |-> e.fmt, size |-> e.size, bytes |-> e.bytes, at |-> e.at,
                                          ckpt |-> e.ckpt, args |-> e.args, called |-> {}, fault |-> FALSE]]
    [] e.ev = "fault" -> [s EXCEPT !.run.fault = TRUE]
    [] e.ev = "call" -> [s EXCEPT !.run.called = @ \cup {e.x}]
    [] e.ev = "ok" ->
         [s EXCEPT !.run = NoRun, !.ck[r.dir] = NoRun,
            !.dirs[r.dir] = LET may == {y \in @ : (r.mode = "none" => ~y.there)}
                                from == IF may = {} THEN @ ELSE may
                                new == {IF r.mode = "append" THEN Appended(x, r) ELSE NewContent(r) : x \in from}
                            IN IF Flat(r.out) # <<>> THEN new
                               ELSE new \cup (IF r.mode = "append" THEN from ELSE {Absent})]   \* nothing written at all
    [] e.ev = "fail" ->
         [s EXCEPT !.run = NoRun,
            !.ck[r.dir] = IF r.ckpt THEN r ELSE @,
            !.dirs[r.dir] = IF r.mode = "overwrite" THEN @ \cup {Absent} ELSE @]
    [] e.ev = "crash" ->
         [s EXCEPT !.run = NoRun,
            !.ck[r.dir] = IF r.ckpt THEN r ELSE @,
            !.dirs[r.dir] = IF r.mode = "append" THEN @ \cup {Appended(x, r) : x \in @}
                            ELSE IF r.mode = "overwrite" THEN @ \cup {Absent, NewContent(r)}
                            ELSE @ \cup {NewContent(r)}]
    [] e.ev = "merge" -> IF e.ok THEN [s EXCEPT !.dirs[e.dir] = {Merged(s, e)}] ELSE s
    [] e.ev = "index" -> [s EXCEPT !.dirs[e.dir] = {x \in @ : x.there}]
    [] e.ev = "noindex" -> [s EXCEPT !.dirs[e.dir] = {x \in @ : ~x.there}]
    [] e.ev = "read" -> [s EXCEPT !.dirs[e.dir] = LET m == {x \in @ : x.there /\ Matches(e.items, x.segs)}
                                                  IN IF m = {} THEN {x \in @ : x.there} ELSE m]
    [] OTHER -> s

InvClause(s) == IF \E d \in DOMAIN s.dirs : s.dirs[d] = {} THEN "no_possible_content" ELSE "ok"
Final(s) == IF s.run.on THEN "run_not_ended" ELSE "ok"
=============================================================================
