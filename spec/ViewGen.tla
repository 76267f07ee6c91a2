-------------------------------- MODULE ViewGen --------------------------------
(* Random histories of operations on views, replayed in the real code.          *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MinOps, MaxOps, Storages, Kinds
VARIABLES base, ops, ph
NONE == 999
\* sizes of the chunks, how the dataset is stored
Init == base = [sizes |-> <<>>, store |-> "raw"] /\ ops = <<>> /\ ph = "sizes"
Sizes == /\ ph = "sizes"
         /\ \/ \E k \in 1..5 : Len(base.sizes) < 6 /\ base' = [base EXCEPT !.sizes = Append(@, k)] /\ ph' = ph
            \/ base.sizes # <<>> /\ (\E st \in Storages : base' = [base EXCEPT !.store = st]) /\ ph' = "open"
         /\ UNCHANGED ops
Fracs == {<<1, 1>>, <<19, 20>>, <<97, 100>>, <<21, 20>>, <<101, 100>>, <<1, 3>>, <<2, 3>>, <<3, 1>>, <<1, 20>>, <<1, 2>>, <<3, 10>>, <<1, 4>>, <<3, 2>>, <<2, 1>>, <<9, 10>>, <<23, 10>>, <<1, 10>>, <<7, 10>>}
Open == /\ ph = "open"
        /\ \E f \in Fracs, sh \in BOOLEAN, sd \in {42, 7}, tw \in BOOLEAN :
             ops' = Append(ops, [op |-> "open", num |-> f[1], den |-> f[2], shuf |-> sh, seed |-> sd, twin |-> tw])
        /\ ph' = "run" /\ UNCHANGED base
\* fractions have denominators 2, 4, 5, 8, 10
Lists == {<< <<1, 2>>, <<1, 2>> >>, << <<4, 5>>, <<1, 5>> >>, << <<1, 4>>, <<1, 4>>, <<1, 2>> >>, << <<7, 10>>, <<2, 10>>, <<1, 10>> >>,
          << <<1, 10>>, <<9, 10>> >>, << <<1, 1>> >>, << <<3, 10>> >>, << <<3, 8>>, <<0, 1>>, <<5, 8>> >>, << <<9, 10>>, <<1, 5>> >>,
          << <<1, 10>>, <<2, 10>>, <<3, 10>>, <<4, 10>> >>, << <<1, 5>>, <<1, 5>>, <<1, 5>>, <<1, 5>>, <<1, 5>> >>}
Split == /\ ph = "split" /\ ph' = "run"
         /\ \E h \in 1..6, fr \in Lists, sd \in {42, 7}, tw \in BOOLEAN :
              ops' = Append(ops, [op |-> "split", h |-> h, fr |-> fr, seed |-> sd, twin |-> tw])
         /\ UNCHANGED base
Get == /\ ph = "get" /\ ph' = "run"
       /\ \E h \in 1..6, i \in {-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 18, 22, 27} :
            ops' = Append(ops, [op |-> "get", h |-> h, i |-> i])
       /\ UNCHANGED base
Slice == /\ ph = "slice" /\ ph' = "run"
         /\ \E h \in 1..6, a \in {NONE, 0, 1, 3, 5, 9, -1, -4, -12}, b \in {NONE, 0, 2, 4, 7, 12, 40, -1, -3}, c \in {NONE, 1, 2, 3, -1, -2} :
              ops' = Append(ops, [op |-> "slice", h |-> h, a |-> a, b |-> b, c |-> c])
         /\ UNCHANGED base
Iter == /\ ph = "iter" /\ ph' = "run"
        /\ \E h \in 1..6, k \in {0, 1, 2, 4, 7, NONE, NONE, NONE} : ops' = Append(ops, [op |-> "iter", h |-> h, k |-> k])
        /\ UNCHANGED base
LenOp == /\ ph = "len" /\ ph' = "run"
         /\ \E h \in 1..6 : ops' = Append(ops, [op |-> "len", h |-> h])
         /\ UNCHANGED base
Share == /\ ph = "streams" /\ ph' = "run"
         /\ \E h \in 1..6, r \in 1..3, w \in 1..3, b \in 1..3, d \in BOOLEAN :
              ops' = Append(ops, [op |-> "streams", h |-> h, r |-> r, w |-> w, b |-> b, drop |-> d])
         /\ UNCHANGED base
Finish == /\ ph = "run" /\ Len(ops) >= MinOps /\ ph' = "done"
          /\ PrintT(<<"GEN", ToJson([base |-> base, ops |-> ops])>>) /\ UNCHANGED <<base, ops>>
\* first the kind of operation, then its parameters: every kind is equally likely
Choose == /\ ph = "run" /\ Len(ops) < MaxOps
          /\ \E k \in Kinds : ph' = k
          /\ UNCHANGED <<base, ops>>
Next == Choose \/ Sizes \/ Open \/ Split \/ Get \/ Slice \/ Iter \/ LenOp \/ Share \/ Finish
Spec == Init /\ [][Next]_<<base, ops, ph>>
=============================================================================
