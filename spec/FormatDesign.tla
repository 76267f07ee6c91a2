----------------------------- MODULE FormatDesign -----------------------------
(* The binary layout: an item is the sizes of its leaves followed by their     *)
(* bytes; a chunk is the number of its items, their offsets and the items.     *)
(* One format (number and kinds of leaves) is kept for the whole dataset.      *)
(* Kind 1 is of fixed size 1, kind 2 of any size; a blob which doesn't suit a  *)
(* kind is only detected when it is checked.                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxItems, MaxBlob, Check
VARIABLES fmt, stored, given, refused
vars == <<fmt, stored, given, refused>>
Bytes == {0, 1}
Blobs == UNION {[1..n -> Bytes] : n \in 0..MaxBlob}
Leaf == {<<1, b>> : b \in [1..1 -> Bytes]} \cup {<<2, b>> : b \in Blobs}
Values == UNION {[1..n -> Leaf] : n \in 0..2}
Fmt(v) == [x \in 1..Len(v) |-> v[x][1]]
RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Cat(Tail(qs))
Min(a, b) == IF a < b THEN a ELSE b
\* zip(leaves, format)
Zip(v, f) == [x \in 1..Min(Len(v), Len(f)) |-> <<f[x], IF f[x] = 1 /\ v[x][1] = 2 THEN SubSeq(v[x][2] \o <<0>>, 1, 1) ELSE v[x][2]>>]
Encode(v) == [x \in 1..Len(v) |-> Len(v[x][2])] \o Cat([x \in 1..Len(v) |-> v[x][2]])
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Chunk(es) == <<Len(es)>> \o [k \in 1..(Len(es) + 1) |-> Len(es) + 2 + Sum([x \in 1..(k - 1) |-> Len(es[x])])] \o Cat(es)
ItemBytes(ch, i) == SubSeq(ch, ch[i + 1] + 1, ch[i + 2])
Decode(q, f) == [x \in 1..Len(f) |-> <<f[x], LET at == Len(f) + Sum([y \in 1..(x - 1) |-> q[y]]) IN SubSeq(q, at + 1, at + q[x])>>]

Init == fmt = <<0>> /\ stored = <<>> /\ given = <<>> /\ refused = 0
Put(v) == /\ Len(given) < MaxItems
          /\ LET f == IF fmt = <<0>> THEN Fmt(v) ELSE fmt IN
             IF Check /\ Fmt(v) # f THEN refused' = 1 /\ UNCHANGED <<fmt, stored, given>>
             ELSE /\ fmt' = f /\ given' = Append(given, v) /\ stored' = Append(stored, Encode(Zip(v, f))) /\ UNCHANGED refused
Next == \E v \in Values : Put(v)
Spec == Init /\ [][Next]_vars
Faithful == given # <<>> => \A i \in 1..Len(given) : Decode(ItemBytes(Chunk(stored), i), fmt) = given[i]
=============================================================================
