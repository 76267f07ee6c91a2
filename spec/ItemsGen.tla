------------------------------- MODULE ItemsGen -------------------------------
(* Random sequences of values: structures, types and contents; replayed in the *)
(* real writers and readers.  The numbers choose concrete contents.            *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES conf, puts, ph, tmpl
vars == <<conf, puts, ph, tmpl>>

\* structure |-> number of leaves
Specs == {<<"*", 1>>, <<"D:a", 1>>, <<"D:a,b", 2>>, <<"D:b,a", 2>>, <<"D:a,c", 2>>, <<"L2", 2>>, <<"T2", 2>>, <<"L3", 3>>, <<"D:a[2],b", 3>>,
          <<"D:a,b{2}", 3>>, <<"L*[2]", 3>>, <<"O:a,b", 2>>, <<"D:1,2", 2>>, <<"D:", 0>>, <<"L0", 0>>, <<"D:a[0],b", 1>>}
Kinds == {"str", "str", "int", "int", "float", "float", "bool", "bytes", "none", "complex", "npscalar", "nd0",
          "nd1:int32", "nd1:float64", "nd1:bool", "nd1:uint16", "nd1:complex64", "nd2:int32", "nd2:float32", "nd3:uint8", "ndF:int64", "ndS:float32",
          "nd1:>i4", "t0", "t1:int64", "t1:float32", "t1:bool", "t1:float16", "t2:float32", "t3:uint8", "tS:int64", "t2:bool",
          "pil:RGB", "pil:L", "pil:I", "pil:P", "pil:1", "pil:RGBA", "pil:F", "set", "date"}
Init == /\ conf = [comp |-> "none", enc |-> "none", limit |-> 1, bytes |-> FALSE, via |-> "cache"]
        /\ puts = <<>> /\ ph = "conf" /\ tmpl = [spec |-> "*", kinds |-> <<>>, n |-> 0]
Conf == /\ ph = "conf" /\ ph' = "spec" /\ UNCHANGED <<puts, tmpl>>
        /\ \E c \in {"none", "none", "zstd"}, e \in {"none", "none", "fsample", "fchunk", "rsa"}, l \in 1..3, b \in BOOLEAN, v \in 1..6 :
             conf' = [comp |-> c, enc |-> e, limit |-> l, bytes |-> b, via |-> IF v = 6 THEN "optimize" ELSE "cache"]
Spec1 == /\ ph = "spec" /\ ph' = "kinds" /\ UNCHANGED <<conf, puts>>
         /\ \E s \in Specs : tmpl' = [spec |-> s[1], n |-> s[2], kinds |-> <<>>]
Kind1 == /\ ph = "kinds" /\ Len(tmpl.kinds) < tmpl.n /\ UNCHANGED <<conf, puts, ph>>
         /\ \E k \in Kinds : tmpl' = [tmpl EXCEPT !.kinds = Append(@, k)]
KindsDone == /\ ph = "kinds" /\ Len(tmpl.kinds) = tmpl.n /\ ph' = "put" /\ UNCHANGED <<conf, puts, tmpl>>
Put(sp, ks) == puts' = Append(puts, [spec |-> sp, kinds |-> ks, v |-> <<>>])
Next1 == /\ ph = "put" /\ UNCHANGED <<conf, tmpl>>
         /\ \E w \in 1..9 :
              IF w = 9 /\ Len(puts) > 0 THEN ph' = "done0" /\ UNCHANGED puts
              ELSE ph' = (IF w = 1 /\ Len(puts) > 0 THEN "leaf" ELSE IF w = 2 /\ Len(puts) > 0 THEN "other" ELSE "vals")
                   /\ Put(tmpl.spec, tmpl.kinds)
\* one leaf of another type
Leaf == /\ ph = "leaf" /\ ph' = "vals" /\ UNCHANGED <<conf, tmpl>>
        /\ IF tmpl.n = 0 THEN UNCHANGED puts
           ELSE \E x \in 1..tmpl.n, k \in Kinds : puts' = [puts EXCEPT ![Len(puts)].kinds[x] = k]
\* another structure, leaves of the same types as far as possible
Other == /\ ph = "other" /\ ph' = "vals" /\ UNCHANGED <<conf, tmpl>>
         /\ \E s \in Specs :
              puts' = [puts EXCEPT ![Len(puts)] = [spec |-> s[1], v |-> <<>>,
                         kinds |-> [x \in 1..s[2] |-> IF x <= tmpl.n THEN tmpl.kinds[x] ELSE "int"]]]
Last == puts[Len(puts)]
Vals == /\ ph = "vals" /\ UNCHANGED <<conf, tmpl>>
        /\ IF Len(Last.v) = Len(Last.kinds) THEN ph' = (IF Len(puts) = 6 THEN "done0" ELSE "put") /\ UNCHANGED puts
           ELSE \E v \in 0..11 : puts' = [puts EXCEPT ![Len(puts)].v = Append(@, v)] /\ UNCHANGED ph
Finish == /\ ph = "done0" /\ ph' = "done" /\ UNCHANGED <<conf, puts, tmpl>>
          /\ PrintT(<<"GEN", ToJson([conf |-> conf, puts |-> puts])>>)
Next == Conf \/ Spec1 \/ Kind1 \/ KindsDone \/ Next1 \/ Leaf \/ Other \/ Vals \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
