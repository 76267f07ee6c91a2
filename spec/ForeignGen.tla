------------------------------- MODULE ForeignGen -------------------------------
(* Random foreign datasets (files, row groups, columns), views and accesses.    *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES conf, files, ops, ph
vars == <<conf, files, ops, ph>>
Cols == {"int", "float", "str", "bytes", "bool", "list", "struct", "time", "date", "u64", "i8", "f32", "cat", "dec"}
MCols == {"int", "str", "bytes", "pil", "jpeg"}
Init == /\ conf = [kind |-> "parquet", comp |-> "none", cols |-> <<>>, names |-> 1, via |-> "local", low |-> TRUE, pre |-> FALSE, cache |-> 0,
                   sub |-> FALSE, shuffle |-> FALSE, workers |-> 0, bs |-> 1, dirname |-> 0, limit |-> 1]
        /\ files = <<>> /\ ops = <<>> /\ ph = "kind"
Kind == /\ ph = "kind" /\ ph' = "cols" /\ UNCHANGED <<files, ops>>
        /\ \E w \in 1..10, n \in 1..3, d \in 0..3 :
             conf' = [conf EXCEPT !.kind = IF w > 7 THEN "mds" ELSE "parquet", !.names = n, !.dirname = d]
Col == /\ ph = "cols" /\ UNCHANGED <<files, ops>>
       /\ \E c \in (IF conf.kind = "mds" THEN MCols ELSE Cols), w \in 1..3 :
            conf' = [conf EXCEPT !.cols = Append(@, c)] /\ ph' = (IF w = 1 \/ Len(conf.cols) = 2 THEN "conf" ELSE "cols")
Conf == /\ ph = "conf" /\ ph' = "view" /\ UNCHANGED <<files, ops>>
        /\ \E c \in 0..5, l \in 1..3 : conf' = [conf EXCEPT !.comp = <<"none", "none", "zstd", "zstd", "zstd:7", "none">>[c + 1], !.limit = l]
View == /\ ph = "view" /\ ph' = "view2" /\ UNCHANGED <<files, ops>>
        /\ \E v \in 1..7, lo \in BOOLEAN, p \in BOOLEAN :
             conf' = [conf EXCEPT !.via = <<"local", "local", "remote", "remote", "small", "wildcard", "index">>[v], !.low = lo, !.pre = p]
View2 == /\ ph = "view2" /\ ph' = "files" /\ UNCHANGED <<files, ops>>
         /\ \E s \in 1..5, h \in 1..4, w \in 0..4, b \in 1..3 :
              conf' = [conf EXCEPT !.sub = (s = 1), !.shuffle = (h = 1), !.workers = IF w < 3 THEN 0 ELSE w - 2, !.bs = b]
File == /\ ph = "files" /\ UNCHANGED <<conf, ops>>
        /\ \E w \in 1..4 : IF (w = 1 /\ Len(files) > 0) \/ Len(files) = 4 THEN ph' = "ops" /\ UNCHANGED files
                           ELSE ph' = "groups" /\ files' = Append(files, <<>>)
Group == /\ ph = "groups" /\ UNCHANGED <<conf, ops>>
         /\ \E w \in 1..4, n \in 0..9 :
              LET g == IF n = 9 THEN (IF w = 4 THEN 0 ELSE 3) ELSE (n % 4) + 1 IN
              /\ files' = [files EXCEPT ![Len(files)] = Append(@, g)]
              /\ ph' = IF w = 1 \/ Len(files[Len(files)]) = 3 THEN "files" ELSE "groups"
Op == /\ ph = "ops" /\ UNCHANGED <<conf, files>>
      /\ \E w \in 1..8, i \in 0..30 :
           IF (w = 1 /\ Len(ops) > 1) \/ Len(ops) = 12 THEN ph' = "fin" /\ UNCHANGED ops
           ELSE UNCHANGED ph /\ ops' = Append(ops, [op |-> <<"pass", "pass", "loader", "get", "get", "get", IF i < 15 THEN "pickle" ELSE "get", IF i < 10 THEN "split" ELSE "get">>[w], i |-> i])
Fin == /\ ph = "fin" /\ ph' = "done" /\ UNCHANGED <<conf, files, ops>>
       /\ PrintT(<<"GEN", ToJson([conf |-> conf, files |-> files, ops |-> ops])>>)
Next == Kind \/ Col \/ Conf \/ View \/ View2 \/ File \/ Group \/ Op \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
