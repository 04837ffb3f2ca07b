------------------------------ MODULE CodecEx ------------------------------
(* Writers of the compact encodings: lists, sets and maps of few elements    *)
(* with every class of encoding, and compressed strings built operation by   *)
(* operation.  Reading them back (Rdb) must give what was written.           *)
EXTENDS Rdb, Json
CONSTANTS Max, Emit
Ex == INSTANCE RdbEx WITH MaxItems <- 0, Rich <- FALSE, items <- <<>>
A(s) == Ex!A(s)
Entries == {Ex!ZStr(v, f) : v \in {<<>>, A("ab")}, f \in {6, 14, 32}} \cup {Ex!ZStr([i \in 1..63 |-> i + 190], 6)} \cup
           {Ex!ZInt(n, 0) : n \in {0, 1, 11, 12}} \cup {Ex!ZInt(n, 1) : n \in {13, 127, -128, -1}} \cup
           {Ex!ZInt(n, 2) : n \in {128, 32767, -32768, -129}} \cup {Ex!ZInt(n, 3) : n \in {32768, 8388607, -8388608, -32769, -1}} \cup
           {Ex!ZInt(n, 4) : n \in {8388608, 2147483647, -2147483647, -8388609}} \cup {Ex!ZInt(n, 8) : n \in {2147483647, -2147483647, -1, 5}} \cup
           {[v |-> A("9223372036854775807"), e |-> <<224, 255, 255, 255, 255, 255, 255, 255, 127>>],
            [v |-> A("-9223372036854775808"), e |-> <<224, 0, 0, 0, 0, 0, 0, 0, 128>>],
            [v |-> A("-2147483648"), e |-> <<208, 0, 0, 0, 128>>]}
Ints(w) == {0, 1, -1, 127, -128} \cup (IF w >= 4 THEN {32768, -32769, 2147483647, -2147483647} ELSE {32767, -32768})
Words == {<<>>, A("a"), <<255>>, <<254, 0>>, <<0>>}
(* operations of a compressed string: literals, copies *)
Ops == {<<n>> : n \in 0..2} \cup {<<n, d>> : n \in {3, 4, 8, 9, 20, 264}, d \in {1, 2, 3, 5}}
Lit(n, k) == [i \in 1..(n + 1) |-> (37 * k + 11 * i) % 256]
RECURSIVE Pack(_, _, _)
Pack(ops, i, r) ==     \* r: the bytes, the plain string
  IF i > Len(ops) THEN r
  ELSE LET o == ops[i] IN
       IF Len(o) = 1 THEN Pack(ops, i + 1, [b |-> r.b \o <<o[1]>> \o Lit(o[1], i), v |-> r.v \o Lit(o[1], i)])
       ELSE LET d == IF o[2] > Len(r.v) THEN Len(r.v) ELSE o[2]
                hi == (d - 1) \div 256  lo == (d - 1) % 256
                code == IF o[1] <= 8 THEN <<(o[1] - 2) * 32 + hi, lo>> ELSE <<224 + hi, o[1] - 9, lo>>
                RECURSIVE Copy(_, _)
                Copy(v, n) == IF n = 0 THEN v ELSE Copy(Append(v, v[Len(v) + 1 - d]), n - 1)
            IN Pack(ops, i + 1, [b |-> r.b \o code, v |-> Copy(r.v, o[1])])

VARIABLES kind, es, opt
vars == <<kind, es, opt>>
Init == /\ es = <<>>
        /\ \/ kind = "ziplist" /\ opt \in {0, 1}
           \/ kind = "intset" /\ opt \in {2, 4, 8}
           \/ kind = "zipmap" /\ opt \in {0, 1, 2, 3}
           \/ kind = "lzf" /\ opt = 0
Add(x) == es' = Append(es, x) /\ UNCHANGED <<kind, opt>>
Next == /\ Len(es) < (IF kind = "ziplist" THEN Max ELSE Max + 1)
        /\ CASE kind = "ziplist" -> \E x \in Entries : Add(x)
             [] kind = "intset" -> \E x \in Ints(opt) : Add(x)
             [] kind = "zipmap" -> \E f, v \in Words : (\A i \in 1..Len(es) : es[i][1] # f) /\ Add(<<f, v>>)
             [] kind = "lzf" -> \E o \in Ops : (es = <<>> => Len(o) = 1) /\ Add(o)
Spec == Init /\ [][Next]_vars

FlatPairs == Ex!Flat(es, 1)
Packed == Pack(es, 1, [b |-> <<>>, v |-> <<>>])
Written == CASE kind = "ziplist" -> Ex!WZip(es, opt = 1)
             [] kind = "intset" -> Ex!WSet(es, opt)
             [] kind = "zipmap" -> Ex!WMap(FlatPairs, opt % 2 = 1, opt)
             [] kind = "lzf" -> Packed.b
Meant == CASE kind = "ziplist" -> Ex!Vals(es)
           [] kind = "intset" -> [i \in 1..Len(es) |-> Ex!N(es[i])]
           [] kind = "zipmap" -> FlatPairs
           [] kind = "lzf" -> Packed.v
Read == CASE kind = "ziplist" -> ZipList(Written) [] kind = "intset" -> IntSet(Written) [] kind = "zipmap" -> ZipMap(Written)
          [] kind = "lzf" -> IF es = <<>> THEN [s |-> "ok", v |-> <<>>] ELSE Unpack(Written, Len(Meant))
Faithful == Read.s = "ok" /\ Read.v = Meant
Printed == Emit /\ (kind # "lzf" \/ es # <<>>) => PrintT(ToJson([kind |-> kind, b |-> Written, n |-> Len(Meant)]))
============================================================================
