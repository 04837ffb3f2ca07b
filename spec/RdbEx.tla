------------------------------- MODULE RdbEx -------------------------------
(* A server writes a snapshot item by item, choosing among the encodings the *)
(* format allows.  What it means is known from what was to be saved; reading *)
(* it back (Rdb) must give the same, and every file is printed to be loaded  *)
(* by the real code.                                                         *)
EXTENDS Rdb, Json
CONSTANTS MaxItems,   \* items of a file
          Rich,       \* the large set of items
          Emit
Ascii == [c \in {"a", "b", "k", "m", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-", "."} |->
            CASE c = "a" -> 97 [] c = "b" -> 98 [] c = "k" -> 107 [] c = "m" -> 109 [] c = "-" -> 45 [] c = "." -> 46
              [] c = "0" -> 48 [] c = "1" -> 49 [] c = "2" -> 50 [] c = "3" -> 51 [] c = "4" -> 52
              [] c = "5" -> 53 [] c = "6" -> 54 [] c = "7" -> 55 [] c = "8" -> 56 [] c = "9" -> 57]
A(s) == [i \in 1..Len(s) |-> Ascii[SubSeq(s, i, i)]]
N(n) == A(ToString(n))        \* a number as text

RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

\* ------------------------------------------------------------ writing
Bytes(n, w) ==    \* least significant first, two's complement
  LET m == IF n >= 0 THEN n ELSE 0 - n - 1
      x(i) == CASE i = 1 -> m % 256 [] i = 2 -> (m \div 256) % 256 [] i = 3 -> (m \div 65536) % 256 [] i = 4 -> m \div 16777216 [] OTHER -> 0
  IN [i \in 1..w |-> IF n >= 0 THEN x(i) ELSE 255 - x(i)]
WLen(n, form) ==
  CASE form = 6 -> <<n>>
    [] form = 14 -> <<64 + n \div 256, n % 256>>
    [] form = 32 -> <<128>> \o Rev(Bytes(n, 4))
    [] form = 64 -> <<129>> \o Rev(Bytes(n, 8))
WStr(v, form) == WLen(Len(v), form) \o v
WInt(n, w) == <<CASE w = 1 -> 192 [] w = 2 -> 193 [] w = 4 -> 194>> \o Bytes(n, w)
WLzf(c, n, form) == <<195>> \o WLen(Len(c), form) \o WLen(n, form) \o c
S(v) == WStr(v, 6)

(* compact lists: entries are [v, e]: a string and its encoding *)
ZStr(v, form) == [v |-> v, e |-> (CASE form = 6 -> <<Len(v)>> [] form = 14 -> <<64, Len(v)>> [] form = 32 -> <<128, 0, 0, 0, Len(v)>>) \o v]
ZInt(n, w) == [v |-> N(n), e |-> CASE w = 0 -> <<241 + n>>
                                  [] w = 1 -> <<254>> \o Bytes(n, 1) [] w = 2 -> <<192>> \o Bytes(n, 2) [] w = 3 -> <<240>> \o Bytes(n, 3)
                                  [] w = 4 -> <<208>> \o Bytes(n, 4) [] w = 8 -> <<224>> \o Bytes(n, 8)]
RECURSIVE ZBody(_, _, _, _, _)
ZBody(es, i, prev, long, acc) ==     \* acc: the bytes so far, prev: length of the entry before
  IF i > Len(es) THEN [b |-> acc, last |-> prev]
  ELSE LET e == (IF long THEN <<254>> \o Bytes(prev, 4) ELSE <<prev>>) \o es[i].e
       IN ZBody(es, i + 1, Len(e), long, acc \o e)
WZip(es, long) ==
  LET z == ZBody(es, 1, 0, long, <<>>)  n == Len(z.b) + 11
  IN Bytes(n, 4) \o Bytes(IF es = <<>> THEN 10 ELSE n - 1 - z.last, 4) \o Bytes(Len(es), 2) \o z.b \o <<255>>
Vals(es) == [i \in 1..Len(es) |-> es[i].v]
WSet(ns, w) == Bytes(w, 4) \o Bytes(Len(ns), 4) \o Flat([i \in 1..Len(ns) |-> Bytes(ns[i], w)], 1)
ML(n, long) == IF long THEN <<254>> \o Bytes(n, 4) ELSE <<n>>
WMap(kv, long, free) ==   \* field, value, field, value
  <<Len(kv) \div 2>> \o Flat([i \in 1..(Len(kv) \div 2) |->
     ML(Len(kv[2*i-1]), long) \o kv[2*i-1] \o ML(Len(kv[2*i]), long) \o <<free>> \o kv[2*i] \o [k \in 1..free |-> 0]], 1) \o <<255>>

\* ------------------------------------------------------------ what can be saved
a == A("a")
K == A("k")
One == <<0, 0, 0, 0, 0, 0, 240, 63>>
MinusTwoAndAHalf == <<0, 0, 0, 0, 0, 0, 4, 192>>
Scores == <<[t |-> A("1"), b |-> One], [t |-> A("-2.5"), b |-> MinusTwoAndAHalf]>>

Key(type, v, args) == [e |-> <<type>> \o S(K) \o v, k |-> "key", n |-> Name(type), a |-> <<K>> \o args]
KeyAs(keybytes, key) == [e |-> <<0>> \o keybytes \o S(a), k |-> "key", n |-> "set", a |-> <<key, a>>]
Str(v, enc) == Key(0, enc, <<v>>)
M(e, what, v) == [e |-> e, k |-> "meta", what |-> what, v |-> v]

Sizes == IF Rich THEN {6, 14, 32, 64} ELSE {6, 64}
Strs == {Str(v, WStr(v, f)) : v \in {<<>>, a, <<0, 255, 13, 10>>}, f \in Sizes} \cup
        {Str(N(n), WInt(n, 1)) : n \in {0, 1, -1, 127, -128}} \cup
        {Str(N(n), WInt(n, 2)) : n \in {0, 128, -129, 32767, -32768}} \cup
        {Str(N(n), WInt(n, 4)) : n \in {0, 32768, -32769, 2147483647, -2147483647, 16909060}} \cup
        {Str(A("ab"), WLzf(<<1, 97, 98>>, 2, f)) : f \in Sizes} \cup
        {Str(A("aaaaaaa"), WLzf(<<0, 97, 128, 0>>, 7, 6)),
         Str(A("abababab"), WLzf(<<1, 97, 98, 128, 1>>, 8, 6)),
         Str(A("ababaaaaaaaaaa"), WLzf(<<1, 97, 98, 32, 1, 224, 0, 0>>, 14, 6))} \cup
        {KeyAs(WInt(12, 1), A("12")), KeyAs(WInt(-300, 2), A("-300")), KeyAs(S(<<>>), <<>>), KeyAs(WLzf(<<0, 97, 64, 0>>, 5, 6), A("aaaaa"))}
Lens == IF Rich THEN {6, 14, 32, 64} ELSE {6}
Colls == {Key(1, WLen(2, f) \o S(a) \o WInt(5, 1), <<a, N(5)>>) : f \in Lens} \cup
         {Key(1, WLen(2, 6) \o S(a) \o S(a), <<a, a>>), Key(2, WLen(1, 6) \o S(<<>>), <<(<<>>)>>)} \cup
         {Key(2, WLen(2, f) \o S(A("m")) \o S(a), <<A("m"), a>>) : f \in Lens} \cup
         {Key(4, WLen(2, f) \o S(a) \o S(A("b")) \o S(A("m")) \o WInt(-7, 1), <<a, A("b"), A("m"), N(-7)>>) : f \in Lens} \cup
         {Key(5, WLen(2, f) \o S(a) \o One \o S(A("m")) \o PosInf, <<One, a, PosInf, A("m")>>) : f \in Lens} \cup
         {Key(3, WLen(3, 6) \o S(a) \o <<4>> \o A("-2.5") \o S(A("m")) \o <<255>> \o S(A("b")) \o <<253>>, <<MinusTwoAndAHalf, a, NegInf, A("m"), NaN, A("b")>>),
          Key(3, WLen(1, 6) \o S(a) \o <<254>>, <<PosInf, a>>),
          Key(5, WLen(1, 6) \o S(a) \o NegInf, <<NegInf, a>>),
          Key(14, WLen(1, 6) \o S(WZip(<<ZStr(a, 6), ZInt(3, 0)>>, FALSE)), <<a, N(3)>>),
          Key(14, WLen(2, 6) \o S(WZip(<<ZInt(-1, 1)>>, FALSE)) \o WStr(WZip(<<ZStr(A("b"), 14), ZInt(300, 2)>>, FALSE), 14), <<N(-1), A("b"), N(300)>>),
          Key(10, S(WZip(<<ZStr(a, 6), ZStr(<<>>, 6), ZInt(70000, 3)>>, FALSE)), <<a, <<>>, N(70000)>>),
          Key(11, S(WSet(<<-3, 7>>, 2)), <<N(-3), N(7)>>), Key(11, S(WSet(<<-70000, 7>>, 4)), <<N(-70000), N(7)>>), Key(11, S(WSet(<<-1, 7>>, 8)), <<N(-1), N(7)>>),
          Key(12, S(WZip(<<ZStr(a, 6), ZInt(1, 0), ZStr(A("m"), 6), ZStr(A("-2.5"), 6)>>, FALSE)), <<One, a, MinusTwoAndAHalf, A("m")>>),
          Key(13, S(WZip(<<ZStr(a, 6), ZInt(12, 0), ZInt(1000, 2), ZStr(A("m"), 6)>>, TRUE)), <<a, N(12), N(1000), A("m")>>),
          Key(9, S(WMap(<<a, A("b"), A("m"), <<>>>>, FALSE, 0)), <<a, A("b"), A("m"), <<>>>>),
          Key(9, S(WMap(<<a, A("b")>>, TRUE, 3)), <<a, A("b")>>)}
Metas == {M(<<250>> \o S(A("m")) \o S(A("5")), "none", <<>>), M(<<250>> \o S(ReplId) \o S(A("b")), "id", A("b")),
          M(<<250>> \o S(ReplOffset) \o WInt(77, 1), "offset", A("77")), M(<<250>> \o S(ReplOffset) \o S(A("123456789012")), "offset", A("123456789012")),
          M(<<254, 0>>, "db", <<0>>), M(<<254, 3>>, "db", <<3>>), M(<<254>> \o WLen(5, 32), "db", <<5>>), M(<<251, 1, 0>>, "none", <<>>), M(<<251>> \o WLen(1000, 14) \o WLen(1, 32), "none", <<>>),
          M(<<249, 255>>, "none", <<>>), M(<<248>> \o WLen(300, 14), "none", <<>>), M(<<247, 9, 2, 2, 0>>, "none", <<>>),
          M(<<253>> \o Bytes(1700000000, 4), "expire", A("1700000000000")), M(<<252>> \o Bytes(1, 8), "expire", A("1")),
          M(<<252, 0, 0, 100, 167, 179, 182, 224, 13>>, "expire", A("1000000000000000000")), M(<<252, 1, 104, 229, 207, 139, 1, 0, 0>>, "expire", A("1700000000001"))}
(* damage: nothing after it is read *)
D(e) == [e |-> e, k |-> "err"]
Damage == {D(<<6, 1, 107>>), D(<<7, 1, 107, 1>>), D(<<8>>), D(<<15, 1, 107>>), D(<<100, 1, 107, 1, 97>>), D(<<246>>),
           D(<<0, 130>>), D(<<0, 1, 107, 191>>), D(<<0, 196, 1, 2>>), D(<<0, 1, 107, 255, 1, 2>>), D(<<1, 1, 107, 131, 1, 97>>), D(<<2, 1, 107, 1, 198>>),
           D(<<4, 1, 107, 1, 1, 97, 150>>), D(<<14, 1, 107, 1, 200>>), D(<<11, 1, 107, 240>>), D(<<254, 140>>), D(<<251, 1, 160>>), D(<<250, 1, 97, 204>>),
           D(<<0, 1, 107, 195, 3, 5, 1, 97, 98>>), D(<<0, 1, 107, 195, 2, 2, 32, 5>>), D(<<0, 1, 107, 195, 3, 9, 0, 97, 224>>),
           D(<<0, 1, 107, 129, 0, 0, 0, 1, 0, 0, 0, 0>>), D(<<3, 1, 107, 1, 1, 97, 40, 49>>), D(<<247, 1, 1, 1, 0>>), D(<<247, 1, 2, 1, 5>>)}

Some == IF Rich THEN Strs \cup Colls \cup Metas \cup Damage
        ELSE {Str(a, S(a)), Str(N(-1), WInt(-1, 1)), Str(A("aaaaaaa"), WLzf(<<0, 97, 128, 0>>, 7, 6)),
              Key(1, WLen(2, 6) \o S(a) \o WInt(5, 1), <<a, N(5)>>), Key(2, WLen(1, 6) \o S(a), <<a>>),
              Key(4, WLen(1, 6) \o S(a) \o S(A("b")), <<a, A("b")>>), Key(5, WLen(1, 6) \o S(a) \o One, <<One, a>>),
              Key(14, WLen(1, 6) \o S(WZip(<<ZStr(a, 6), ZInt(3, 0)>>, FALSE)), <<a, N(3)>>),
              Key(11, S(WSet(<<-3, 7>>, 2)), <<N(-3), N(7)>>),
              Key(13, S(WZip(<<ZStr(a, 6), ZInt(12, 0)>>, FALSE)), <<a, N(12)>>),
              M(<<254, 3>>, "db", <<3>>), M(<<253>> \o Bytes(1700000000, 4), "expire", A("1700000000000")), M(<<252>> \o Bytes(5, 8), "expire", A("5")),
              M(<<248, 5>>, "none", <<>>), M(<<249, 5>>, "none", <<>>), M(<<251, 1, 0>>, "none", <<>>), M(<<250>> \o S(ReplOffset) \o WInt(77, 1), "offset", A("77")),
              D(<<15, 1, 107>>), D(<<0, 1, 107, 191>>)}

VARIABLES items
Init == items = <<>>
Next == /\ Len(items) < MaxItems
        /\ IF items = <<>> THEN TRUE ELSE items[Len(items)].k # "err"
        /\ \E x \in Some : items' = Append(items, x)
Spec == Init /\ [][Next]_items

Header == Magic \o <<48, 48, 48, 57>>
Sum == <<1, 2, 3, 4, 5, 6, 7, 8>>
File == Header \o Flat([i \in 1..Len(items) |-> items[i].e], 1) \o <<255>> \o Sum
(* what was saved *)
RECURSIVE Saved(_, _, _)
Saved(i, st, acc) ==
  IF i > Len(items) THEN [k |-> "eof", st |-> st, m |-> acc]
  ELSE LET x == items[i] IN
       CASE x.k = "err" -> [k |-> "err", st |-> st, m |-> acc]
         [] x.k = "meta" -> Saved(i + 1, Meta(st, x), acc)
         [] x.k = "key" -> Saved(i + 1, [st EXCEPT !.exp = <<>>],
              acc \o <<[d |-> st.db, n |-> x.n, a |-> x.a]>> \o
              (IF st.exp = <<>> THEN <<>> ELSE <<[d |-> st.db, n |-> "pexpireat", a |-> <<x.a[1], st.exp>>]>>))
Faithful == Load(File, Scores) = Saved(1, Zero, <<>>)
(* no shorter file is mistaken for a whole one, and it gives a prefix *)
Prefixes == LET w == Saved(1, Zero, <<>>) IN
            \A n \in 0..(Len(File) - 9) :
              LET x == Load(SubSeq(File, 1, n), Scores) IN
              /\ x.k = "err" /\ Len(x.m) <= Len(w.m) /\ x.m = SubSeq(w.m, 1, Len(x.m))
Printed == Emit => PrintT(ToJson([b |-> File, n |-> Len(items), k |-> Saved(1, Zero, <<>>).k]))
===========================================================================
