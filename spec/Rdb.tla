-------------------------------- MODULE Rdb --------------------------------
(* The snapshot format, byte by byte: what a file means.  Byte strings are   *)
(* sequences of 0..255; positions count from 1.  A reader says "ok", "err"   *)
(* (the file is damaged here) or "gray" (legal bytes whose meaning is left   *)
(* open).  Lengths beyond every file are represented by Big.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL SX == INSTANCE SequencesExt

Big == 1073741824
Left(b, p) == Len(b) - p + 1
Cut(b, p, n) == SubSeq(b, p, p + n - 1)

\* ------------------------------------------------------------ numbers
LE(b, p, n) ==       \* unsigned, n <= 4 bytes
  CASE n = 1 -> b[p]
    [] n = 2 -> b[p] + 256 * b[p+1]
    [] n = 3 -> b[p] + 256 * b[p+1] + 65536 * b[p+2]
    [] n = 4 -> IF b[p+3] >= 64 THEN Big ELSE b[p] + 256 * b[p+1] + 65536 * b[p+2] + 16777216 * b[p+3]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BE4(b, p) == LE(Rev(Cut(b, p, 4)), 1, 4)

(* decimal digits, least significant first, times 256 plus x *)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, i, c) ==
  IF i > Len(d) THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(d, i, c \div 10))
  ELSE LET x == d[i] * 256 + c IN <<x % 10>> \o MulAdd(d, i + 1, x \div 10)
RECURSIVE Digits(_, _)
Digits(bytes, i) == IF i = 0 THEN <<>> ELSE MulAdd(Digits(bytes, i - 1), 1, bytes[i])   \* bytes: most significant first
RECURSIVE Comp(_, _, _)
Comp(s, i, c) ==  \* two's complement, least significant first
  IF i > Len(s) THEN <<>> ELSE LET x == 255 - s[i] + c IN <<x % 256>> \o Comp(s, i + 1, x \div 256)
Text(s, signed) ==   \* bytes, least significant first -> decimal text
  LET neg == signed /\ s[Len(s)] >= 128
      d == Digits(Rev(IF neg THEN Comp(s, 1, 1) ELSE s), Len(s))
  IN (IF neg THEN <<45>> ELSE <<>>) \o (IF d = <<>> THEN <<48>> ELSE [i \in 1..Len(d) |-> 48 + d[Len(d) + 1 - i]])
SmallText(n) == Text(<<n>>, FALSE)

Bad == [s |-> "err"]
Gray == [s |-> "gray"]
Worse(x) == [s |-> x.s]

\* ------------------------------------------------------------ lengths and strings
Length(b, p) ==
  IF Left(b, p) < 1 THEN Bad
  ELSE LET x == b[p]  ok(v, n) == [s |-> "ok", v |-> v, enc |-> FALSE, next |-> p + n] IN
    CASE x < 64 -> ok(x, 1)
      [] x >= 64 /\ x < 128 -> IF Left(b, p) < 2 THEN Bad ELSE ok((x % 64) * 256 + b[p+1], 2)
      [] x = 128 -> IF Left(b, p) < 5 THEN Bad ELSE ok(BE4(b, p + 1), 5)
      [] x = 129 -> IF Left(b, p) < 9 THEN Bad
                    ELSE ok(IF \E i \in 1..4 : b[p+i] # 0 THEN Big ELSE BE4(b, p + 5), 9)
      [] x > 129 /\ x < 192 -> Bad
      [] x >= 192 -> [s |-> "ok", v |-> x % 64, enc |-> TRUE, next |-> p + 1]
(* a length where a special encoding has no meaning *)
Plain(b, p) == LET l == Length(b, p) IN IF l.s = "ok" /\ l.enc THEN Gray ELSE l

(* Recursion is written as a fold with room for every step: a step that has *)
(* nothing left to do changes nothing.  f(a) is the next accumulator.        *)
Repeat(f(_), n, a) == SX!FoldLeft(LAMBDA x, i : IF x.s = "go" THEN f(x) ELSE x, a, [i \in 1..n |-> i])
Go(p, v) == [s |-> "go", p |-> p, v |-> v]
Halt(x) == [s |-> x.s, p |-> 0, v |-> <<>>]
Done(x) == IF x.s \in {"go", "done"} THEN [s |-> "ok", v |-> x.v, next |-> x.p] ELSE Worse(x)

LzfStep(c, x) ==
  LET i == x.p  out == x.v IN
  IF i > Len(c) THEN [x EXCEPT !.s = "done"]
  ELSE IF c[i] < 32 THEN      \* that many bytes plus one, as they are
    IF Left(c, i + 1) < c[i] + 1 THEN Halt(Bad)
    ELSE Go(i + 2 + c[i], out \o Cut(c, i + 1, c[i] + 1))
  ELSE                        \* a copy of earlier output, which may overlap itself
    LET long == c[i] >= 224
        size == IF long THEN 2 ELSE 1
    IN IF Left(c, i) < size + 1 THEN Halt(Bad)
       ELSE LET n == (IF long THEN 7 + c[i+1] ELSE c[i] \div 32) + 2
                dist == (c[i] % 32) * 256 + c[i+size] + 1
                from == Len(out) - dist
            IN IF from < 0 THEN Halt(Bad)
               ELSE Go(i + size + 1, out \o [k \in 1..n |-> out[from + 1 + ((k - 1) % dist)]])
Lzf(c) == Done(Repeat(LAMBDA x : LzfStep(c, x), Len(c), Go(1, <<>>)))
Unpack(c, n) ==
  IF n = 0 THEN Gray ELSE LET d == Lzf(c) IN IF d.s = "ok" /\ Len(d.v) = n THEN d ELSE Bad

String(b, p) ==
  LET l == Length(b, p)
      ok(v, next) == [s |-> "ok", v |-> v, next |-> next]
      int(n) == IF Left(b, l.next) < n THEN Bad ELSE ok(Text(Cut(b, l.next, n), TRUE), l.next + n)
  IN IF l.s # "ok" THEN Worse(l)
     ELSE IF ~l.enc THEN IF Left(b, l.next) < l.v THEN Bad ELSE ok(Cut(b, l.next, l.v), l.next + l.v)
     ELSE CASE l.v = 0 -> int(1)
            [] l.v = 1 -> int(2)
            [] l.v = 2 -> int(4)
            [] l.v = 3 ->
                 LET n == Plain(b, l.next) IN IF n.s # "ok" THEN Worse(n)
                 ELSE LET m == Plain(b, n.next) IN IF m.s # "ok" THEN Worse(m)
                 ELSE IF Left(b, m.next) < n.v THEN Bad
                 ELSE LET u == Unpack(Cut(b, m.next, n.v), m.v) IN
                      IF u.s # "ok" THEN Worse(u) ELSE ok(u.v, m.next + n.v)
            [] l.v > 3 -> Bad
Strings(b, p, k) ==
  IF k > Left(b, p) THEN Bad      \* every string takes a byte at least
  ELSE Done(Repeat(LAMBDA x : LET y == String(b, x.p) IN IF y.s # "ok" THEN Halt(y) ELSE Go(y.next, Append(x.v, y.v)), k, Go(p, <<>>)))

\* ------------------------------------------------------------ compact encodings
(* What runs past its bytes or has an unknown marker is damaged; headers and *)
(* lengths that merely disagree have no promised meaning.                    *)
ZipEntry(b, p) ==    \* after the length of the previous entry
  IF Left(b, p) < 1 THEN Bad
  ELSE LET x == b[p]
           str(size, n) == IF Left(b, p) < size \/ Left(b, p + size) < n THEN Bad
                           ELSE [s |-> "ok", v |-> Cut(b, p + size, n), next |-> p + size + n]
           int(n) == IF Left(b, p + 1) < n THEN Bad ELSE [s |-> "ok", v |-> Text(Cut(b, p + 1, n), TRUE), next |-> p + 1 + n]
       IN CASE x < 64 -> str(1, x)
            [] x >= 64 /\ x < 128 -> IF Left(b, p) < 2 THEN Bad ELSE str(2, (x % 64) * 256 + b[p+1])
            [] x = 128 -> IF Left(b, p) < 5 THEN Bad ELSE str(5, BE4(b, p + 1))
            [] x = 192 -> int(2)
            [] x = 208 -> int(4)
            [] x = 224 -> int(8)
            [] x = 240 -> int(3)
            [] x = 254 -> int(1)
            [] x >= 241 /\ x <= 253 -> [s |-> "ok", v |-> SmallText(x - 241), next |-> p + 1]
            [] x \in 129..191 -> Gray
            [] OTHER -> Bad
ZipStep(b, x) ==      \* v: the entries; prev: size of the last
  LET p == x.p  go == [x EXCEPT !.s = "gray"]  over == [x EXCEPT !.s = "err"] IN
  IF Left(b, p) < 1 THEN over
  ELSE IF b[p] = 255 THEN IF p = Len(b) THEN [x EXCEPT !.s = "done"] ELSE go
  ELSE LET size == IF b[p] = 254 THEN 5 ELSE 1 IN
       IF Left(b, p) < size THEN over
       ELSE LET l == IF size = 5 THEN LE(b, p + 1, 4) ELSE b[p]
                e == ZipEntry(b, p + size)
            IN IF l # x.prev \/ e.s = "gray" THEN go
               ELSE IF e.s # "ok" THEN over
               ELSE [s |-> "go", p |-> e.next, prev |-> e.next - p, v |-> Append(x.v, e.v)]
ZipList(b) ==
  IF Len(b) < 11 THEN Bad
  ELSE IF (LE(b, 9, 2) < 65535 /\ LE(b, 9, 2) > Len(b)) THEN Gray
  ELSE LET c == LE(b, 9, 2)
           z == Repeat(LAMBDA x : ZipStep(b, x), IF c < 65535 THEN c + 1 ELSE Len(b), [s |-> "go", p |-> 11, prev |-> 0, v |-> <<>>])
       IN
       IF /\ z.s = "done" /\ LE(b, 1, 4) = Len(b)
          /\ LE(b, 5, 4) = (IF z.v = <<>> THEN 10 ELSE z.p - z.prev - 1)
          /\ LE(b, 9, 2) = (IF Len(z.v) >= 65535 THEN 65535 ELSE Len(z.v))
       THEN [s |-> "ok", v |-> z.v] ELSE IF z.s = "err" THEN Bad ELSE Gray
IntSet(b) ==
  IF Len(b) < 8 THEN Bad
  ELSE LET w == LE(b, 1, 4)  n == LE(b, 5, 4) IN
       IF w \notin {2, 4, 8} \/ n > (Len(b) - 8) \div w THEN Bad
       ELSE IF Len(b) # 8 + w * n THEN Gray
       ELSE [s |-> "ok", v |-> [i \in 1..n |-> Text(Cut(b, 9 + (i - 1) * w, w), TRUE)]]
MapLen(b, p) ==
  IF Left(b, p) < 1 THEN Bad
  ELSE IF b[p] < 254 THEN [s |-> "ok", v |-> b[p], next |-> p + 1]
  ELSE IF b[p] = 255 THEN Gray
  ELSE IF Left(b, p) >= 5 THEN [s |-> "ok", v |-> LE(b, p + 1, 4), next |-> p + 5]
  ELSE Bad
MapStep(b, x) ==
  LET p == x.p IN
  IF Left(b, p) < 1 THEN Halt(Bad)
  ELSE IF b[p] = 255 THEN IF p = Len(b) THEN [x EXCEPT !.s = "done"] ELSE Halt(Gray)
  ELSE LET k == MapLen(b, p) IN IF k.s # "ok" THEN Halt(k) ELSE IF Left(b, k.next) < k.v THEN Halt(Bad)
  ELSE LET v == MapLen(b, k.next + k.v) IN
       IF v.s # "ok" THEN Halt(v) ELSE IF Left(b, v.next) < 1 \/ Left(b, v.next + 1) < v.v THEN Halt(Bad)
  ELSE LET free == b[v.next]  at == v.next + 1 IN
       IF Left(b, at + v.v) < free THEN Halt(Bad)
       ELSE Go(at + v.v + free, x.v \o <<Cut(b, k.next, k.v), Cut(b, at, v.v)>>)
ZipMap(b) ==     \* field, value, field, value ...
  IF Len(b) < 2 THEN (IF b = <<>> THEN Bad ELSE Gray)
  ELSE LET m == Repeat(LAMBDA x : MapStep(b, x), IF b[1] < 254 THEN b[1] + 1 ELSE Len(b), Go(2, <<>>)) IN
       IF m.s = "done" /\ (b[1] < 254 => Len(m.v) = 2 * b[1]) /\ (b[1] >= 254 => Len(m.v) >= 508) THEN [s |-> "ok", v |-> m.v]
       ELSE IF m.s = "err" THEN Bad ELSE Gray

\* ------------------------------------------------------------ values
Even(v) == TLCEval([i \in 1..(Len(v) \div 2) |-> v[2 * i]])
Odd(v) == TLCEval([i \in 1..(Len(v) \div 2) |-> v[2 * i - 1]])
Elems(v) == {v[i] : i \in 1..Len(v)}
Distinct(v) == Cardinality(Elems(v)) = Len(v)
NaN == <<0, 0, 0, 0, 0, 0, 248, 127>>
PosInf == <<0, 0, 0, 0, 0, 0, 240, 127>>
NegInf == <<0, 0, 0, 0, 0, 0, 240, 255>>
IsNaN(x) == x[8] % 128 = 127 /\ x[7] >= 240 /\ ~(x[7] = 240 /\ \A i \in 1..6 : x[i] = 0)
(* a score is the eight bytes of a binary double; T lists texts with theirs *)
Score(t, T) == IF \E i \in 1..Len(T) : T[i].t = t
               THEN [s |-> "ok", v |-> T[CHOOSE i \in 1..Len(T) : T[i].t = t].b] ELSE Gray
BinScore(b, p) == IF Left(b, p) < 8 THEN Bad
                  ELSE LET x == Cut(b, p, 8) IN [s |-> "ok", v |-> IF IsNaN(x) THEN NaN ELSE x, next |-> p + 8]
TextScore(b, p, T) ==
  IF Left(b, p) < 1 THEN Bad
  ELSE CASE b[p] = 255 -> [s |-> "ok", v |-> NegInf, next |-> p + 1]
         [] b[p] = 254 -> [s |-> "ok", v |-> PosInf, next |-> p + 1]
         [] b[p] = 253 -> [s |-> "ok", v |-> NaN, next |-> p + 1]
         [] OTHER -> IF Left(b, p + 1) < b[p] THEN Bad
                     ELSE LET x == Score(Cut(b, p + 1, b[p]), T) IN
                          IF x.s = "ok" THEN [s |-> "ok", v |-> x.v, next |-> p + 1 + b[p]] ELSE Gray
Scored(b, p, k, bin, T) ==
  IF k > Left(b, p) THEN Bad
  ELSE Done(Repeat(LAMBDA x :
         LET m == String(b, x.p) IN IF m.s # "ok" THEN Halt(m)
         ELSE LET y == IF bin THEN BinScore(b, m.next) ELSE TextScore(b, m.next, T) IN
              IF y.s # "ok" THEN Halt(y) ELSE Go(y.next, x.v \o <<y.v, m.v>>), k, Go(p, <<>>)))
ScoredPairs(v, T) ==
  Done(Repeat(LAMBDA x : LET y == Score(v[x.p+1], T) IN IF y.s # "ok" THEN Halt(Gray) ELSE Go(x.p + 2, x.v \o <<y.v, v[x.p]>>),
              Len(v) \div 2, Go(1, <<>>)))
Lists(zs) ==
  Done(Repeat(LAMBDA x : LET z == ZipList(zs[x.p]) IN IF z.s # "ok" THEN Halt(z) ELSE Go(x.p + 1, x.v \o z.v), Len(zs), Go(1, <<>>)))

Known == {0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14}
Name(type) == CASE type = 0 -> "set" [] type \in {1, 10, 14} -> "rpush" [] type \in {2, 11} -> "sadd"
                [] type \in {3, 5, 12} -> "zadd" [] type \in {4, 9, 13} -> "hmset"
(* what comes after the key: the arguments of the command that rebuilds it *)
Value(type, b, p, T) ==
  CASE type = 0 -> LET x == String(b, p) IN IF x.s = "ok" THEN [s |-> "ok", v |-> <<x.v>>, next |-> x.next] ELSE x
    [] type \in {1, 2, 3, 4, 5, 14} ->
         LET l == Plain(b, p) IN
         IF l.s # "ok" THEN l
         ELSE IF l.v = 0 THEN Gray
         ELSE (CASE type \in {1, 2} -> Strings(b, l.next, l.v)
                [] type = 4 -> Strings(b, l.next, IF l.v = Big THEN Big ELSE 2 * l.v)
                [] type \in {3, 5} -> Scored(b, l.next, l.v, type = 5, T)
                [] type = 14 -> LET zs == Strings(b, l.next, l.v) IN
                                IF zs.s # "ok" THEN zs
                                ELSE LET v == Lists(zs.v) IN
                                     IF v.s # "ok" THEN v ELSE [s |-> "ok", v |-> v.v, next |-> zs.next])
    [] type \in {9, 10, 11, 12, 13} ->
         LET x == String(b, p) IN
         IF x.s # "ok" THEN x
         ELSE LET d == CASE type = 9 -> ZipMap(x.v) [] type = 11 -> IntSet(x.v) [] OTHER -> ZipList(x.v)
                  v == IF d.s = "ok" /\ type = 12 THEN (IF Len(d.v) % 2 = 1 THEN Gray ELSE ScoredPairs(d.v, T)) ELSE d
              IN IF v.s # "ok" THEN v
                 ELSE IF v.v = <<>> \/ (type = 13 /\ Len(v.v) % 2 = 1) THEN Gray
                 ELSE [s |-> "ok", v |-> v.v, next |-> x.next]
(* members, fields are different *)
Proper(name, v) ==
  CASE name = "sadd" -> Distinct(v) [] name = "hmset" -> Distinct(Odd(v)) [] name = "zadd" -> Distinct(Even(v)) [] OTHER -> TRUE

\* ------------------------------------------------------------ the file
Magic == <<82, 69, 68, 73, 83>>
Signature(b) == IF Len(b) < 9 \/ Cut(b, 1, 5) # Magic THEN "err"
           ELSE IF \A i \in 6..9 : b[i] >= 48 /\ b[i] <= 57 THEN "ok" ELSE "gray"
ReplId == <<114, 101, 112, 108, 45, 105, 100>>
ReplOffset == <<114, 101, 112, 108, 45, 111, 102, 102, 115, 101, 116>>
Number(v) == /\ Len(v) > 0 /\ Len(v) < 19 /\ \A i \in 1..Len(v) : v[i] >= 48 /\ v[i] <= 57
             /\ (Len(v) > 1 => v[1] # 48)

(* one item at p: [k |-> "err"], "gray", "eof", "meta" with its effect, "key" *)
Item(b, p, T) ==
  IF Left(b, p) < 1 THEN [k |-> "err"]
  ELSE LET op == b[p]  q == p + 1
           stop(x) == [k |-> x.s]
           meta(next, what, v) == [k |-> "meta", next |-> next, what |-> what, v |-> v]
       IN
  CASE op = 253 -> IF Left(b, q) < 4 THEN [k |-> "err"]
                   ELSE IF b[q+3] >= 128 THEN [k |-> "gray"]
                   ELSE meta(q + 4, "expire", IF \A i \in 0..3 : b[q+i] = 0 THEN <<48>> ELSE Text(Cut(b, q, 4), FALSE) \o <<48, 48, 48>>)
    [] op = 252 -> IF Left(b, q) < 8 THEN [k |-> "err"]
                   ELSE IF b[q+7] >= 128 THEN [k |-> "gray"]
                   ELSE meta(q + 8, "expire", Text(Cut(b, q, 8), FALSE))
    [] op = 249 -> IF Left(b, q) < 1 THEN [k |-> "err"] ELSE meta(q + 1, "none", <<>>)
    [] op = 248 -> LET l == Plain(b, q) IN IF l.s # "ok" THEN stop(l) ELSE meta(l.next, "none", <<>>)
    [] op = 254 -> LET l == Plain(b, q) IN
                   IF l.s # "ok" THEN stop(l) ELSE IF l.v = Big THEN [k |-> "gray"] ELSE meta(l.next, "db", <<l.v>>)
    [] op = 251 -> LET l == Plain(b, q) IN IF l.s # "ok" THEN stop(l)
                   ELSE LET m == Plain(b, l.next) IN IF m.s # "ok" THEN stop(m) ELSE meta(m.next, "none", <<>>)
    [] op = 250 -> LET n == String(b, q) IN IF n.s # "ok" THEN stop(n)
                   ELSE LET v == String(b, n.next) IN IF v.s # "ok" THEN stop(v)
                   ELSE IF n.v = ReplId THEN meta(v.next, "id", v.v)
                   ELSE IF n.v = ReplOffset THEN (IF Number(v.v) THEN meta(v.next, "offset", v.v) ELSE [k |-> "gray"])
                   ELSE meta(v.next, "none", <<>>)
    [] op = 247 -> \* module data: only an empty one is understood
         LET l == Plain(b, q) IN IF l.s # "ok" THEN stop(l)
         ELSE LET w == Plain(b, l.next) IN IF w.s # "ok" THEN stop(w)
         ELSE IF w.v # 2 THEN [k |-> "err"]
         ELSE LET x == Plain(b, w.next) IN IF x.s # "ok" THEN stop(x)
         ELSE LET y == Plain(b, x.next) IN IF y.s # "ok" THEN stop(y)
         ELSE IF y.v # 0 THEN [k |-> "err"] ELSE meta(y.next, "none", <<>>)
    [] op = 255 -> [k |-> "eof"]
    [] op \in 0..246 ->
         IF op \notin Known THEN [k |-> "err"]
         ELSE LET key == String(b, q) IN IF key.s # "ok" THEN stop(key)
         ELSE LET v == Value(op, b, key.next, T) IN
              IF v.s # "ok" THEN stop(v)
              ELSE IF ~Proper(Name(op), v.v) THEN [k |-> "gray"]
              ELSE [k |-> "key", next |-> v.next, key |-> key.v, name |-> Name(op), v |-> v.v]

Zero == [db |-> 0, exp |-> <<>>, id |-> <<>>, off |-> <<48>>]
Meta(st, it) ==
  CASE it.what = "expire" -> [st EXCEPT !.exp = it.v]
    [] it.what = "db" -> [st EXCEPT !.db = it.v[1]]
    [] it.what = "id" -> [st EXCEPT !.id = it.v]
    [] it.what = "offset" -> [st EXCEPT !.off = it.v]
    [] it.what = "none" -> st
(* the commands a key is delivered as *)
Commands(st, it) ==
  <<[d |-> st.db, n |-> it.name, a |-> <<it.key>> \o it.v]>> \o
  (IF st.exp = <<>> THEN <<>> ELSE <<[d |-> st.db, n |-> "pexpireat", a |-> <<it.key, st.exp>>]>>)
(* the whole file *)
RECURSIVE Run(_, _, _, _, _)
Run(b, p, st, T, acc) ==
  LET it == Item(b, p, T) IN
  CASE it.k = "meta" -> Run(b, it.next, Meta(st, it), T, acc)
    [] it.k = "key" -> Run(b, it.next, [st EXCEPT !.exp = <<>>], T, acc \o Commands(st, it))
    [] OTHER -> [k |-> it.k, st |-> st, m |-> acc]
Load(b, T) == LET h == Signature(b) IN IF h # "ok" THEN [k |-> h, st |-> Zero, m |-> <<>>] ELSE Run(b, 10, Zero, T, <<>>)

(* a recorded command says the same as one expected: order matters in lists only *)
Pairs(v) == {<<v[2 * i - 1], v[2 * i]>> : i \in 1..(Len(v) \div 2)}
SameValue(n, x, y) ==
  CASE n \in {"set", "rpush", "pexpireat"} -> x = y
    [] n = "sadd" -> Len(x) = Len(y) /\ Elems(x) = Elems(y)
    [] n \in {"hmset", "zadd"} -> Len(x) = Len(y) /\ Pairs(x) = Pairs(y)
============================================================================
