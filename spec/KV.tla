-------------------------------- MODULE KV --------------------------------
(* The sequential meaning of the cache.                                     *)
(*                                                                          *)
(* A cache state is a function from the keys that are physically present to *)
(* entries.  An entry is a string or a hash (a function from field to       *)
(* value) with the time it has left:                                        *)
(*    x = 0   no deadline                                                   *)
(*    x > 0   expires in x units of time                                    *)
(*    x = -1  expired, not collected yet                                    *)
(* Expired entries stay in the state on purpose: the implementation also    *)
(* collects them lazily, and keeping them makes TLC visit every command     *)
(* with an uncollected expired key as its target.  No command may see one.  *)
(*                                                                          *)
(* Apply(s, c) is the whole semantics: the state after command c and its    *)
(* result [e |-> error class, v |-> value].  Error classes: "" none, "nil"  *)
(* key or field absent, "type" wrong kind of value, "err" any other error.  *)
(*                                                                          *)
(* Deliberate deviations of the implementation from Redis, modelled as they *)
(* are: MSetNX is per key and returns a count; a time to live <= 0 means no *)
(* deadline; SetRange with an empty string still pads; HIncrBy treats an    *)
(* empty field value as 0; MGet reports a hash as a wrong-type error.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num


StrE(v, x)  == [t |-> "str", v |-> v, x |-> x]
HashE(f, x) == [t |-> "hash", f |-> f, x |-> x]
EmptyFn == [k \in {} |-> ""]

Vis(s, k) == k \in DOMAIN s /\ s[k].x # -1
IsStr(s, k)  == Vis(s, k) /\ s[k].t = "str"
IsHash(s, k) == Vis(s, k) /\ s[k].t = "hash"
Put(s, k, e) == (k :> e) @@ s
Rem(s, k) == [j \in DOMAIN s \ {k} |-> s[j]]
(* what is left of a deadline when a key is modified in place *)
X(s, k) == IF Vis(s, k) THEN s[k].x ELSE 0

(* all commands see exactly this *)
View(s) == [k \in {j \in DOMAIN s : Vis(s, j)} |-> s[k]]

Res(e, v) == [e |-> e, v |-> v]
OkV(v) == Res("", v)
R(s, e, v) == [s |-> s, r |-> Res(e, v)]
B2N(b) == IF b THEN 1 ELSE 0
Ttl(n) == IF n > 0 THEN n ELSE 0

(* ---------------------------- strings ---------------------------------- *)
SetS(s, c) == R(Put(s, c.k, StrE(c.v, 0)), "", "OK")
SetNXS(s, c) == IF Vis(s, c.k) THEN R(s, "", 0) ELSE R(Put(s, c.k, StrE(c.v, 0)), "", 1)
SetTtlS(s, c) == R(Put(s, c.k, StrE(c.v, Ttl(c.n))), "", "OK")
GetS(s, c) == IF ~Vis(s, c.k) THEN R(s, "nil", "")
              ELSE IF ~IsStr(s, c.k) THEN R(s, "type", "")
              ELSE R(s, "", s[c.k].v)
GetSetS(s, c) == IF IsHash(s, c.k) THEN R(s, "type", "")
                 ELSE [s |-> Put(s, c.k, StrE(c.v, 0)), r |-> GetS(s, c).r]
StrLenS(s, c) == IF ~Vis(s, c.k) THEN R(s, "", 0)
                 ELSE IF ~IsStr(s, c.k) THEN R(s, "type", 0)
                 ELSE R(s, "", Len(s[c.k].v))
Cur(s, k) == IF Vis(s, k) THEN s[k].v ELSE ""
AppendS(s, c) == IF IsHash(s, c.k) THEN R(s, "type", 0)
                 ELSE LET v == Cur(s, c.k) \o c.v
                      IN R(Put(s, c.k, StrE(v, X(s, c.k))), "", Len(v))
(* the zero byte can not be written in TLA+ *)
NUL == JsonDeserialize("nul.json")[1]
RECURSIVE Nuls(_)
Nuls(n) == IF n <= 0 THEN "" ELSE IF n % 2 = 1 THEN NUL \o Nuls(n - 1) ELSE LET h == Nuls(n \div 2) IN h \o h
Overlay(old, p, v) ==
  LET padded == old \o Nuls(p - Len(old))
  IN SubSeq(padded, 1, p) \o v \o
     (IF p + Len(v) < Len(padded) THEN SubSeq(padded, p + Len(v) + 1, Len(padded)) ELSE "")
(* a string is never longer than 512MB *)
SetRangeS(s, c) == IF c.n < 0 \/ c.n > 536870912 - Len(c.v) THEN R(s, "err", 0)
                   ELSE IF IsHash(s, c.k) THEN R(s, "type", 0)
                   ELSE LET v == Overlay(Cur(s, c.k), c.n, c.v)
                        IN R(Put(s, c.k, StrE(v, X(s, c.k))), "", Len(v))
Slice(v, i, j) ==
  LET a0 == IF i < 0 THEN Len(v) + i ELSE i
      b0 == IF j < 0 THEN Len(v) + j ELSE j
      a == IF a0 < 0 THEN 0 ELSE a0
      b == IF b0 >= Len(v) THEN Len(v) - 1 ELSE b0
  IN IF a > b THEN "" ELSE SubSeq(v, a + 1, b + 1)
GetRangeS(s, c) == IF ~Vis(s, c.k) THEN R(s, "", "")
                   ELSE IF ~IsStr(s, c.k) THEN R(s, "type", "")
                   ELSE R(s, "", Slice(s[c.k].v, c.n, c.m))

(* integer counters; results are decimal strings, 64 bits *)
AddS(s, k, d) ==
  IF IsHash(s, k) THEN R(s, "type", "0")
  ELSE IF Vis(s, k) /\ ~IsInt64(s[k].v) THEN R(s, "err", "0")
  ELSE LET v == AddInt(IF Vis(s, k) THEN s[k].v ELSE "0", d)
       IN IF InRange64(v) THEN R(Put(s, k, StrE(v, X(s, k))), "", v)
          ELSE R(s, "err", "0")
(* subtracting the smallest integer: every sum that fits is fine, refusing *)
(* is what the implementation does for all of them (deviation)             *)
DecrByS(s, c) == IF c.d = "-9223372036854775808" /\ ~IsHash(s, c.k) THEN R(s, "err", "0")
                 ELSE AddS(s, c.k, NegInt(c.d))
FloatS(s, c) ==
  IF ~IsNumber(c.d) THEN R(s, "err", "0")     \* not a number or infinite
  ELSE IF IsHash(s, c.k) THEN R(s, "type", "0")
  ELSE IF Vis(s, c.k) /\ ~IsNumber(s[c.k].v) THEN R(s, "err", "0")
  ELSE LET v == AddNumber(IF Vis(s, c.k) THEN s[c.k].v ELSE "0", c.d)
       IN R(Put(s, c.k, StrE(v, X(s, c.k))), "", v)

(* kv is a sequence of <<key, value>> with distinct keys *)
RECURSIVE PutAll(_, _, _)
PutAll(s, kv, i) == IF i > Len(kv) THEN s ELSE PutAll(Put(s, kv[i][1], StrE(kv[i][2], 0)), kv, i + 1)
MSetS(s, c) == R(PutAll(s, c.kv, 1), "", "OK")
MSetNXS(s, c) == LET new == SelectSeq(c.kv, LAMBDA p : ~Vis(s, p[1]))
                 IN R(PutAll(s, new, 1), "", Len(new))
MGetS(s, c) == R(s, "", [i \in 1..Len(c.ks) |->
                 LET g == GetS(s, [k |-> c.ks[i]]).r IN [e |-> g.e, v |-> g.v]])

(* ---------------------------- keyspace --------------------------------- *)
DelS(s, c) == R(Rem(s, c.k), "", B2N(Vis(s, c.k)))
FlushS(s, c) == R(EmptyFn, "", "")
ExistsS(s, c) == R(s, "", Cardinality({i \in 1..Len(c.ks) : Vis(s, c.ks[i])}))
TypeS(s, c) == R(s, "", IF ~Vis(s, c.k) THEN "none" ELSE IF s[c.k].t = "hash" THEN "hash" ELSE "string")
(* forms of SET that only a master uses: a deadline c.n from now, or the old one *)
SetAtS(s, c) == R(Put(s, c.k, StrE(c.v, IF c.n > 0 THEN c.n ELSE -1)), "", "OK")
SetKeepS(s, c) == R(Put(s, c.k, StrE(c.v, X(s, c.k))), "", "OK")
PersistS(s, c) == IF ~Vis(s, c.k) THEN R(s, "", 0)
                  ELSE R(Put(s, c.k, [s[c.k] EXCEPT !.x = 0]), "", B2N(s[c.k].x > 0))
PExpireAtS(s, c) ==    \* c.n: from now; <= 0 is the past
  IF ~Vis(s, c.k) THEN R(s, "", 0)
  ELSE R(Put(s, c.k, [s[c.k] EXCEPT !.x = IF c.n > 0 THEN c.n ELSE -1]), "", 1)

(* ----------------------------- hashes ---------------------------------- *)
Fields(s, k) == IF IsHash(s, k) THEN s[k].f ELSE EmptyFn
Wrong(s, k) == IsStr(s, k)
HPut(s, k, f, v) == Put(s, k, HashE((f :> v) @@ Fields(s, k), X(s, k)))
HSetS(s, c) == IF Wrong(s, c.k) THEN R(s, "type", 0)
               ELSE R(HPut(s, c.k, c.f, c.v), "", B2N(c.f \notin DOMAIN Fields(s, c.k)))
HSetNXS(s, c) == IF Wrong(s, c.k) THEN R(s, "type", 0)
                 ELSE IF c.f \in DOMAIN Fields(s, c.k) THEN R(s, "", 0)
                 ELSE R(HPut(s, c.k, c.f, c.v), "", 1)
RECURSIVE HPutAll(_, _, _, _)
HPutAll(s, k, fv, i) == IF i > Len(fv) THEN s ELSE HPutAll(HPut(s, k, fv[i][1], fv[i][2]), k, fv, i + 1)
HMSetS(s, c) == IF Wrong(s, c.k) THEN R(s, "type", 0)
                ELSE R(HPutAll(s, c.k, c.kv, 1), "",
                       Cardinality({i \in 1..Len(c.kv) : c.kv[i][1] \notin DOMAIN Fields(s, c.k)}))
HDelS(s, c) ==
  IF Wrong(s, c.k) THEN R(s, "type", 0)
  ELSE LET h == Fields(s, c.k)
           gone == {c.ks[i] : i \in 1..Len(c.ks)} \cap DOMAIN h
           left == [f \in DOMAIN h \ gone |-> h[f]]
       IN R(IF gone = {} THEN s
            ELSE IF DOMAIN left = {} THEN Rem(s, c.k)
            ELSE Put(s, c.k, HashE(left, X(s, c.k))), "", Cardinality(gone))
HGetS(s, c) == IF Wrong(s, c.k) THEN R(s, "type", "")
               ELSE IF c.f \in DOMAIN Fields(s, c.k) THEN R(s, "", Fields(s, c.k)[c.f]) ELSE R(s, "nil", "")
HMGetS(s, c) == IF Wrong(s, c.k) THEN R(s, "type", <<>>)
                ELSE R(s, "", [i \in 1..Len(c.ks) |->
                       IF c.ks[i] \in DOMAIN Fields(s, c.k) THEN [e |-> "", v |-> Fields(s, c.k)[c.ks[i]]]
                       ELSE [e |-> "nil", v |-> ""]])
HExistsS(s, c) == IF Wrong(s, c.k) THEN R(s, "type", 0) ELSE R(s, "", B2N(c.f \in DOMAIN Fields(s, c.k)))
HLenS(s, c) == IF Wrong(s, c.k) THEN R(s, "type", 0) ELSE R(s, "", Cardinality(DOMAIN Fields(s, c.k)))
HStrLenS(s, c) == IF Wrong(s, c.k) THEN R(s, "type", 0)
                  ELSE IF c.f \in DOMAIN Fields(s, c.k) THEN R(s, "", Len(Fields(s, c.k)[c.f])) ELSE R(s, "", 0)
(* the three below return a set of <<field, value>> pairs; HKeys and HVals  *)
(* are its projections (HVals as a bag)                                     *)
HPairs(s, c) == IF Wrong(s, c.k) THEN R(s, "type", {})
                ELSE R(s, "", {<<f, Fields(s, c.k)[f]>> : f \in DOMAIN Fields(s, c.k)})
HIncrByS(s, c) ==
  IF Wrong(s, c.k) THEN R(s, "type", "0")
  ELSE LET h == Fields(s, c.k)
           old == IF c.f \in DOMAIN h /\ h[c.f] # "" THEN h[c.f] ELSE "0"
       IN IF ~IsInt64(old) THEN R(s, "err", "0")
          ELSE LET v == AddInt(old, c.d)
               IN IF InRange64(v) THEN R(HPut(s, c.k, c.f, v), "", v) ELSE R(s, "err", "0")
HIncrByFloatS(s, c) ==
  IF ~IsNumber(c.d) THEN R(s, "err", "0")
  ELSE IF Wrong(s, c.k) THEN R(s, "type", "0")
  ELSE LET h == Fields(s, c.k)
           old == IF c.f \in DOMAIN h /\ h[c.f] # "" THEN h[c.f] ELSE "0"
       IN IF ~IsNumber(old) THEN R(s, "err", "0")
          ELSE LET v == AddNumber(old, c.d) IN R(HPut(s, c.k, c.f, v), "", v)

(* ------------------------------ time ----------------------------------- *)
Advance(s, d) == [k \in DOMAIN s |->
   IF s[k].x > 0 THEN [s[k] EXCEPT !.x = IF s[k].x - d <= 0 THEN -1 ELSE s[k].x - d] ELSE s[k]]

ApplyDirect(s, c) ==
  CASE c.op = "Set" -> SetS(s, c)
    [] c.op = "SetNX" -> SetNXS(s, c)
    [] c.op \in {"SetEX", "PSetEX"} -> SetTtlS(s, c)
    [] c.op = "Get" -> GetS(s, c)
    [] c.op = "GetSet" -> GetSetS(s, c)
    [] c.op = "StrLen" -> StrLenS(s, c)
    [] c.op = "Append" -> AppendS(s, c)
    [] c.op = "SetRange" -> SetRangeS(s, c)
    [] c.op = "GetRange" -> GetRangeS(s, c)
    [] c.op = "Incr" -> AddS(s, c.k, "1")
    [] c.op = "Decr" -> AddS(s, c.k, "-1")
    [] c.op = "IncrBy" -> AddS(s, c.k, c.d)
    [] c.op = "DecrBy" -> DecrByS(s, c)
    [] c.op = "IncrByFloat" -> FloatS(s, c)
    [] c.op = "MSet" -> MSetS(s, c)
    [] c.op = "MSetNX" -> MSetNXS(s, c)
    [] c.op = "MGet" -> MGetS(s, c)
    [] c.op = "Del" -> DelS(s, c)
    [] c.op = "Flush" -> FlushS(s, c)
    [] c.op = "Exists" -> ExistsS(s, c)
    [] c.op = "Type" -> TypeS(s, c)
    [] c.op = "PExpireAt" -> PExpireAtS(s, c)
    [] c.op = "SetAt" -> SetAtS(s, c)
    [] c.op = "SetKeep" -> SetKeepS(s, c)
    [] c.op = "Persist" -> PersistS(s, c)
    [] c.op = "HSet" -> HSetS(s, c)
    [] c.op = "HSetNX" -> HSetNXS(s, c)
    [] c.op = "HMSet" -> HMSetS(s, c)
    [] c.op = "HDel" -> HDelS(s, c)
    [] c.op = "HGet" -> HGetS(s, c)
    [] c.op = "HMGet" -> HMGetS(s, c)
    [] c.op = "HExists" -> HExistsS(s, c)
    [] c.op = "HLen" -> HLenS(s, c)
    [] c.op = "HStrLen" -> HStrLenS(s, c)
    [] c.op \in {"HKeys", "HVals", "HGetAll"} -> HPairs(s, c)
    [] c.op = "HIncrBy" -> HIncrByS(s, c)
    [] c.op = "HIncrByFloat" -> HIncrByFloatS(s, c)
    [] c.op = "Advance" -> R(Advance(s, c.n), "", "")

(* ------------------------ replicated commands --------------------------- *)
(* Msg applies a command as it arrives in the replication stream: c.args is *)
(* the list of its words.  Whatever is not one of the supported commands,   *)
(* with the right number of words and well-formed numbers, is an error and  *)
(* changes nothing.  c.kind tells whether the message was a command (an     *)
(* array) at all; c.n is the distance of an absolute expiry from now.       *)
Upper26 == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower26 == "abcdefghijklmnopqrstuvwxyz"
UpSet == {Ch(Upper26, i) : i \in 1..26}
LowOf == [u \in UpSet |-> LET i == CHOOSE i \in 1..26 : Ch(Upper26, i) = u IN Ch(Lower26, i)]
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN ""
            ELSE (IF Ch(s, 1) \in UpSet THEN LowOf[Ch(s, 1)] ELSE Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

Exact == [setnx |-> 3, setex |-> 4, psetex |-> 4, getset |-> 3, append |-> 3, setrange |-> 4,
          incr |-> 2, decr |-> 2, incrby |-> 3, decrby |-> 3, incrbyfloat |-> 3, pexpireat |-> 3,
          expire |-> 3, pexpire |-> 3, expireat |-> 3, persist |-> 2,
          hsetnx |-> 4, hincrby |-> 4, hincrbyfloat |-> 4]
Supported(name, n) ==
  IF name \in DOMAIN Exact THEN n = Exact[name]
  ELSE CASE name = "set" -> n >= 3
         [] name \in {"hset", "hmset"} -> n >= 4 /\ n % 2 = 0
         [] name \in {"mset", "msetnx"} -> n >= 3 /\ n % 2 = 1
         [] name \in {"del", "unlink"} -> n >= 2
         [] name = "hdel" -> n >= 3
         [] name \in {"flushdb", "flushall"} -> TRUE
         [] OTHER -> FALSE
(* pairs of words from position i on, the last of equal first words counts *)
RECURSIVE Pairs(_, _)
Pairs(a, i) == IF i > Len(a) THEN <<>>
               ELSE LET rest == Pairs(a, i + 2)
                    IN IF \E j \in 1..Len(rest) : rest[j][1] = a[i] THEN rest
                       ELSE <<<<a[i], a[i + 1]>>>> \o rest
RECURSIVE DelAll(_, _, _)
DelAll(s, a, i) == IF i > Len(a) THEN s ELSE DelAll(Rem(s, a[i]), a, i + 1)

Refuse == [op |-> "Refuse"]
(* times and offsets far away need not be exact *)
Num32(w) == IF Len(w) < 10 THEN ToInt(w) ELSE IF Neg(w) THEN -2000000000 ELSE 2000000000
Secs(w) == IF Len(w) <= 6 THEN ToInt(w) * 1000 ELSE IF Neg(w) THEN -2000000000 ELSE 2000000000
(* a moment: a number, or, written @n or @@n, n milliseconds from now *)
IsAt(w) == IF w = "" THEN FALSE ELSE Ch(w, 1) = "@"
IsMoment(w) == IsAt(w) \/ IsInt64(w)
(* The options of SET, in any order, from position i on: a master has       *)
(* already seen to its conditions (c) and wants no answer (get); at most    *)
(* one option (x) is about the deadline, and has its number at position p.  *)
RECURSIVE SetOptions(_, _, _)
SetOptions(a, i, o) ==
  IF i > Len(a) THEN o
  ELSE LET w == Lower(a[i]) IN
       CASE w = "get" -> SetOptions(a, i + 1, o)
         [] w \in {"nx", "xx"} /\ o.c \in {"", w} -> SetOptions(a, i + 1, [o EXCEPT !.c = w])
         [] w = "keepttl" /\ o.x = "" -> SetOptions(a, i + 1, [o EXCEPT !.x = w])
         [] w \in {"ex", "px", "exat", "pxat"} /\ o.x = "" /\ i < Len(a) ->
              IF (w \in {"ex", "px"} /\ ~IsInt64(a[i + 1])) \/ ~IsMoment(a[i + 1]) THEN [o EXCEPT !.ok = FALSE]
              ELSE SetOptions(a, i + 2, [o EXCEPT !.x = w, !.p = i + 1])
         [] OTHER -> [o EXCEPT !.ok = FALSE]
SetOf(a, n) ==
  LET o == SetOptions(a, 4, [ok |-> TRUE, c |-> "", x |-> "", p |-> 0])
      k == a[2]  v == a[3]
  IN CASE ~o.ok -> Refuse
       [] o.ok /\ o.x = "" -> [op |-> "Set", k |-> k, v |-> v]
       [] o.ok /\ o.x = "keepttl" -> [op |-> "SetKeep", k |-> k, v |-> v]
       [] o.ok /\ o.x = "ex" -> [op |-> "SetEX", k |-> k, v |-> v, n |-> Secs(a[o.p])]
       [] o.ok /\ o.x = "px" -> [op |-> "PSetEX", k |-> k, v |-> v, n |-> Num32(a[o.p])]
       [] o.ok /\ o.x \in {"exat", "pxat"} -> [op |-> "SetAt", k |-> k, v |-> v, n |-> n]
DirectOf(a, n) ==
  LET name == Lower(a[1]) IN
  IF ~Supported(name, Len(a)) THEN Refuse
  ELSE CASE name = "set" -> SetOf(a, n)
         [] name = "setnx" -> [op |-> "SetNX", k |-> a[2], v |-> a[3]]
         [] name = "setex" -> IF IsInt64(a[3]) THEN [op |-> "SetEX", k |-> a[2], v |-> a[4], n |-> Secs(a[3])] ELSE Refuse
         [] name = "psetex" -> IF IsInt64(a[3]) THEN [op |-> "PSetEX", k |-> a[2], v |-> a[4], n |-> Num32(a[3])] ELSE Refuse
         [] name = "getset" -> [op |-> "GetSet", k |-> a[2], v |-> a[3]]
         [] name = "append" -> [op |-> "Append", k |-> a[2], v |-> a[3]]
         [] name = "setrange" -> IF IsInt64(a[3]) THEN [op |-> "SetRange", k |-> a[2], n |-> Num32(a[3]), v |-> a[4]] ELSE Refuse
         [] name = "incr" -> [op |-> "Incr", k |-> a[2]]
         [] name = "decr" -> [op |-> "Decr", k |-> a[2]]
         [] name = "incrby" -> IF IsInt64(a[3]) THEN [op |-> "IncrBy", k |-> a[2], d |-> a[3]] ELSE Refuse
         [] name = "decrby" -> IF IsInt64(a[3]) THEN [op |-> "DecrBy", k |-> a[2], d |-> a[3]] ELSE Refuse
         [] name = "incrbyfloat" -> IF IsNumber(a[3]) THEN [op |-> "IncrByFloat", k |-> a[2], d |-> a[3]] ELSE Refuse
         [] name = "mset" -> [op |-> "MSet", kv |-> Pairs(a, 2)]
         [] name = "msetnx" -> [op |-> "MSetNX", kv |-> Pairs(a, 2)]
         [] name \in {"del", "unlink"} -> [op |-> "DelAll", a |-> a]
         [] name \in {"flushdb", "flushall"} -> [op |-> "Flush"]
         [] name \in {"expireat", "pexpireat"} -> IF IsMoment(a[3]) THEN [op |-> "PExpireAt", k |-> a[2], n |-> n] ELSE Refuse
         [] name = "expire" -> IF IsInt64(a[3]) THEN [op |-> "PExpireAt", k |-> a[2], n |-> Secs(a[3])] ELSE Refuse
         [] name = "pexpire" -> IF IsInt64(a[3]) THEN [op |-> "PExpireAt", k |-> a[2], n |-> Num32(a[3])] ELSE Refuse
         [] name = "persist" -> [op |-> "Persist", k |-> a[2]]
         [] name \in {"hset", "hmset"} -> [op |-> "HMSet", k |-> a[2], kv |-> Pairs(a, 3)]
         [] name = "hsetnx" -> [op |-> "HSetNX", k |-> a[2], f |-> a[3], v |-> a[4]]
         [] name = "hdel" -> [op |-> "HDel", k |-> a[2], ks |-> SubSeq(a, 3, Len(a))]
         [] name = "hincrby" -> IF IsInt64(a[4]) THEN [op |-> "HIncrBy", k |-> a[2], f |-> a[3], d |-> a[4]] ELSE Refuse
         [] name = "hincrbyfloat" -> IF IsNumber(a[4]) THEN [op |-> "HIncrByFloat", k |-> a[2], f |-> a[3], d |-> a[4]] ELSE Refuse
MsgS(s, c) ==
  IF c.kind # "array" \/ Len(c.args) = 0 THEN R(s, "err", "")
  ELSE LET d == DirectOf(c.args, c.n) IN
       CASE d.op = "Refuse" -> R(s, "err", "")
         [] d.op = "DelAll" -> R(DelAll(s, d.a, 2), "", "")
         [] OTHER -> LET q == ApplyDirect(s, d)
                     \* an absent old value is no failure of the command
                     IN R(q.s, IF q.r.e \in {"", "nil"} THEN "" ELSE "err", "")

Apply(s, c) == IF c.op = "Msg" THEN MsgS(s, c) ELSE ApplyDirect(s, c)

(* -------------------------- observed results ---------------------------- *)
(* "err" allows any error, the other classes are exact; a value only counts *)
(* when there is no error                                                   *)
EMatch(w, g) == IF w = "err" THEN g \notin {"", "panic", "hang"} ELSE g = w
RMatch(c, w, g) ==
  IF ~EMatch(w.e, g.e) THEN FALSE
  ELSE IF w.e # "" THEN TRUE
  ELSE CASE c.op \in {"HKeys", "HVals", "HGetAll"} ->
              (* a list that must contain exactly the pairs, fields or values *)
              LET pairs == w.v
                  proj(p) == CASE c.op = "HKeys" -> p[1] [] c.op = "HVals" -> p[2] [] OTHER -> p
                  all == {proj(p) : p \in pairs}
              IN /\ Len(g.v) = Cardinality(pairs)
                 /\ \A q \in all : Cardinality({j \in 1..Len(g.v) : g.v[j] = q}) = Cardinality({p \in pairs : proj(p) = q})
         [] c.op \in {"Msg", "Advance", "Flush"} -> TRUE
         [] c.op \in {"MGet", "HMGet"} ->
              /\ Len(g.v) = Len(w.v)
              /\ \A j \in 1..Len(w.v) : g.v[j].e = w.v[j].e /\ (w.v[j].e = "" => g.v[j].v = w.v[j].v)
         [] OTHER -> g.v = w.v

ReadOps == {"Get", "MGet", "StrLen", "GetRange", "Exists", "Type", "HGet", "HMGet", "HExists",
            "HStrLen", "HLen", "HKeys", "HVals", "HGetAll"}
(* the keys a command may touch *)
KeysOf(c) == CASE c.op \in {"MSet", "MSetNX"} -> {c.kv[i][1] : i \in 1..Len(c.kv)}
               [] c.op \in {"MGet", "Exists"} -> {c.ks[i] : i \in 1..Len(c.ks)}
               [] OTHER -> {c.k}
===========================================================================
