------------------------------ MODULE Client ------------------------------
(* The redis client, one call at a time, against a server that may answer    *)
(* anything.  Call c: [op |-> method, ...arguments].  Reply r:               *)
(*   [kind |-> "msg", m |-> message as in Resp]   a complete reply           *)
(*   [kind |-> "close"] connection closed instead  [kind |-> "cut"] or in the *)
(*   middle of the reply  [kind |-> "garbage"] bytes that are no reply        *)
(* A new connection first says who it is and which database it wants (hs).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num

Upper26 == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower26 == "abcdefghijklmnopqrstuvwxyz"
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN ""
            ELSE (IF \E i \in 1..26 : Ch(Upper26, i) = Ch(s, 1) THEN Ch(Lower26, CHOOSE i \in 1..26 : Ch(Upper26, i) = Ch(s, 1)) ELSE Ch(s, 1))
                 \o Lower(SubSeq(s, 2, Len(s)))

(* -------------------------------- requests ------------------------------ *)
(* name and fixed arguments; floats and maps are compared by meaning         *)
Words(c) ==
  CASE c.op \in {"Get", "StrLen", "Incr", "Decr"} -> <<c.k>>
    [] c.op \in {"Set", "SetNX", "GetSet", "Append"} -> <<c.k, c.v>>
    [] c.op \in {"SetEX", "PSetEX"} -> <<c.k, c.n, c.v>>
    [] c.op = "SetRange" -> <<c.k, c.n, c.v>>
    [] c.op = "GetRange" -> <<c.k, c.n, c.m>>
    [] c.op \in {"IncrBy", "DecrBy", "IncrByFloat"} -> <<c.k, c.d>>
    [] c.op = "Select" -> <<c.n>>
    [] c.op = "MGet" -> c.ks
    [] c.op \in {"MSet", "MSetNX"} -> <<>>
PairsFrom(w) == {<<w[2 * i], w[2 * i + 1]>> : i \in 1..((Len(w) - 1) \div 2)}
IsRequest(c, w) ==
  /\ Len(w) >= 1 /\ Lower(w[1]) = Lower(c.op)
  /\ CASE c.op \in {"MSet", "MSetNX"} ->
            Len(w) = 1 + 2 * Len(c.kv) /\ PairsFrom(w) = {<<c.kv[i][1], c.kv[i][2]>> : i \in 1..Len(c.kv)}
       [] c.op = "IncrByFloat" -> Len(w) = 3 /\ w[2] = c.k /\ IsNumber(w[3]) /\ AddNumber(w[3], "0") = AddNumber(c.d, "0")
       [] OTHER -> SubSeq(w, 2, Len(w)) = Words(c)

(* --------------------------------- results ------------------------------ *)
OkOps == {"Set", "SetEX", "PSetEX", "MSet", "Select"}
IntOps == {"StrLen", "Append", "SetRange", "Incr", "IncrBy", "Decr", "DecrBy", "MSetNX"}
StrOps == {"SetNX", "Get", "GetSet", "GetRange"}
Err == [err |-> TRUE, v |-> ""]
Val(v) == [err |-> FALSE, v |-> v]
Element(m) == IF m.t \in {"nil", "error"} THEN Err ELSE Val(m.v)
Result(c, r) ==
  IF r.kind # "msg" THEN Err
  ELSE LET m == r.m IN
       IF m.t \in {"nil", "error"} THEN Err
       ELSE CASE c.op \in OkOps -> IF m.t = "simple" /\ m.v = "OK" THEN Val("OK") ELSE Err
              [] c.op \in IntOps -> IF m.t = "int" THEN Val(m.v) ELSE Err
              [] c.op \in StrOps -> IF m.t = "array" THEN Err ELSE Val(m.v)
              [] c.op = "IncrByFloat" -> IF m.t # "array" /\ IsNumber(m.v) THEN Val(AddNumber(m.v, "0")) ELSE Err
              [] c.op = "MGet" -> IF m.t = "array" THEN Val([i \in 1..Len(m.v) |-> Element(m.v[i])]) ELSE Err

(* ------------------------------- connection ----------------------------- *)
(* opt: [password, database]; the greetings of a new connection              *)
Greetings(opt) == (IF opt.password # "" THEN <<<<"auth", opt.password>>>> ELSE <<>>)
                  \o (IF opt.database > 0 THEN <<<<"select", ToString(opt.database)>>>> ELSE <<>>)
IsGreeting(g, w) == Len(w) = 2 /\ Lower(w[1]) = g[1] /\ w[2] = g[2]
Accepted(r) == r.kind = "msg" /\ r.m.t \notin {"nil", "error"}
(* how many greetings are sent when these are the answers *)
RECURSIVE Sent(_, _, _)
Sent(n, hs, i) == IF i > n THEN n ELSE IF Accepted(hs[i]) THEN Sent(n, hs, i + 1) ELSE i

(* one call: conn is "none" or "open" (a working connection is there); the   *)
(* requests it makes, its result, and the connection afterwards              *)
Call(opt, conn, c, r, hs) ==
  LET n == Len(Greetings(opt))
      g == IF conn = "open" THEN 0 ELSE Sent(n, hs, 1)
      refused == conn # "open" /\ \E i \in 1..g : ~Accepted(hs[i])
  IN [greet |-> g, asked |-> ~refused,
      res |-> IF refused THEN Err ELSE Result(c, r),
      conn |-> IF refused \/ r.kind # "msg" THEN "none" ELSE "open"]
===========================================================================
