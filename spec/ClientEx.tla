----------------------------- MODULE ClientEx -----------------------------
(* Every method with every kind of reply, on a new connection or a used one, *)
(* with every answer to the greetings.                                       *)
EXTENDS Client
CONSTANTS Emit
VARIABLES opt, conn, last
vars == <<opt, conn, last>>

M(t, v) == [kind |-> "msg", m |-> [t |-> t, v |-> v]]
B(v) == [t |-> "bulk", v |-> v]
Replies(op) ==
  {M("simple", "OK"), M("simple", "QUEUED"), M("simple", "ok"), M("simple", ""), M("int", "0"), M("int", "1"), M("int", "-7"),
   M("bulk", ""), M("bulk", "value"), M("bulk", "a b"), M("nil", ""), M("error", "ERR failed"), M("error", ""), M("error", "WRONGTYPE x"), M("error", "OK"),
   [kind |-> "close"], [kind |-> "cut"], [kind |-> "garbage"]}
  \cup (IF op = "IncrByFloat" THEN {M("bulk", "10.5"), M("bulk", "-0.25"), M("bulk", "3"), M("bulk", "1e3")} ELSE {M("int", "9223372036854775807")})
  \cup (IF op \in StrOps \cup {"IncrByFloat"} THEN {}
        ELSE {M("array", <<>>), M("array", <<B("x")>>), M("array", <<B("OK"), B("1")>>), M("array", <<B("f"), [t |-> "nil", v |-> ""], [t |-> "error", v |-> "ERR"], [t |-> "int", v |-> "5"], B("")>>)})
Calls == {[op |-> o, k |-> "k"] : o \in {"Get", "StrLen", "Incr", "Decr"}}
   \cup {[op |-> o, k |-> "k", v |-> v] : o \in {"Set", "SetNX", "GetSet", "Append"}, v \in {"v w", ""}}
   \cup {[op |-> o, k |-> "k", n |-> n, v |-> "v"] : o \in {"SetEX", "PSetEX"}, n \in {"10", "18446744073709551615"}}
   \cup {[op |-> "SetRange", k |-> "k", n |-> n, v |-> "v"] : n \in {"0", "5"}}
   \cup {[op |-> "GetRange", k |-> "k", n |-> "1", m |-> "-2"]}
   \cup {[op |-> o, k |-> "k", d |-> d] : o \in {"IncrBy", "DecrBy"}, d \in {"3", "-4"}}
   \cup {[op |-> "IncrByFloat", k |-> "k", d |-> d] : d \in {"0.5", "-12"}}
   \cup {[op |-> "Select", n |-> "3"]}
   \cup {[op |-> "MGet", ks |-> ks] : ks \in {<<"k">>, <<"a", "b", "a">>}}
   \cup {[op |-> o, kv |-> kv] : o \in {"MSet", "MSetNX"}, kv \in {<<<<"a", "1">>>>, <<<<"a", "1">>, <<"b", "">>>>}}
Opts == {[password |-> p, database |-> d] : p \in {"", "secret"}, d \in {0, 2}}
HsReplies == {M("simple", "OK"), M("error", "ERR no"), [kind |-> "close"]}
Hs(n) == IF n = 0 THEN {<<>>} ELSE [1..n -> HsReplies]

Init == opt \in Opts /\ conn = "none" /\ last = <<>>
Next == \E c \in Calls : \E r \in Replies(c.op) : \E hs \in (IF conn = "open" THEN {<<>>} ELSE Hs(Len(Greetings(opt)))) :
          \* all replies without greetings, some with them
          /\ \/ opt.password = "" /\ opt.database = 0
             \/ c.op \in {"Get", "Set"} /\ r.kind = "msg" /\ r.m.t # "array" /\ r.m.v \in {"OK", "value", "ERR failed"}
             \/ r.kind # "msg" /\ c.op = "Incr"
          /\ LET x == Call(opt, conn, c, r, hs)
             IN /\ conn' = x.conn
                /\ last' = <<[c |-> c, r |-> r, res |-> x.res]>>
                /\ Emit => PrintT(ToJson([opt |-> opt, src |-> conn, c |-> c, reply |-> r, hs |-> hs, dst |-> x.conn]))
          /\ opt' = opt
Spec == Init /\ [][Next]_vars
View == <<opt, conn>>

(* no success without the server saying so *)
NeverInvented == \A i \in 1..Len(last) : LET l == last[i] IN
   ~l.res.err => /\ l.r.kind = "msg" /\ l.r.m.t \notin {"error", "nil"}
                 /\ l.c.op \notin {"IncrByFloat", "MGet"} => l.res.v = l.r.m.v
ErrorsReported == \A i \in 1..Len(last) : LET l == last[i] IN (l.r.kind # "msg" \/ l.r.m.t \in {"error", "nil"}) => l.res.err
===========================================================================
