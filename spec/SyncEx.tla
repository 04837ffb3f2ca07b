------------------------------- MODULE SyncEx -------------------------------
(* The transfer and the stream byte by byte: a master's bytes arrive one     *)
(* after the other, the replica is an automaton.  In every state the         *)
(* connection may end; the outcome must be what Replica says the bytes so    *)
(* far mean (Outcome, Delivered).  Each state is printed as a scenario.      *)
EXTENDS Replica
CONSTANTS MaxMsgs, Emit
LOCAL W2 == INSTANCE Resp
Pongs == {"+PONG\r\n", "$4\r\nPONG\r\n"}
Refusals == {"-ERR no\r\n", "-PONG\r\n", "-NOAUTH Authentication required.\r\n", "+OK\r\n", "+PON", "+PONG", "", ":1\r\n", "$-1\r\n", "x\r\n", "$4\r\nPON", "$4\r\nPONG", "$4\r\nPONGx\r\n", "+PONGS\r\n"}
Breaks == {"", "\n", "\n\n\n", "\r\n"}
Payloads == {"", "a", "\r\n", "$3\r\nabc\r\n", "*1\r\n$4\r\nPING\r\n", "\n\nREDIS"}
Good == {"$" \o ToString(Len(p)) \o "\r\n" \o p : p \in Payloads}
Refused == {"-ERR not now\r\n", "-LOADING\r\n", "+OK\r\n", "$-1\r\n", "$x\r\n", "$\r\n", ":3\r\nabc", "*1\r\n$3\r\nabc\r\n", "x", "$9\r\nabcd", "$1e1\r\nabcdefghij"}
Bulks(ws) == W2!Wire([t |-> "array", v |-> [i \in 1..Len(ws) |-> [t |-> "bulk", v |-> ws[i]]]])
Msgs == {Bulks(<<"PING">>), Bulks(<<"ping", "x">>), Bulks(<<"SELECT", "1">>), Bulks(<<"select", "0">>), Bulks(<<"set", "a", "b">>),
         Bulks(<<"pinger">>), Bulks(<<"select", "x">>), Bulks(<<"select", "1", "2">>), Bulks(<<"del", "\r\n">>), ":5\r\n", "+PING\r\n", "*0\r\n", "$4\r\nPING\r\n"}
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {""} ELSE LET r == Strs(n - 1) IN r \cup {x \o m : x \in r, m \in Msgs}
Plain == "$1\r\na"

VARIABLES ping, whole, pos, ph, buf, need, file, out, db
vars == <<ping, whole, pos, ph, buf, need, file, out, db>>
Init == /\ \/ ping \in Refusals /\ whole = Plain
           \/ ping \in Pongs /\ whole \in {b \o g \o m : b \in Breaks, g \in Good, m \in {"", Bulks(<<"set", "k", "v">>)}}
           \/ ping \in Pongs /\ whole \in {b \o w : b \in Breaks, w \in Refused}
           \/ ping = "+PONG\r\n" /\ whole \in {Plain \o m : m \in Strs(MaxMsgs)}
        /\ pos = 0 /\ ph = (IF ping \in Pongs THEN "breaks" ELSE "failed") /\ buf = "" /\ need = 0 /\ file = "" /\ out = <<>> /\ db = 0
c == Ch(whole, pos + 1)
Next ==
  /\ pos < Len(whole) /\ ping \in Pongs /\ pos' = pos + 1 /\ UNCHANGED <<ping, whole>>
  /\ CASE ph = "breaks" -> /\ ph' = (IF c \in {"\r", "\n"} THEN "breaks" ELSE IF c = "$" THEN "head" ELSE "failed")
                           /\ UNCHANGED <<buf, need, file, out, db>>
       [] ph = "head" -> IF c # "\n" THEN buf' = buf \o c /\ UNCHANGED <<ph, need, file, out, db>>
                         ELSE LET l == IF buf # "" /\ Ch(buf, Len(buf)) = "\r" THEN SubSeq(buf, 1, Len(buf) - 1) ELSE buf
                                  n == W2!Count(l) IN
                              /\ ph' = (IF n < 0 THEN "failed" ELSE IF n = 0 THEN "stream" ELSE "body")
                              /\ need' = n /\ buf' = "" /\ UNCHANGED <<file, out, db>>
       [] ph = "body" -> /\ file' = file \o c /\ need' = need - 1 /\ ph' = (IF need = 1 THEN "stream" ELSE "body") /\ UNCHANGED <<buf, out, db>>
       [] ph = "stream" -> LET d == Decode(buf \o c, 1) IN
                           IF d.ok /\ d.n = Len(buf) + 2
                           THEN LET y == Deliver(db, d.m) IN buf' = "" /\ out' = out \o y.out /\ db' = y.db /\ UNCHANGED <<ph, need, file>>
                           ELSE buf' = buf \o c /\ UNCHANGED <<ph, need, file, out, db>>
       [] ph = "failed" -> UNCHANGED <<ph, buf, need, file, out, db>>
Spec == Init /\ [][Next]_vars
Sofar == SubSeq(whole, 1, pos)
Outcome == LET t == IF IsPong(ping) THEN Transfer(Sofar) ELSE NoFile IN
           t.ok = (ph = "stream") /\ (t.ok => t.file = file)
Delivered == ph = "stream" => out = Stream(Transfer(Sofar).rest)
Printed == Emit => PrintT(ToJson([ping |-> ping, sync |-> Sofar]))
============================================================================
