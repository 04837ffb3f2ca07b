------------------------------ MODULE RespEx ------------------------------
(* A sender writes messages, the network delivers the bytes in pieces of any *)
(* size and may end anywhere, a receiver takes messages off the front.       *)
EXTENDS Resp
CONSTANTS MaxMsgs, Emit
NUL == JsonDeserialize("nul.json")[1]
S(t, v) == [t |-> t, v |-> v]
Atoms == {S("simple", ""), S("simple", "OK"), S("error", "ERR x"), S("int", "0"), S("int", "-12"), S("nil", ""),
          S("bulk", ""), S("bulk", "a"), S("bulk", "\r\n"), S("bulk", NUL), S("bulk", "$-1"), S("bulk", "0123456789")}
Small == {S("simple", "OK"), S("nil", ""), S("bulk", "\r\n"), S("int", "7")}
Arrays == {S("array", <<>>)} \cup {S("array", <<a>>) : a \in Atoms} \cup {S("array", <<a, b>>) : a, b \in Small}
Nested == {S("array", <<a>>) : a \in Arrays} \cup {S("array", <<S("array", <<a>>), b>>) : a, b \in Small}
Seqs == {<<a>> : a \in Atoms \cup Arrays \cup Nested} \cup
        (IF MaxMsgs >= 2 THEN {<<a, b>> : a \in Atoms, b \in Atoms \cup {S("array", <<>>), S("array", <<S("nil", "")>>)}} \cup {<<a, b>> : a \in Arrays, b \in Small} ELSE {}) \cup
        (IF MaxMsgs >= 3 THEN {<<a, b, c>> : a, b, c \in Small} ELSE {})

VARIABLES msgs,   \* what is sent
          sent,   \* the bytes, up to where the connection ends
          at,     \* bytes delivered
          pos,    \* next byte to be decoded
          got,    \* messages received
          over    \* the receiver knows that no message is left
vars == <<msgs, sent, at, pos, got, over>>
Init == /\ msgs \in Seqs
        /\ LET w == WireAll(msgs, 1) IN \E n \in 0..Len(w) : sent = SubSeq(w, 1, n)
        /\ at = 0 /\ pos = 1 /\ got = <<>> /\ over = FALSE
        /\ Emit => PrintT(ToJson([msgs |-> msgs, stream |-> sent]))
Deliver == \E n \in {1, 2, 3, 7, 1000} :
  /\ at < Len(sent)
  /\ at' = (IF at + n > Len(sent) THEN Len(sent) ELSE at + n)
  /\ UNCHANGED <<msgs, sent, pos, got, over>>
Receive == LET d == DecodeAt(SubSeq(sent, 1, at), pos) IN
           /\ ~over /\ d.ok
           /\ got' = Append(got, d.m) /\ pos' = d.n
           /\ UNCHANGED <<msgs, sent, at, over>>
Fail == /\ ~over /\ at = Len(sent) /\ ~DecodeAt(sent, pos).ok
        /\ over' = TRUE
        /\ UNCHANGED <<msgs, sent, at, pos, got>>
Next == Deliver \/ Receive \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* never a message that was not sent, never out of order *)
Prefix == IsPre(got, msgs)
(* in the end all that were sent completely *)
Complete == over => /\ got = DecodeAll(sent, 1)
                    /\ sent = WireAll(msgs, 1) => got = msgs
                    /\ IsPre(WireAll(got, 1), sent)
Ends == <>over
===========================================================================
