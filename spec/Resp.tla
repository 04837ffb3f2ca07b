------------------------------- MODULE Resp -------------------------------
(* The wire format.  A message is [t |-> kind, v |-> content]: kinds simple, *)
(* error, int (decimal string), bulk, nil, array (sequence of messages).     *)
(* Wire(m) is its serialization.  DecodeAt(s, p) is the only message a       *)
(* receiver may see in the byte stream s from position p on, or none: the    *)
(* stream ends inside the message or is not a message.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num

CRLF == "\r\n"
RECURSIVE Wire(_), WireAll(_, _)
Wire(m) == CASE m.t = "simple" -> "+" \o m.v \o CRLF
             [] m.t = "error" -> "-" \o m.v \o CRLF
             [] m.t = "int" -> ":" \o m.v \o CRLF
             [] m.t = "bulk" -> "$" \o ToString(Len(m.v)) \o CRLF \o m.v \o CRLF
             [] m.t = "nil" -> "$-1" \o CRLF
             [] m.t = "array" -> "*" \o ToString(Len(m.v)) \o CRLF \o WireAll(m.v, 1)
WireAll(ms, i) == IF i > Len(ms) THEN "" ELSE Wire(ms[i]) \o WireAll(ms, i + 1)

RECURSIVE NL(_, _)
NL(s, p) == IF p > Len(s) THEN 0 ELSE IF Ch(s, p) = "\n" THEN p ELSE NL(s, p + 1)
(* what stands between p and the end of the line at e *)
Line(s, p, e) == SubSeq(s, p, IF e > p /\ Ch(s, e - 1) = "\r" THEN e - 2 ELSE e - 1)

MaxBulk == 536870912
Count(l) == IF Digits(l) /\ Len(l) < 10 THEN ToInt(l) ELSE -1
Bad == [ok |-> FALSE, m |-> [t |-> "none", v |-> ""], n |-> 0]
Msg(t, v, n) == [ok |-> TRUE, m |-> [t |-> t, v |-> v], n |-> n]    \* n: the next position
RECURSIVE DecodeAt(_, _), Elements(_, _, _, _)
DecodeAt(s, p) ==
  IF p > Len(s) THEN Bad ELSE
  LET e == NL(s, p + 1)
      l == Line(s, p + 1, e)
      c == Ch(s, p)
  IN IF c \notin {"+", "-", ":", "$", "*"} \/ e = 0 THEN Bad
     ELSE CASE c = "+" -> Msg("simple", l, e + 1)
            [] c = "-" -> Msg("error", l, e + 1)
            [] c = ":" -> IF IsInt64(l) THEN Msg("int", l, e + 1) ELSE Bad
            [] c = "$" -> IF l = "-1" THEN Msg("nil", "", e + 1)
                          ELSE LET n == Count(l) IN
                               IF n < 0 \/ n > MaxBulk \/ n > Len(s) - e - 2 THEN Bad
                               ELSE IF SubSeq(s, e + n + 1, e + n + 2) # CRLF THEN Bad
                               ELSE Msg("bulk", SubSeq(s, e + 1, e + n), e + n + 3)
            [] c = "*" -> IF Count(l) < 0 THEN Bad ELSE Elements(s, e + 1, Count(l), <<>>)
Elements(s, p, n, acc) ==
  IF n = 0 THEN Msg("array", acc, p)
  ELSE LET d == DecodeAt(s, p) IN
       IF d.ok THEN Elements(s, d.n, n - 1, Append(acc, d.m)) ELSE Bad

(* everything a receiver gets from a stream that ends *)
RECURSIVE DecodeAll(_, _)
DecodeAll(s, p) == LET d == DecodeAt(s, p) IN IF d.ok THEN <<d.m>> \o DecodeAll(s, d.n) ELSE <<>>
===========================================================================
