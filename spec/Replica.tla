------------------------------ MODULE Replica ------------------------------
(* A replica: it pings its master, asks for a snapshot, stores it, loads it  *)
(* into the local copy, and applies the commands that follow.  Bytes are     *)
(* characters of strings, as in Resp; snapshots are read by Rdb; commands    *)
(* mean what KV says.                                                        *)
EXTENDS KV
LOCAL W == INSTANCE Resp
LOCAL RD == INSTANCE Rdb
LOCAL SX == INSTANCE SequencesExt

\* ------------------------------------------------------------ the transfer
Decode(s, p) == W!DecodeAt(s, p)
IsPong(a) == LET d == Decode(a, 1) IN d.ok /\ d.m.t \in {"simple", "bulk"} /\ d.m.v = "PONG"
RECURSIVE SkipBreaks(_, _)
SkipBreaks(s, p) == IF p <= Len(s) /\ Ch(s, p) \in {"\n", "\r"} THEN SkipBreaks(s, p + 1) ELSE p
(* s: everything a master sends in answer to the request before the         *)
(* connection ends                                                          *)
NoFile == [ok |-> FALSE, file |-> "", rest |-> ""]
Transfer(s) ==
  LET p == SkipBreaks(s, 1) IN
  IF p > Len(s) \/ Ch(s, p) # "$" THEN NoFile
  ELSE LET e == W!NL(s, p + 1) IN
       IF e = 0 THEN NoFile
       ELSE LET n == W!Count(W!Line(s, p + 1, e)) IN
            IF n < 0 \/ n > Len(s) - e THEN NoFile
            ELSE [ok |-> TRUE, file |-> SubSeq(s, e + 1, e + n), rest |-> SubSeq(s, e + n + 1, Len(s))]

\* ------------------------------------------------------------ the stream
IsText(m) == m.t \in {"bulk", "simple"}
Words(m) == TLCEval([i \in 1..Len(m.v) |-> IF IsText(m.v[i]) \/ m.v[i].t = "int" THEN m.v[i].v ELSE ""])
Verb(m) == IF m.t = "array" /\ Len(m.v) > 0 /\ IsText(m.v[1]) THEN Lower(m.v[1].v) ELSE ""
(* one message after the other: what is delivered, and the database after *)
Deliver(db, m) ==
  IF Verb(m) = "ping" THEN [db |-> db, out |-> <<>>]
  ELSE IF Verb(m) = "select" /\ Len(m.v) = 2 /\ IsText(m.v[2]) /\ Digits(m.v[2].v) THEN [db |-> ToInt(m.v[2].v), out |-> <<>>]
  ELSE [db |-> db, out |-> <<[d |-> db, m |-> m]>>]
(* a whole stream, to its end or to what is not a message *)
StreamStep(s, x) ==
  IF x.p = 0 THEN x
  ELSE LET d == Decode(s, x.p) IN
       IF ~d.ok THEN [x EXCEPT !.p = 0]
       ELSE LET y == Deliver(x.db, d.m) IN [p |-> d.n, db |-> y.db, out |-> x.out \o y.out]
Stream(s) == SX!FoldLeft(LAMBDA x, i : StreamStep(s, x), [p |-> 1, db |-> 0, out |-> <<>>], TLCEval([i \in 1..(1 + Len(s) \div 4) |-> i])).out

\* ------------------------------------------------------------ the local copy
Chars == JsonDeserialize("chars.json")
Str(b) == SX!FoldLeft(LAMBDA x, c : x \o Chars[c + 1], "", b)
(* a command that arrives: words and, for a deadline, how far away it is *)
Command(kind, words, n) == [op |-> "Msg", kind |-> kind, args |-> words, n |-> n]
FromNow(w) == ToInt(SubSeq(w, IF Ch(w, 2) = "@" THEN 3 ELSE 2, Len(w)))
Relative(words) ==     \* "@n" stands for the moment n milliseconds from now, "@@n" for such a moment in seconds
  IF Len(words) = 3 /\ Lower(words[1]) \in {"expireat", "pexpireat"} /\ IsAt(words[3]) THEN FromNow(words[3])
  ELSE IF Len(words) > 4 /\ Lower(words[1]) = "set"
  THEN LET P == {i \in 5..Len(words) : IsAt(words[i]) /\ Lower(words[i - 1]) \in {"exat", "pxat"}}
       IN IF P = {} THEN 0 ELSE FromNow(words[CHOOSE i \in P : \A j \in P : i <= j])
  ELSE 0
(* what acts on all databases, whichever is selected *)
Everywhere(m) == Verb(m) = "flushall"
MsgCommand(m) == IF m.t # "array" THEN Command(m.t, <<>>, 0)
                 ELSE LET w == Words(m) IN Command("array", w, Relative(w))
ApplyMsg(s, m) == Apply(s, MsgCommand(m)).s
(* The same as a master means it: a key whose deadline passes while commands *)
(* on it are under way is still there for them, only nobody reads it, until  *)
(* the master deletes it.  The client forgets such keys instead, which is a  *)
(* known finding.                                                            *)
LOCAL Later == 2000000001
ApplyKept(s, m) ==
  LET a == ApplyMsg([k \in DOMAIN s |-> IF s[k].x = -1 THEN [s[k] EXCEPT !.x = Later] ELSE s[k]], m)
  IN [k \in DOMAIN a |-> IF a[k].x = Later THEN [a[k] EXCEPT !.x = -1] ELSE a[k]]
(* a snapshot: the states of the copy of database 0 while it is loaded, the *)
(* empty one first; at maps deadlines (texts) to the time left              *)
Deadline(at, text) == at[CHOOSE i \in 1..Len(at) : at[i].t = text].n
Loading(b, scores, at) ==
  LET l == RD!Load(b, scores)
      step(x, c) ==
        IF c.d # 0 THEN x
        ELSE LET w == TLCEval(<<c.n>> \o [i \in 1..Len(c.a) |-> Str(c.a[i])])
             IN Append(x, Apply(x[Len(x)], Command("array", w, IF c.n = "pexpireat" THEN Deadline(at, w[3]) ELSE 0)).s)
  IN [k |-> l.k, off |-> Str(l.st.off), states |-> SX!FoldLeft(step, <<EmptyFn>>, l.m)]

\* ------------------------------------------------------------ reading
(* what the server answers to GET or SET, as a result of the client *)
LOCAL CL == INSTANCE Client
Answer(op, rep) == CL!Result([op |-> op], rep)
Same(x, y) == x.err = y.err /\ (~x.err => x.v = y.v)
(* Get of k when the copy is in state s; the server answers rep *)
Local(s, k) == Vis(s, k)
GetResult(s, k, rep) == IF IsStr(s, k) THEN [err |-> FALSE, v |-> s[k].v]
                        ELSE IF IsHash(s, k) THEN [err |-> TRUE, v |-> ""]
                        ELSE Answer("Get", rep)
============================================================================
