------------------------------ MODULE PoolLog ------------------------------
(* Recorded: logs of concurrent calls, by callers and server together.       *)
(*  start/end of call x (end: r = "own" its own reply, "err", "panic" of the *)
(*  caller's own handler, or else what it got), cancel of its context; accept, recv (request of call x on       *)
(*  connection c), reply, sclose (the server is about to close c), eof,      *)
(*  garble (c gets a reply without sense and is to be replaced);             *)
(*  down/up of the server; closing/closed around Close of the pool;          *)
(*  take/give of a connection by call x; full/short: as many calls as the    *)
(*  pool has places were (not) served at the same moment; shut/stillopen:    *)
(*  closing the unused pool closed all connections or did not.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceFile, Judge
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i, st, bad19, bad20
vars == <<t, i, st, bad19, bad20>>
Start == [open |-> {},      \* connections
          pend |-> <<>>,    \* connection -> the call it serves, 0 if none
          taken |-> {},     \* connections in the hands of a caller
          active |-> {},    \* calls that have started
          excused |-> {},   \* calls that met an unreachable server or a pool being closed, or whose context ended
          answered |-> {},  \* calls that were answered
          up |-> TRUE, closing |-> FALSE,
          broken |-> 0,     \* connections the server broke
          fails |-> 0]      \* failures that only a broken connection explains
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Start /\ bad19 = "" /\ bad20 = ""
Cap == Traces[t].cap
(* closing the pool may replace a connection before the server sees its end *)
Strict == Traces[t].run.pclose = 0
B(b, text) == IF b THEN text ELSE ""
Step(s, e) ==
  CASE e.e = "start" -> [s EXCEPT !.active = @ \cup {e.x},
                                  !.excused = IF s.up /\ ~s.closing THEN @ ELSE @ \cup {e.x}]
    [] e.e = "end" -> [s EXCEPT !.active = @ \ {e.x}, !.fails = @ + (IF e.r = "err" /\ e.x \notin s.excused THEN 1 ELSE 0)]
    [] e.e = "cancel" -> [s EXCEPT !.excused = @ \cup {e.x}]
    [] e.e = "accept" -> [s EXCEPT !.open = @ \cup {e.c}, !.pend = (e.c :> 0) @@ @]
    [] e.e = "recv" -> [s EXCEPT !.pend[e.c] = e.x]
    [] e.e = "reply" -> [s EXCEPT !.pend[e.c] = 0, !.answered = @ \cup {e.x}]
    [] e.e = "take" -> [s EXCEPT !.taken = @ \cup {e.c}]
    [] e.e = "give" -> [s EXCEPT !.taken = @ \ {e.c}]
    [] e.e = "sclose" -> [s EXCEPT !.open = @ \ {e.c}, !.broken = @ + 1]
    [] e.e = "garble" -> [s EXCEPT !.open = @ \ {e.c}, !.pend[e.c] = 0, !.broken = @ + 1]
    [] e.e = "eof" -> [s EXCEPT !.open = @ \ {e.c}]
    [] e.e = "down" -> \* connections not yet accepted are lost
                       [s EXCEPT !.up = FALSE, !.excused = @ \cup s.active, !.broken = @ + (Cap - Cardinality(s.open))]
    [] e.e = "up" -> [s EXCEPT !.up = TRUE]
    [] e.e = "closing" -> [s EXCEPT !.closing = TRUE, !.excused = @ \cup s.active]
    [] e.e = "closed" -> [s EXCEPT !.closing = FALSE]
    [] e.e \in {"full", "short", "shut", "stillopen"} -> s
Judge19(s, e) ==
  CASE e.e = "end" -> IF e.r \notin {"own", "err", "panic"} THEN "wrong reply"
                      ELSE B(e.r = "own" /\ e.x \notin s.answered, "a reply nobody sent")
    [] e.e = "accept" -> B(Strict /\ Cardinality(s.open) >= Cap, "too many connections")
    [] e.e = "recv" -> B(s.pend[e.c] # 0, "two callers on one connection")
    [] e.e = "take" -> B(e.c \in s.taken, "a connection is handed to two callers")
    [] OTHER -> ""
Judge20(s, e) ==
  CASE e.e = "end" -> B(Step(s, e).fails > s.broken, "more failures than broken connections")
    [] e.e = "short" -> "capacity is lost"
    [] e.e = "stillopen" -> "closing the pool leaves connections open"
    [] OTHER -> ""
Next ==
  /\ i <= Len(Traces[t].ev) /\ (IF Judge = "C19" THEN bad19 ELSE bad20) = ""
  /\ i' = i + 1 /\ t' = t
  /\ LET e == Traces[t].ev[i] IN st' = Step(st, e) /\ bad19' = Judge19(st, e) /\ bad20' = Judge20(st, e)
Spec == Init /\ [][Next]_vars
Bad == IF Judge = "C19" THEN bad19 ELSE bad20
Conforms == Bad = ""
(* a log ends when every call has come back *)
Finished == i > Len(Traces[t].ev) => st.active = {}
Alias == [t |-> t, i |-> i - 1, bad |-> Bad, active |-> st.active]
============================================================================
