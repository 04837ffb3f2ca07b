--------------------------- MODULE PatienceTrace ---------------------------
(* Recorded: scenarios on the real client, [cfg, ev]; an event is a step     *)
(* with the calls that came back before the server's mood changed (done) and *)
(* after it was up again (later): r is "own", "err" or what it got, ms how   *)
(* long the call took.                                                       *)
EXTENDS Patience, Json
CONSTANTS TraceFile, Slack
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i, fresh, bad
vars == <<t, i, fresh, bad>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ fresh = TRUE /\ bad = ""
All(s, r) == \A k \in 1..Len(s) : s[k].r = r
Judge(cfg, e) ==
  LET o == Outcome(cfg, e.mood, fresh)
      b == Bounds(cfg, e.mood, fresh)
      back == Len(e.done) + Len(e.later)
  IN CASE \E k \in 1..Len(e.done) : e.done[k].r \notin {"own", "err"} -> "the reply to another call"
       [] back < e.calls -> "a call never came back"
       [] o = "own" -> IF e.later # <<>> \/ ~All(e.done, "own") THEN "a call on a server that answers fails" ELSE ""
       [] o = "err" -> IF e.later # <<>> \/ \E k \in 1..Len(e.done) : e.done[k].ms > e.calls * Min(b) + Slack
                       THEN "a call lasts longer than it may"
                       ELSE IF ~All(e.done, "err") THEN "a reply nobody sent"
                       ELSE IF \E k \in 1..Len(e.done) : e.done[k].ms < Min(b) THEN "a call ends before its time" ELSE ""
       [] o = "lasts" -> IF e.done # <<>> THEN "a call ends though nothing bounds it"
                         ELSE IF ~All(e.later, "own") THEN "a call on a server that answers fails" ELSE ""
Next == /\ i <= Len(Traces[t].ev) /\ bad = ""
        /\ LET e == Traces[t].ev[i] IN
           bad' = Judge(Traces[t].cfg, e) /\ fresh' = Fresh(Traces[t].cfg, e.mood, fresh)
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Alias == [t |-> t, i |-> i - 1, bad |-> bad]
============================================================================
