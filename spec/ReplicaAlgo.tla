---------------------------- MODULE ReplicaAlgo ----------------------------
(* The goroutines of a client and the two channels between them.  Loading    *)
(* hands over the snapshot's commands; then the stream is received, and an   *)
(* acknowledgement is sent every second; one goroutine applies commands and  *)
(* takes errors.  The master may go away at any point and the snapshot may   *)
(* be damaged.                                                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Snap, Stream,      \* how many commands the snapshot and the stream hold
          Cap,               \* room in the channel of commands
          Damage,            \* commands before the damage in the snapshot, more than Snap: none
          Acks               \* acknowledgements tried at most

VARIABLES loader,    \* "load", "ok", "failed"
          loaded,    \* commands of the snapshot handed over
          recv,      \* "off", "recv", "report", "close", "end"
          got,       \* commands of the stream handed over
          sent,      \* commands the master has written
          up,        \* the master is there
          acker,     \* "off", "wait", "report"
          acks,
          msgs, errs, closed,     \* the channels
          applier,   \* "both": takes commands and errors; "errors": only errors
          applied,
          seen,      \* errors taken
          spun       \* times the end of the commands has been seen
vars == <<loader, loaded, recv, got, sent, up, acker, acks, msgs, errs, closed, applier, applied, seen, spun>>

Init == /\ loader = "load" /\ loaded = 0 /\ recv = "off" /\ got = 0 /\ sent = 0 /\ up = TRUE /\ acker = "off" /\ acks = 0
        /\ msgs = <<>> /\ errs = 0 /\ closed = FALSE /\ applier = "both" /\ applied = <<>> /\ seen = 0 /\ spun = 0

Load == /\ loader = "load"
        /\ IF loaded = Damage THEN loader' = "failed" /\ UNCHANGED <<loaded, recv, acker, msgs>>
           ELSE IF loaded < Snap THEN /\ Len(msgs) < Cap /\ loaded' = loaded + 1 /\ msgs' = Append(msgs, <<"snap", loaded'>>) /\ UNCHANGED <<loader, recv, acker>>
           ELSE loader' = "ok" /\ recv' = "recv" /\ acker' = "wait" /\ UNCHANGED <<loaded, msgs>>
        /\ UNCHANGED <<got, sent, up, acks, errs, closed, applier, applied, seen, spun>>
Write == /\ up /\ sent < Stream /\ sent' = sent + 1
         /\ UNCHANGED <<loader, loaded, recv, got, up, acker, acks, msgs, errs, closed, applier, applied, seen, spun>>
Leave == /\ up /\ up' = FALSE
         /\ UNCHANGED <<loader, loaded, recv, got, sent, acker, acks, msgs, errs, closed, applier, applied, seen, spun>>
Recv == /\ recv = "recv"
        /\ IF got < sent THEN /\ Len(msgs) < Cap /\ got' = got + 1 /\ msgs' = Append(msgs, <<"stream", got'>>) /\ UNCHANGED recv
           ELSE ~up /\ recv' = "report" /\ UNCHANGED <<got, msgs>>
        /\ UNCHANGED <<loader, loaded, sent, up, acker, acks, errs, closed, applier, applied, seen, spun>>
Report == /\ recv = "report" /\ errs < 1 /\ errs' = errs + 1 /\ recv' = "close"
          /\ UNCHANGED <<loader, loaded, got, sent, up, acker, acks, msgs, closed, applier, applied, seen, spun>>
Close == /\ recv = "close" /\ closed' = TRUE /\ recv' = "end"
         /\ UNCHANGED <<loader, loaded, got, sent, up, acker, acks, msgs, errs, applier, applied, seen, spun>>
Ack == /\ acker = "wait" /\ acks < Acks /\ acks' = acks + 1
       /\ acker' = IF up THEN "wait" ELSE "report"
       /\ UNCHANGED <<loader, loaded, recv, got, sent, up, msgs, errs, closed, applier, applied, seen, spun>>
AckReport == /\ acker = "report" /\ errs < 1 /\ errs' = errs + 1 /\ acker' = "wait"
             /\ UNCHANGED <<loader, loaded, recv, got, sent, up, acks, msgs, closed, applier, applied, seen, spun>>
Apply == /\ applier = "both" /\ msgs # <<>> /\ applied' = Append(applied, Head(msgs)) /\ msgs' = Tail(msgs)
         /\ UNCHANGED <<loader, loaded, recv, got, sent, up, acker, acks, errs, closed, applier, seen, spun>>
End == /\ applier = "both" /\ msgs = <<>> /\ closed /\ applier' = "errors" /\ spun' = spun + 1
       /\ UNCHANGED <<loader, loaded, recv, got, sent, up, acker, acks, msgs, errs, closed, applied, seen>>
Take == /\ errs > 0 /\ errs' = errs - 1 /\ seen' = seen + 1
        /\ UNCHANGED <<loader, loaded, recv, got, sent, up, acker, acks, msgs, closed, applier, applied, spun>>

Next == Load \/ Write \/ Leave \/ Recv \/ Report \/ Close \/ Ack \/ AckReport \/ Apply \/ End \/ Take
(* the applying goroutine chooses at random among what is ready, so both of its branches are taken in the end *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Load) /\ WF_vars(Recv) /\ WF_vars(Report) /\ WF_vars(Close) /\ WF_vars(AckReport)
        /\ SF_vars(Apply) /\ WF_vars(End) /\ SF_vars(Take)

--------------------------------------------------------------------------------
History == [i \in 1..Snap |-> <<"snap", i>>] \o [i \in 1..Stream |-> <<"stream", i>>]
InOrder == /\ Len(applied) + Len(msgs) <= Len(History)
           /\ applied \o msgs = SubSeq(History, 1, Len(applied) + Len(msgs))
NoStreamBeforeSnapshot == got > 0 => loaded = Snap
DamagedNotFollowed == loader = "failed" => got = 0 /\ acks = 0
NothingAfterTheEnd == closed => recv = "end"
SeenOnce == spun <= 1          \* the end of the commands does not keep the client busy
Drained == []<>(msgs = <<>>)
Reported == [](loader = "ok" /\ ~up => <>(seen > 0))
Ended == [](loader = "ok" /\ ~up => <>(applier = "errors"))
ErrorsTaken == []<>(errs = 0)
(* a loss of the master loses nothing it had sent *)
Delivered == \A n \in 1..Stream : [](loader = "ok" /\ sent >= n => <>(Len(applied) >= Snap + n))
================================================================================
