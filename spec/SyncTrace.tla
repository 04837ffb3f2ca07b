----------------------------- MODULE SyncTrace -----------------------------
(* Recorded: a master that answers the ping with the bytes ping, the request *)
(* for a snapshot with the bytes sync, and ends the connection; what it was  *)
(* asked (reqs), the result of synchronizing (res), the file, the messages   *)
(* delivered afterwards (msgs) and whether an error (end) and the closing of *)
(* the stream (closed) followed.  addr: "down", nobody is there; "nodir",    *)
(* the file can not be created; "full", nothing can be written to it.        *)
EXTENDS Replica
CONSTANTS TraceFile, Judge
Recs == ndJsonDeserialize(TraceFile)
VARIABLES i, done, bad
vars == <<i, done, bad>>
B(b, text) == IF b THEN text ELSE ""
First(s) == IF \E k \in 1..Len(s) : s[k] # "" THEN s[CHOOSE k \in 1..Len(s) : s[k] # "" /\ \A j \in 1..(k-1) : s[j] = ""] ELSE ""

Asked(r, ping) == /\ Len(r.reqs) >= 1 /\ Len(r.reqs[1]) = 1 /\ Lower(r.reqs[1][1]) = "ping"
            /\ IsPong(ping) => Len(r.reqs) = 2 /\ Len(r.reqs[2]) > 0 /\ Lower(r.reqs[2][1]) \in {"sync", "psync"}
Front(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Want(r) == LET t == IF r.addr \in {"", "full"} /\ IsPong(r.ping) THEN Transfer(r.sync) ELSE NoFile IN
           IF r.addr = "full" /\ t.file # "" THEN NoFile ELSE t
(* the same bytes in several segmentations: runs *)
Verdict(r) ==
  LET w == Want(r)
      out == IF w.ok THEN Stream(w.rest) ELSE <<>>
      one(x) ==
        IF Judge = "C26"
        THEN First(<<B(r.addr = "" /\ ~Asked(x, r.ping), "asked the wrong things"),
                     B(r.addr # "" /\ ~w.ok /\ x.res # "err", "synchronized although " \o r.addr),
                     B(w.ok /\ x.res # "ok", "a good transfer fails"),
                     B(~w.ok /\ x.res # "err", "a bad transfer succeeds"),
                     B(w.ok /\ x.res = "ok" /\ x.file # w.file, "the file is not what was sent"),
                     B(w.ok /\ x.res = "ok" /\ Front(x.msgs) # Front(out), "the stream does not begin after the file")>>)
        ELSE IF ~w.ok \/ x.res # "ok" THEN ""
        ELSE First(<<B(x.msgs # out, "not the commands that were sent"),
                     B(~x.end, "the end is not reported"),
                     B(~x.closed, "the stream is not closed")>>)
  IN First([k \in 1..Len(r.runs) |-> one(r.runs[k])])
Init == i \in 1..Len(Recs) /\ done = FALSE /\ bad = ""
Next == ~done /\ done' = TRUE /\ bad' = Verdict(Recs[i]) /\ i' = i
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Alias == [i |-> i, bad |-> bad]
============================================================================
