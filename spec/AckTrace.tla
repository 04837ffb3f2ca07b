------------------------------ MODULE AckTrace ------------------------------
(* Recorded: a snapshot b and every request that came over the link to the   *)
(* master after it was sent (acks: t milliseconds after the request for it), *)
(* watched until to; New returned at from; the master hung up at lost (0:    *)
(* never).                                                                   *)
EXTENDS Replica
CONSTANT TraceFile
Recs == ndJsonDeserialize(TraceFile)
VARIABLES i, done, bad
vars == <<i, done, bad>>
B(b, text) == IF b THEN text ELSE ""
First(s) == IF \E k \in 1..Len(s) : s[k] # "" THEN s[CHOOSE k \in 1..Len(s) : s[k] # "" /\ \A j \in 1..(k-1) : s[j] = ""] ELSE ""
Verdict(r) ==
  LET l == Loading(r.b, r.scores, <<>>)
      end == IF r.lost > 0 THEN r.lost ELSE r.to
      secs == (end - r.from) \div 1000
      n == Len(r.acks)
  IN First(<<B(l.k # "eof", "the check uses a snapshot without meaning"),
             B(~r.ok, "starting a client"),
             B(\E k \in 1..n : LET w == r.acks[k].w IN ~(Len(w) = 3 /\ Lower(w[1]) = "replconf" /\ Lower(w[2]) = "ack"), "not an acknowledgement"),
             B(\E k \in 1..n : r.acks[k].w[3] # l.off, "not the offset of the snapshot"),
             B(\E k \in 1..n : r.acks[k].t < r.from - 50, "acknowledged before it was loaded"),
             B(n < secs - 1 \/ n > secs + 1, "not one per second"),
             B(\E k \in 2..n : r.acks[k].t - r.acks[k-1].t < 400, "two at a time")>>)
Init == i \in 1..Len(Recs) /\ done = FALSE /\ bad = ""
Next == ~done /\ done' = TRUE /\ bad' = Verdict(Recs[i]) /\ i' = i
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Alias == [i |-> i, bad |-> bad]
============================================================================
