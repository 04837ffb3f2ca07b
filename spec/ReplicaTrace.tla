---------------------------- MODULE ReplicaTrace ----------------------------
(* Recorded runs of a client against a scripted master and server.  Commands *)
(* sent are applied in order, at moments nobody sees: the copy is in one of  *)
(* the states ss, the first being the oldest it can still be in.  A reading  *)
(* rules out the states that would have given another result, and with them *)
(* all that are older than the first that fits.  t: milliseconds since the start, *)
(* before anything is sent and after a reading; readings near a deadline are *)
(* marked (amb).                                                             *)
EXTENDS Replica
CONSTANTS TraceFile, Judge,
          Kept    \* judge what was under way at a deadline as the master means it
LOCAL SQ == INSTANCE SequencesExt
Recs == ndJsonDeserialize(TraceFile)
VARIABLES t, i, now, ss, db, up, bad
vars == <<t, i, now, ss, db, up, bad>>
Init == t \in 1..Len(Recs) /\ i = 1 /\ now = 0 /\ ss = <<>> /\ db = 0 /\ up = TRUE /\ bad = ""
First(s) == IF \E k \in 1..Len(s) : s[k] # "" THEN s[CHOOSE k \in 1..Len(s) : s[k] # "" /\ \A j \in 1..(k-1) : s[j] = ""] ELSE ""
B(b, text) == IF b THEN text ELSE ""

(* the states after more messages *)
Feed(ms, d, states) ==
  SQ!FoldLeft(LAMBDA x, m :
    LET y == Deliver(x.db, m) IN
    IF y.out = <<>> \/ (y.out[1].d # 0 /\ ~Everywhere(m)) THEN [db |-> y.db, ss |-> x.ss]
    ELSE LET old == x.ss[Len(x.ss)]  new == IF Kept THEN ApplyKept(old, m) ELSE ApplyMsg(old, m) IN
         [db |-> y.db, ss |-> IF new = old THEN x.ss ELSE Append(x.ss, new)],
    [db |-> d, ss |-> states], ms)
Last(states) == SubSeq(states, Len(states), Len(states))
From(states, ok(_)) ==   \* from the first that fits on; none if none does
  LET n == SQ!SelectInSeq(states, ok) IN IF n = 0 THEN <<>> ELSE SubSeq(states, n, Len(states))

NoServer == [kind |-> "close"]
(* one reading of k with result r: requests q reached the server *)
GetOK(s, e) ==
  /\ Same(e.r, GetResult(s, e.k, e.rep))
  /\ Judge = "C30" => e.reqs = (IF Local(s, e.k) \/ e.rep.kind = "down" THEN <<>> ELSE e.reqs)
  /\ Judge = "C30" /\ ~Local(s, e.k) /\ e.rep.kind # "down" =>
        Len(e.reqs) = 1 /\ Len(e.reqs[1]) = 2 /\ Lower(e.reqs[1][1]) = "get" /\ e.reqs[1][2] = e.k
SetOK(e) == /\ Len(e.reqs) = (IF e.rep.kind = "down" THEN 0 ELSE 1)
            /\ e.reqs # <<>> => Len(e.reqs[1]) = 3 /\ Lower(e.reqs[1][1]) = "set" /\ e.reqs[1][2] = e.k /\ e.reqs[1][3] = e.v
            /\ Same(e.r, Answer("Set", e.rep))
RaceOK(states, reads) ==
  SQ!FoldLeft(LAMBDA x, q : IF x = <<>> THEN x ELSE From(x, LAMBDA s : Same(q.r, GetResult(s, q.k, NoServer))), states, reads)

Step(e, old) ==
  LET f == IF up THEN Feed(e.ms, db, old) ELSE [db |-> db, ss |-> old] IN
  CASE e.e \in {"send", "drain", "lose"} ->
         /\ db' = f.db /\ ss' = (IF e.k # "" /\ e.ok THEN Last(f.ss) ELSE f.ss)
         /\ up' = (up /\ e.e # "lose")
         /\ bad' = B(Judge # "C30" /\ ~e.ok, "what was sent is never applied")
    [] e.e = "get" ->
         LET g == IF e.amb THEN old ELSE From(old, LAMBDA s : GetOK(s, e)) IN
         /\ ss' = g /\ UNCHANGED <<db, up>> /\ bad' = B(g = <<>>, "a read gives what the copy and the server can not give")
    [] e.e = "set" -> ss' = old /\ UNCHANGED <<db, up>> /\ bad' = B(Judge = "C30" /\ ~SetOK(e), "a write is not answered by the server")
    [] e.e = "wait" -> ss' = old /\ UNCHANGED <<db, up>> /\ bad' = ""
    [] e.e = "race" ->
         /\ db' = f.db /\ ss' = f.ss /\ up' = up
         /\ bad' = B(~e.amb /\ \E g \in 1..Len(e.reads) : RaceOK(f.ss, e.reads[g]) = <<>>, "concurrent reads give what the copy never was")
Next ==
  /\ bad = "" /\ t' = t
  /\ IF Recs[t].kind = "idle"
     THEN /\ i = 1 /\ i' = 2 /\ UNCHANGED <<now, ss, db, up>>
          /\ bad' = B(Judge = "C31" /\ Recs[t].cpu * 100 > 40 * Recs[t].wall, "the process works without having anything to do")
     ELSE LET ev == Recs[t].ev IN
          /\ i <= Len(ev) /\ i' = i + 1 /\ now' = ev[i].t
          /\ IF i = 1
             THEN LET l == Loading(Recs[t].b, Recs[t].scores, Recs[t].at) IN
                  /\ ss' = l.states /\ UNCHANGED <<db, up>>
                  /\ bad' = First(<<B(ev[1].ok # (l.k = "eof"), "starting a client"), B(l.k = "gray", "the check uses a snapshot without meaning")>>)
             ELSE Step(ev[i], IF ev[i].t = now THEN ss ELSE TLCEval([k \in 1..Len(ss) |-> Advance(ss[k], ev[i].t - now)]))
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Alias == [t |-> t, i |-> i - 1, bad |-> bad, ss |-> ss]
============================================================================
