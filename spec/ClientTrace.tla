---------------------------- MODULE ClientTrace ----------------------------
(* Recorded: [opt, ev]; an event is [c, reply, hs, reqs, res], reqs being    *)
(* what the server saw during the call: [n |-> connection, w |-> words].     *)
EXTENDS Client
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i, conn, id, want, ok
vars == <<t, i, conn, id, want, ok>>

Init == t \in 1..Len(Traces) /\ i = 1 /\ conn = "none" /\ id = 0 /\ want = Err /\ ok = TRUE
Same(c, w, g) == /\ w.err = g.err
                 /\ w.err \/ IF c.op = "MGet"
                             THEN /\ Len(w.v) = Len(g.v)
                                  /\ \A j \in 1..Len(w.v) : w.v[j].err = g.v[j].err /\ (w.v[j].err \/ w.v[j].v = g.v[j].v)
                             ELSE w.v = g.v
Next == /\ ok /\ i <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i]
               opt == Traces[t].opt
               g == Greetings(opt)
               x == Call(opt, conn, e.c, e.reply, e.hs)
               n == x.greet + (IF x.asked THEN 1 ELSE 0)
               same == \A a, b \in 1..Len(e.reqs) : e.reqs[a].n = e.reqs[b].n
           IN /\ ok' = (/\ Len(e.reqs) = n
                        /\ same
                        /\ (n > 0 /\ conn = "open") => e.reqs[1].n = id
                        /\ (n > 0 /\ conn # "open") => e.reqs[1].n # id
                        /\ \A j \in 1..x.greet : IsGreeting(g[j], e.reqs[j].w)
                        /\ x.asked => IsRequest(e.c, e.reqs[n].w)
                        /\ Same(e.c, x.res, e.res))
              /\ want' = x
              /\ conn' = x.conn
              /\ id' = IF Len(e.reqs) > 0 THEN e.reqs[1].n ELSE id
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Conforms == ok
Alias == [t |-> t, i |-> i - 1, want |-> want]
============================================================================
