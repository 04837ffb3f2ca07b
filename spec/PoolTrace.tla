----------------------------- MODULE PoolTrace -----------------------------
(* Recorded: what the real pool did step by step.  Any pool that keeps its   *)
(* promises is accepted, whatever order it serves in.  An event is           *)
(* [op, p, m, done, res, open]: done lists the callers that came back during *)
(* the step with the connection they got (0: an error), or, with an outcome  *)
(* r, from using the one they have; res says that the step did not end, open *)
(* is the number of connections the server has open afterwards.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceFile, Judge      \* Judge: "C19" or "C20"
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i, mode, idle, held, wait, using, stat, ok19, ok20
vars == <<t, i, mode, idle, held, wait, using, stat, ok19, ok20>>
Procs == 1..5
Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ mode = "up" /\ idle = {} /\ held = [p \in Procs |-> 0]
        /\ wait = {} /\ using = {} /\ stat = <<>> /\ ok19 = TRUE /\ ok20 = TRUE

Busy(h) == {p \in Procs : h[p] # 0}
FreeOf(st) == Traces[t].cap - Cardinality(st.idle) - Cardinality(Busy(st.held))
(* one caller comes back with connection c *)
Back(st, d) ==
  LET fresh == d.c \notin DOMAIN st.stat
      good19 == d.c # 0 => \A q \in Procs : st.held[q] # d.c
      good20 == /\ d.p \in st.wait
                /\ IF d.c = 0 THEN st.mode \in {"down", "refuse"} /\ FreeOf(st) > 0
                   ELSE IF fresh THEN st.mode = "up" /\ FreeOf(st) > 0
                   ELSE d.c \in st.idle
  IN [st EXCEPT !.held = IF d.c = 0 THEN @ ELSE [@ EXCEPT ![d.p] = d.c],
                !.idle = @ \ {d.c}, !.wait = @ \ {d.p},
                !.stat = IF d.c # 0 /\ fresh THEN (d.c :> "ok") @@ @ ELSE @,
                !.ok19 = @ /\ good19, !.ok20 = @ /\ good20]
(* one caller comes back from using its connection *)
Used(st, d) ==
  LET s == IF d.c \in DOMAIN st.stat THEN st.stat[d.c] ELSE "unknown" IN
  [st EXCEPT !.using = @ \ {d.p},
             !.stat = IF d.c \in DOMAIN @ /\ s # "ok" THEN [@ EXCEPT ![d.c] = "broken"] ELSE @,
             !.ok19 = @ /\ d.r \in {"own", "err"},
             !.ok20 = @ /\ d.p \in st.using /\ st.held[d.p] = d.c
                        /\ IF s = "ok" THEN d.r = "own" /\ st.mode # "mute" ELSE d.r = "err"]
RECURSIVE Backs(_, _, _)
Backs(st, done, k) == IF k > Len(done) THEN st
                      ELSE Backs(IF done[k].r # "" THEN Used(st, done[k]) ELSE Back(st, done[k]), done, k + 1)

St == [mode |-> mode, idle |-> idle, held |-> held, wait |-> wait, using |-> using, stat |-> stat, ok19 |-> TRUE, ok20 |-> TRUE]
(* the effect of the step itself; a connection known to be broken frees its place *)
Begin(e) ==
  CASE e.op = "Get" -> [St EXCEPT !.wait = @ \cup {e.p}]
    [] e.op = "Put" -> [St EXCEPT !.held[e.p] = 0,
                                  !.idle = IF stat[held[e.p]] = "broken" THEN @ ELSE @ \cup {held[e.p]}]
    [] e.op = "Use" -> [St EXCEPT !.using = @ \cup {e.p}]
    [] e.op = "Kill" -> [St EXCEPT !.stat[held[e.p]] = IF @ = "ok" THEN "dead" ELSE @]
    [] e.op = "KillIdle" -> [St EXCEPT !.stat = [c \in DOMAIN @ |-> IF c \in idle /\ @[c] = "ok" THEN "dead" ELSE @[c]]]
    [] e.op = "Close" -> [St EXCEPT !.idle = {}, !.stat = [c \in DOMAIN @ |-> IF c \in idle THEN "broken" ELSE @[c]]]
    [] e.op = "Mode" -> [St EXCEPT !.mode = e.m]
    [] e.op = "Cancel" -> St
End(e) ==
  IF e.op = "Cancel"     \* exactly this caller comes back, with an error
  THEN IF e.p \in using   \* and its connection is not used again
       THEN [St EXCEPT !.using = @ \ {e.p}, !.stat[held[e.p]] = "broken",
                       !.ok20 = e.done = <<[p |-> e.p, c |-> held[e.p], r |-> "err"]>>]
       ELSE [St EXCEPT !.wait = @ \ {e.p}, !.ok20 = e.done = <<[p |-> e.p, c |-> 0, r |-> ""]>>]
  ELSE Backs(Begin(e), e.done, 1)
Alive(st) == Cardinality({c \in DOMAIN st.stat : st.stat[c] = "ok" /\ (c \in st.idle \/ \E p \in Procs : st.held[p] = c)})

Next == /\ i <= Len(Traces[t].ev) /\ (IF Judge = "C19" THEN ok19 ELSE ok20)
        /\ LET e == Traces[t].ev[i]  st == End(e) IN
           /\ mode' = st.mode /\ idle' = st.idle /\ held' = st.held /\ wait' = st.wait /\ using' = st.using /\ stat' = st.stat
           /\ ok19' = (st.ok19 /\ e.open <= Traces[t].cap)
           /\ ok20' = (/\ st.ok20 /\ e.res # "blocked"
                       \* while greetings are not answered more may be open
                       /\ IF st.mode = "mute" THEN e.open >= Alive(st) ELSE e.open = Alive(st)
                       \* only a server that does not answer makes a request last
                       /\ \A p \in st.using : st.mode = "mute" /\ st.stat[st.held[p]] = "ok"
                       \* nobody is left waiting who could be served; attempts that last
                       \* keep only those waiting who make them, on a free place each
                       /\ IF st.mode \in {"hang", "mute"} THEN st.idle = {} \/ Cardinality(st.wait) <= FreeOf(st)
                          ELSE st.wait # {} => st.idle = {} /\ FreeOf(st) <= 0)
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Conforms == IF Judge = "C19" THEN ok19 ELSE ok20
Alias == [t |-> t, i |-> i - 1, st |-> <<mode, idle, held, wait, using, stat>>]
============================================================================
