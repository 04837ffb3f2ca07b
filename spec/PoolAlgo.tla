----------------------------- MODULE PoolAlgo -----------------------------
(* The algorithm of the pool, one action per step that other goroutines can  *)
(* observe: the channel of idle connections and the count of places.  The    *)
(* lock only protects the count: nobody sleeps while holding it.             *)
(* Callers call again and again; the server goes away and comes back,        *)
(* connections break, waiting callers give up, the pool is closed.  "hang":  *)
(* attempts to connect and requests last until the server is back or the     *)
(* caller gives up; then the connection is not used again.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Cap, MaxFaults, Closer

VARIABLES pc,      \* where each caller is
          chan,    \* idle connections: "ok", "dead" (closed by the server) or "broken" (known to be)
          have,    \* the connection a caller holds: one of these or "none"
          size, up, faults, gone, closing
vars == <<pc, chan, have, size, up, faults, gone, closing>>

Init == /\ pc = [p \in Procs |-> "out"] /\ have = [p \in Procs |-> "none"]
        /\ chan = <<>> /\ size = 0 /\ up = "up" /\ faults = 0
        /\ gone = {}        \* callers whose context has ended
        /\ closing = "no"
Keep(v) == UNCHANGED v

Start(p) == /\ pc[p] = "out" /\ pc' = [pc EXCEPT ![p] = "try"] /\ gone' = gone \ {p}
            /\ Keep(<<chan, have, size, up, faults, closing>>)
TakeNow(p) == /\ pc[p] = "try"
              /\ IF chan # <<>> THEN /\ pc' = [pc EXCEPT ![p] = "check"] /\ have' = [have EXCEPT ![p] = Head(chan)] /\ chan' = Tail(chan)
                 ELSE pc' = [pc EXCEPT ![p] = "lock"] /\ Keep(<<have, chan>>)
              /\ Keep(<<size, up, faults, gone, closing>>)
(* a place is taken before the connection for it is there *)
Grow(p) == /\ pc[p] = "lock"
           /\ IF size >= Cap THEN pc' = [pc EXCEPT ![p] = "wait"] /\ Keep(<<size, have>>)
              ELSE size' = size + 1 /\ have' = [have EXCEPT ![p] = "broken"] /\ pc' = [pc EXCEPT ![p] = "check"]
           /\ Keep(<<chan, up, faults, gone, closing>>)
Take(p) == /\ pc[p] = "wait" /\ chan # <<>>
           /\ have' = [have EXCEPT ![p] = Head(chan)] /\ chan' = Tail(chan) /\ pc' = [pc EXCEPT ![p] = "check"]
           /\ Keep(<<size, up, faults, gone, closing>>)
GiveUp(p) == /\ pc[p] = "wait" /\ p \in gone /\ pc' = [pc EXCEPT ![p] = "fail"]
             /\ Keep(<<chan, have, size, up, faults, gone, closing>>)
Check(p) == /\ pc[p] = "check"    \* replace a connection known to be broken
            /\ IF have[p] # "broken" THEN pc' = [pc EXCEPT ![p] = "use"] /\ Keep(<<have, chan>>)
               ELSE \/ up = "up" /\ pc' = [pc EXCEPT ![p] = "use"] /\ have' = [have EXCEPT ![p] = "ok"] /\ Keep(chan)
                    \/ /\ up = "down" \/ p \in gone
                       /\ Len(chan) < Cap
                       /\ pc' = [pc EXCEPT ![p] = "fail"] /\ have' = [have EXCEPT ![p] = "none"] /\ chan' = Append(chan, "broken")
            /\ Keep(<<size, up, faults, gone, closing>>)
Use(p) == /\ pc[p] = "use" /\ pc' = [pc EXCEPT ![p] = "put"]
          /\ \/ /\ up # "hang" \/ have[p] # "ok"
                /\ have' = [have EXCEPT ![p] = IF @ = "dead" THEN "broken" ELSE @]
             \/ p \in gone /\ have' = [have EXCEPT ![p] = "broken"]
          /\ Keep(<<chan, size, up, faults, gone, closing>>)
Put(p) == /\ pc[p] = "put" /\ Len(chan) < Cap
          /\ chan' = Append(chan, have[p]) /\ have' = [have EXCEPT ![p] = "none"] /\ pc' = [pc EXCEPT ![p] = "out"]
          /\ Keep(<<size, up, faults, gone, closing>>)
Fail(p) == /\ pc[p] = "fail" /\ pc' = [pc EXCEPT ![p] = "out"]
           /\ Keep(<<chan, have, size, up, faults, gone, closing>>)

Fault == faults < MaxFaults /\ faults' = faults + 1
Down == Fault /\ up = "up" /\ up' \in {"down", "hang"} /\ Keep(<<pc, chan, have, size, gone, closing>>)
Up == up # "up" /\ up' = "up" /\ Keep(<<pc, chan, have, size, faults, gone, closing>>)
BreakHeld == Fault /\ \E p \in Procs : have[p] = "ok" /\ have' = [have EXCEPT ![p] = "dead"] /\ Keep(<<pc, chan, size, up, gone, closing>>)
BreakIdle == Fault /\ \E i \in 1..Len(chan) : chan[i] = "ok" /\ chan' = [chan EXCEPT ![i] = "dead"] /\ Keep(<<pc, have, size, up, gone, closing>>)
Cancel == Fault /\ \E p \in Procs : pc[p] # "out" /\ p \notin gone /\ gone' = gone \cup {p} /\ Keep(<<pc, chan, have, size, up, closing>>)
(* closing an idle connection keeps its place: the next one who takes it dials again *)
ClosePop == /\ Closer /\ closing = "no" /\ chan # <<>> /\ chan' = Tail(chan) /\ closing' = "popped" /\ Fault
            /\ Keep(<<pc, have, size, up, gone>>)
ClosePush == /\ closing = "popped" /\ Len(chan) < Cap /\ chan' = Append(chan, "broken") /\ closing' = "no"
             /\ Keep(<<pc, have, size, up, faults, gone>>)

Proc(p) == TakeNow(p) \/ Grow(p) \/ Take(p) \/ GiveUp(p) \/ Check(p) \/ Use(p) \/ Put(p) \/ Fail(p)
Next == (\E p \in Procs : Start(p) \/ Proc(p)) \/ Down \/ Up \/ BreakHeld \/ BreakIdle \/ Cancel \/ ClosePop \/ ClosePush
Spec == Init /\ [][Next]_vars /\ WF_vars(ClosePush)
        /\ \A p \in Procs : SF_vars(Take(p)) /\ WF_vars(TakeNow(p) \/ Grow(p) \/ GiveUp(p) \/ Check(p) \/ Use(p) \/ Put(p) \/ Fail(p))

Held == {p \in Procs : have[p] # "none"}
B(b) == IF b THEN 1 ELSE 0
(* every place is idle or held, so no failure ever takes one away *)
Places == size = Len(chan) + Cardinality(Held) + B(closing = "popped")
Bounded == size <= Cap
(* a send to the channel never blocks *)
NoBlock == (closing = "popped" => Len(chan) < Cap) /\ \A p \in Procs : pc[p] = "put" => Len(chan) < Cap
(* nobody waits while the pool has a place left *)
NoWaste == \A p \in Procs : pc[p] = "wait" => size = Cap
Open == Cardinality({p \in Procs : have[p] = "ok"}) + Cardinality({i \in 1..Len(chan) : chan[i] = "ok"})
OpenBounded == Open <= Cap
(* a call whose context has ended comes back, whatever the server does; and nobody is *)
(* kept from looking whether there is a place                                         *)
GivesUp == \A p \in Procs : pc[p] # "out" /\ p \in gone ~> pc[p] = "out"
NotHeldUp == \A p \in Procs : pc[p] = "lock" ~> pc[p] # "lock"
(* every call comes back if attempts to connect do not last forever *)
Heals == Spec /\ WF_vars(Up)
Returns == \A p \in Procs : pc[p] # "out" ~> pc[p] = "out"
===========================================================================
