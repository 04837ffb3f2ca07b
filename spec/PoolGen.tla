------------------------------ MODULE PoolGen ------------------------------
(* The pool between calls, when nothing moves: which callers hold or wait,   *)
(* which connections are idle, whether the server can be reached.  Idle      *)
(* connections and waiting callers are served first come first served.       *)
(* Every transition is printed; PoolTrace judges what the real pool does,    *)
(* this module only proposes what to try and how much to expect.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,         \* callers 1..N
          Cap, Faults, Slow, Emit
Procs == 1..N
VARIABLES mode,   \* "up", "down" (nobody listens), "refuse" (greeting refused),
                  \* "hang" (connecting takes forever), "mute" (no answer to anything)
          idle,   \* sequence of "ok", "dead" (closed by the server), "broken" (known to be)
          held,   \* per caller: one of these, "dial" (its attempt lasts), "use" (its request lasts), or "no"
          wait    \* sequence of callers
vars == <<mode, idle, held, wait>>
St == [mode |-> mode, idle |-> idle, held |-> held, wait |-> wait]

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Busy(st) == {p \in Procs : st.held[p] # "no"}
Places(st) == Len(st.idle) + Cardinality(Busy(st))
Lasting == {p \in Procs : held[p] \in {"dial", "use"}}
Free(p) == held[p] = "no" /\ ~InSeq(p, wait)

(* caller p takes the first idle connection or opens one: new state, and whether it got one *)
Can(st) == Len(st.idle) > 0 \/ Places(st) < Cap
Acquire(st, p) ==
  LET some == Len(st.idle) > 0
      fresh == ~some \/ Head(st.idle) = "broken"
      rest == IF some THEN Tail(st.idle) ELSE <<>>
  IN IF ~fresh THEN [st EXCEPT !.idle = rest, !.held[p] = Head(st.idle)]
     ELSE IF st.mode = "up" THEN [st EXCEPT !.idle = rest, !.held[p] = "ok"]
     ELSE IF st.mode \in {"hang", "mute"} THEN [st EXCEPT !.idle = rest, !.held[p] = "dial"]
     ELSE [st EXCEPT !.idle = Append(rest, "broken")]
RECURSIVE Serve(_, _)
Serve(st, n) ==    \* n: how many waiting callers are done
  IF Len(st.wait) > 0 /\ Can(st)
  THEN LET a == Acquire(st, Head(st.wait))
       IN Serve([a EXCEPT !.wait = Tail(st.wait)], n + (IF a.held[Head(st.wait)] = "dial" THEN 0 ELSE 1))
  ELSE [st |-> st, n |-> n]

Do(op, p, m) ==
  CASE op = "Get" -> IF Can(St) THEN LET a == Acquire(St, p) IN [st |-> a, n |-> IF a.held[p] = "dial" THEN 0 ELSE 1]
                     ELSE [st |-> [St EXCEPT !.wait = Append(wait, p)], n |-> 0]
    [] op = "Put" -> Serve([St EXCEPT !.idle = Append(idle, held[p]), !.held[p] = "no"], 0)
    [] op = "Use" /\ mode = "mute" /\ held[p] = "ok" -> [st |-> [St EXCEPT !.held[p] = "use"], n |-> 0]
    [] op = "Use" -> [st |-> [St EXCEPT !.held[p] = IF @ = "ok" THEN "ok" ELSE "broken"], n |-> 1]
    [] op = "Kill" /\ held[p] = "use" -> [st |-> [St EXCEPT !.held[p] = "broken"], n |-> 1]
    [] op = "Kill" -> [st |-> [St EXCEPT !.held[p] = "dead"], n |-> 0]
    [] op = "KillIdle" -> [st |-> [St EXCEPT !.idle = [i \in 1..Len(idle) |-> IF idle[i] = "ok" THEN "dead" ELSE idle[i]]], n |-> 0]
    [] op = "Cancel" /\ held[p] = "dial" -> Serve([St EXCEPT !.idle = Append(idle, "broken"), !.held[p] = "no"], 1)
    \* nobody waits for the reply any more: the connection is of no use
    [] op = "Cancel" /\ held[p] = "use" -> [st |-> [St EXCEPT !.held[p] = "broken"], n |-> 1]
    [] op = "Cancel" -> [st |-> [St EXCEPT !.wait = SelectSeq(wait, LAMBDA q : q # p)], n |-> 1]
    [] op = "Close" -> [st |-> [St EXCEPT !.idle = [i \in 1..Len(idle) |-> "broken"]], n |-> 0]
    [] op = "Mode" -> [st |-> [St EXCEPT !.mode = m, !.held = [q \in Procs |-> IF q \in Lasting THEN "ok" ELSE @[q]]], n |-> Cardinality(Lasting)]
Enabled(op, p, m) ==
  CASE op = "Get" -> Free(p) /\ \A q \in Procs : q < p => ~Free(q)
    [] op = "Put" -> held[p] \notin {"no", "dial", "use"}
    [] op = "Use" -> held[p] \notin {"no", "dial", "use"}
    [] op = "Kill" -> Faults /\ held[p] \in {"ok", "use"}
    [] op = "KillIdle" -> Faults /\ p = 1 /\ InSeq("ok", idle)
    [] op = "Cancel" -> InSeq(p, wait) \/ p \in Lasting
    [] op = "Close" -> Faults /\ p = 1
    [] op = "Mode" -> /\ Faults /\ p = 1 /\ m # mode
                      /\ m \in {"hang", "mute"} => Slow
                      \* they are only let through all at once, with an answer
                      /\ Lasting # {} => mode = "mute" /\ m = "up"
OpenOf(st) == Cardinality({i \in 1..Len(st.idle) : st.idle[i] = "ok"})
              + Cardinality({p \in Procs : st.held[p] \in {"ok", "use"} \/ (st.held[p] = "dial" /\ st.mode = "mute")})

Init == mode = "up" /\ idle = <<>> /\ held = [p \in Procs |-> "no"] /\ wait = <<>>
Step(op, p, m) ==
  LET d == Do(op, p, m) IN
  /\ Enabled(op, p, m)
  /\ mode' = d.st.mode /\ idle' = d.st.idle /\ held' = d.st.held /\ wait' = d.st.wait
  /\ Emit => PrintT(ToJson([src |-> St, op |-> op, p |-> p, m |-> m, n |-> d.n, open |-> OpenOf(d.st), dst |-> d.st]))
Next == \E p \in Procs :
          \/ \E op \in {"Get", "Put", "Use", "Kill", "KillIdle", "Cancel", "Close"} : Step(op, p, "")
          \/ \E m \in {"up", "down", "refuse", "hang", "mute"} : Step("Mode", p, m)
Spec == Init /\ [][Next]_vars

Bounded == Places(St) <= Cap /\ OpenOf(St) <= Cap
(* nobody waits while there is something to take *)
NoWaste == Len(wait) > 0 => ~Can(St)
===========================================================================
