------------------------------ MODULE KVLin ------------------------------
(* Concurrent histories recorded from the real cache must be linearizable:   *)
(* explained by some order of whole calls that respects real time.           *)
(*                                                                           *)
(* A history has calls [c |-> command, r |-> result] and a sequence ev of    *)
(* marks: n when call n starts, -n when it returns.  What a call does to the *)
(* cache happens at one moment in between, which is not recorded; confs is   *)
(* the set of all possibilities: the state of the cache and which of the     *)
(* open calls have taken effect already.  A call is forced to take effect    *)
(* when it returns; open calls may do so before it, in any order.            *)
EXTENDS KV
CONSTANT TraceFile
Histories == ndJsonDeserialize(TraceFile)

VARIABLES h, i, open, confs
vars == <<h, i, open, confs>>

Call(n) == Histories[h].calls[n]
Steps(conf, ops) ==   \* all effects of one more open call
  {LET a == Apply(conf.s, Call(n).c) IN
     [s |-> a.s, done |-> conf.done \cup {n}, good |-> RMatch(Call(n).c, a.r, Call(n).r)] : n \in ops \ conf.done}
RECURSIVE Reach(_, _, _, _)
Reach(front, acc, n, ops) ==
  IF front = {} THEN acc
  ELSE LET next == {[s |-> x.s, done |-> x.done] : x \in {y \in UNION {Steps(c, ops) : c \in front} : y.good}}
           hit == {c \in next : n \in c.done}
       IN Reach(next \ hit, acc \cup hit, n, ops)
Complete(n) ==
  LET already == {c \in confs : n \in c.done}
      all == Reach(confs \ already, already, n, open)
  IN {[s |-> c.s, done |-> c.done \ {n}] : c \in all}

Init == /\ h \in 1..Len(Histories) /\ i = 1 /\ open = {} /\ confs = {[s |-> EmptyFn, done |-> {}]}
Next == /\ i <= Len(Histories[h].ev) /\ confs # {}
        /\ LET m == Histories[h].ev[i] IN
             IF m > 0 THEN open' = open \cup {m} /\ confs' = confs
             ELSE open' = open \ {0 - m} /\ confs' = Complete(0 - m)
        /\ i' = i + 1 /\ h' = h
Spec == Init /\ [][Next]_vars

Linearizable == confs # {}
Alias == [h |-> h, i |-> i - 1]
===========================================================================
