----------------------------- MODULE KVTrace -----------------------------
(* Conformance: traces recorded from the real cache, one JSON line each,    *)
(* must be behaviours of KV.  An event is [c |-> command, r |-> result].     *)
EXTENDS KV
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t,    \* which trace
          i,    \* next event
          s,    \* state of the cache
          want, \* result the specification gives to the last event
          ok    \* the last event matched
vars == <<t, i, s, want, ok>>

(* calls whose own results are not the question *)
Free(c) == "free" \in DOMAIN c

Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ s = EmptyFn /\ ok = TRUE /\ want = Res("", "")
Next == /\ ok /\ i <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i]  a == Apply(s, e.c)
           IN /\ s' = a.s /\ want' = a.r /\ ok' = (Free(e.c) \/ RMatch(e.c, a.r, e.r))
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

Conforms == ok
NoEmptyHash == \A k \in DOMAIN s : s[k].t = "hash" => DOMAIN s[k].f # {}
Alias == [t |-> t, i |-> i - 1, want |-> want]
===========================================================================
