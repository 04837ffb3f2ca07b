----------------------------- MODULE RespTrace -----------------------------
(* Recorded: messages sent with the bytes they became, and byte streams with *)
(* what was received from them in each of several segmentations.             *)
EXTENDS Resp
CONSTANT TraceFile
Recs == ndJsonDeserialize(TraceFile)
VARIABLES i, done, ok
vars == <<i, done, ok>>

Want(r) == IF "stream" \in DOMAIN r THEN DecodeAll(r.stream, 1) ELSE <<>>
(* arrays are understood at least this deep *)
MaxNesting == 10000
Good(r) == /\ "wire" \in DOMAIN r => r.wire = WireAll(r.msgs, 1)
           /\ "stream" \in DOMAIN r =>
                LET w == Want(r) IN \A k \in 1..Len(r.runs) : r.runs[k].err /\ r.runs[k].msgs = w
           \* an array that begins again and again and never has an element
           /\ "unit" \in DOMAIN r =>
                /\ DecodeAll(r.unit \o r.unit, 1) = <<>>
                /\ \A k \in 1..Len(r.runs) : r.runs[k].err /\ r.runs[k].msgs = <<>>
           \* a message inside very many arrays of one element, then another message
           /\ "deep" \in DOMAIN r =>
                /\ r.units = r.deep /\ r.rest = WireAll(r.inner, 1)
                /\ \A k \in 1..Len(r.runs) :
                     /\ r.runs[k].err
                     /\ \/ r.runs[k].msgs = [j \in 1..Len(r.inner) |-> [deep |-> IF j = 1 THEN r.deep ELSE 0, v |-> r.inner[j]]]
                        \/ r.deep > MaxNesting /\ r.runs[k].msgs = <<>>
(* records are looked at in a step, which TLC does for many at a time *)
Init == i \in 1..Len(Recs) /\ done = FALSE /\ ok = TRUE
Next == ~done /\ done' = TRUE /\ ok' = Good(Recs[i]) /\ i' = i
Spec == Init /\ [][Next]_vars
Conforms == ok
Alias == [i |-> i, want |-> IF "stream" \in DOMAIN Recs[i] /\ Len(Recs[i].stream) < 2000 THEN Want(Recs[i]) ELSE <<>>]
============================================================================
