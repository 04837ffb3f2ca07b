----------------------------- MODULE PatienceEx -----------------------------
(* All sequences of moods and numbers of callers, with what they should see. *)
EXTENDS Patience, Json
CONSTANTS Len_, Cfgs, Callers
VARIABLES cfg, fresh, steps
vars == <<cfg, fresh, steps>>
Init == cfg \in Cfgs /\ fresh = TRUE /\ steps = <<>>
Step(m, n) ==
  LET o == Outcome(cfg, m, fresh)
      b == Bounds(cfg, m, fresh)
  IN /\ steps' = Append(steps, [mood |-> m, calls |-> n, o |-> o, bound |-> IF b = {} THEN 0 ELSE Min(b)])
     /\ fresh' = Fresh(cfg, m, fresh) /\ cfg' = cfg
     /\ Len(steps') = Len_ => PrintT(ToJson([cfg |-> cfg, steps |-> steps']))
Next == Len(steps) < Len_ /\ \E m \in Moods, n \in Callers : Step(m, n)
Spec == Init /\ [][Next]_vars
(* a call on a server that answers always gets its reply, whatever happened before *)
Heals == \A c \in Cfgs, f \in BOOLEAN : Outcome(c, "up", f) = "own"
(* with a bound on the whole call nothing lasts *)
Ends == \A c \in Cfgs, m \in Moods, f \in BOOLEAN : c.t > 0 /\ c.via # "conn" => Outcome(c, m, f) # "lasts"
=============================================================================
