------------------------------- MODULE KVEx -------------------------------
(* Exhaustive exploration of KV over small constants.  Every reachable state *)
(* is checked against the laws below, and every transition is printed (when  *)
(* Emit) so that it can be replayed on the real cache.                       *)
EXTENDS KV
CONSTANTS Ops,      \* commands of this configuration
          Ks,       \* keys
          Fs,       \* hash fields
          Vs,       \* values written
          Ps,       \* values appended or laid over
          Os,       \* offsets of SetRange
          Gs,       \* indexes of GetRange (pairs)
          Is,       \* increments of integer counters
          Ds,       \* increments of float counters
          Ts,       \* times to live
          As,       \* steps of time
          MaxLen,   \* longest value explored further
          MaxDepth, \* longest path explored
          Emit
(* replicated commands, a sequence of lists of words *)
Ms == JsonDeserialize("ms.json")

VARIABLE s

Two == {<<a, b>> : a, b \in Ks} \ {<<a, a>> : a \in Ks}
KVs == {<<<<k, v>>>> : k \in Ks, v \in Vs}
       \cup {<<<<p[1], v>>, <<p[2], w>>>> : p \in {q \in Two : q[1] # q[2]}, v \in Vs, w \in Vs}
FVs == {<<<<f, v>>>> : f \in Fs, v \in Vs}
       \cup {<<<<p[1], v>>, <<p[2], w>>>> : p \in {<<a, b>> : a, b \in Fs} \ {<<a, a>> : a \in Fs}, v \in Vs, w \in Vs}
KLists == {<<k>> : k \in Ks} \cup Two \cup {<<k, k>> : k \in Ks}
FLists == {<<f>> : f \in Fs} \cup {<<a, b>> : a, b \in Fs}
C(op) ==
  CASE op \in {"Get", "StrLen", "Incr", "Decr", "Del", "Type", "HLen", "HKeys", "HVals", "HGetAll"}
         -> {[op |-> op, k |-> k] : k \in Ks}
    [] op \in {"Set", "SetNX", "GetSet"} -> {[op |-> op, k |-> k, v |-> v] : k \in Ks, v \in Vs}
    [] op \in {"SetEX", "PSetEX"} -> {[op |-> op, k |-> k, v |-> v, n |-> n] : k \in Ks, v \in Vs, n \in Ts}
    [] op = "PExpireAt" -> {[op |-> op, k |-> k, n |-> n] : k \in Ks, n \in Ts}
    [] op = "Append" -> {[op |-> op, k |-> k, v |-> v] : k \in Ks, v \in Ps}
    [] op = "SetRange" -> {[op |-> op, k |-> k, n |-> n, v |-> v] : k \in Ks, n \in Os, v \in Ps}
    [] op = "GetRange" -> {[op |-> op, k |-> k, n |-> g[1], m |-> g[2]] : k \in Ks, g \in Gs \X Gs}
    [] op \in {"IncrBy", "DecrBy"} -> {[op |-> op, k |-> k, d |-> d] : k \in Ks, d \in Is}
    [] op = "IncrByFloat" -> {[op |-> op, k |-> k, d |-> d] : k \in Ks, d \in Ds}
    [] op \in {"MSet", "MSetNX"} -> {[op |-> op, kv |-> kv] : kv \in KVs}
    [] op \in {"MGet", "Exists"} -> {[op |-> op, ks |-> ks] : ks \in KLists}
    [] op = "Flush" -> {[op |-> op]}
    [] op \in {"HSet", "HSetNX"} -> {[op |-> op, k |-> k, f |-> f, v |-> v] : k \in Ks, f \in Fs, v \in Vs}
    [] op = "HMSet" -> {[op |-> op, k |-> k, kv |-> fv] : k \in Ks, fv \in FVs \cup {<<>>}}
    [] op \in {"HDel", "HMGet"} -> {[op |-> op, k |-> k, ks |-> fs] : k \in Ks, fs \in FLists}
    [] op \in {"HGet", "HExists", "HStrLen"} -> {[op |-> op, k |-> k, f |-> f] : k \in Ks, f \in Fs}
    [] op = "HIncrBy" -> {[op |-> op, k |-> k, f |-> f, d |-> d] : k \in Ks, f \in Fs, d \in Is}
    [] op = "HIncrByFloat" -> {[op |-> op, k |-> k, f |-> f, d |-> d] : k \in Ks, f \in Fs, d \in Ds}
    [] op = "Msg" -> {[op |-> op, kind |-> "array", args |-> Ms[i], n |-> 0] : i \in 1..Len(Ms)}
    [] op = "Advance" -> {[op |-> op, n |-> n] : n \in As}
Cmds == UNION {C(op) : op \in Ops}
ReadCmds == {c \in Cmds : c.op \in ReadOps}

Init == s = EmptyFn
Next == \E c \in Cmds :
          LET a == Apply(s, c) IN
          /\ s' = a.s
          /\ Emit => PrintT(ToJson([src |-> s, c |-> c, r |-> a.r, dst |-> a.s]))
Spec == Init /\ [][Next]_s

(* what is longer than MaxLen or deeper than MaxDepth is reached and        *)
(* replayed, but not explored further                                      *)
Vals(e) == IF e.t = "str" THEN {e.v} ELSE {e.f[f] : f \in DOMAIN e.f}
Small == TLCGet("level") <= MaxDepth /\ \A k \in DOMAIN s : \A v \in Vals(s[k]) : Len(v) <= MaxLen

-----------------------------------------------------------------------------
(* laws *)
Same(a, b) == View(a) = View(b)
(* expired keys that were not collected yet make no difference to anything *)
ResidueInvisible == \A c \in Cmds : LET x == Apply(s, c)  y == Apply(View(s), c)
                                    IN x.r = y.r /\ Same(x.s, y.s)
ReadsPure == \A c \in ReadCmds : Apply(s, c).s = s
FailuresPure == \A c \in Cmds : LET a == Apply(s, c) IN a.r.e \in {"type", "err"} => a.s = s
Isolated == \A c \in Cmds : LET a == Apply(s, c) IN
              c.op \notin {"Flush", "Advance", "Msg"} =>
                \A k \in Ks \ KeysOf(c) : (k \in DOMAIN s <=> k \in DOMAIN a.s) /\ (k \in DOMAIN s => a.s[k] = s[k])
(* writes that overwrite clear the deadline, writes in place keep it *)
Overwriting == {"Set", "GetSet", "MSet", "SetNX", "MSetNX"}
InPlace == {"Append", "SetRange", "Incr", "Decr", "IncrBy", "DecrBy", "IncrByFloat", "HSet", "HSetNX",
            "HMSet", "HIncrBy", "HIncrByFloat"}
Deadlines == \A c \in Cmds : LET a == Apply(s, c) IN a.r.e \in {"", "nil"} =>
  /\ c.op \in Overwriting => \A k \in KeysOf(c) :
        /\ Vis(a.s, k)
        /\ (c.op \in {"SetNX", "MSetNX"} /\ Vis(s, k)) => a.s[k] = s[k]
        /\ ~(c.op \in {"SetNX", "MSetNX"} /\ Vis(s, k)) => a.s[k].x = 0
  /\ (c.op \in InPlace /\ c.k \in DOMAIN a.s) => a.s[c.k].x = (IF Vis(s, c.k) THEN s[c.k].x ELSE IF Vis(a.s, c.k) THEN 0 ELSE -1)
(* the commands that tell whether a key is there agree *)
Agree == \A k \in Ks :
  LET there == ApplyDirect(s, [op |-> "Exists", ks |-> <<k>>]).r.v = 1
      type == ApplyDirect(s, [op |-> "Type", k |-> k]).r.v
  IN /\ there = (type # "none")
     /\ (type = "none") = (ApplyDirect(s, [op |-> "Get", k |-> k]).r.e = "nil")
     /\ (type = "hash") = (ApplyDirect(s, [op |-> "Get", k |-> k]).r.e = "type")
     /\ (type = "string") = (ApplyDirect(s, [op |-> "HLen", k |-> k]).r.e = "type")
     /\ (type = "hash") => ApplyDirect(s, [op |-> "HLen", k |-> k]).r.v > 0
     /\ there = (ApplyDirect(s, [op |-> "Del", k |-> k]).r.v = 1)
TypeOK == \A k \in DOMAIN s : k \in Ks /\ s[k].t \in {"str", "hash"} /\ s[k].x >= -1
=============================================================================
