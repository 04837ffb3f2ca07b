----------------------------- MODULE ReplicaEx -----------------------------
(* A master with databases 0 and 1, a replica, the link between them and the *)
(* application that reads and writes through the replica's client.           *)
(* The master executes commands, collects expired keys, and sends along what *)
(* it did; it also sends keep-alives and things the replica can not execute. *)
(* The link holds what is under way; it can be lost, with whatever is in it  *)
(* or after it has been delivered.  Laws relate what the application reads   *)
(* to what the master holds and held.                                        *)
EXTENDS Replica
CONSTANTS Ks, Ops, PreMax, SendMax, AppMax, Emit, Kept
Bad == JsonDeserialize("bad.json")     \* messages no replica can execute
Reps == JsonDeserialize("reps.json")   \* answers to the application, besides the master's own

VARIABLES snap, mdb, pre, sel, queue, local, ldb, ph, hist, sent, app, soft
vars == <<snap, mdb, pre, sel, queue, local, ldb, ph, hist, sent, app, soft>>

\* ------------------------------------------------------------ commands
Far == 1000000
AllOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET k == CHOOSE k \in T : TRUE IN <<<<k, "m">>>> \o F(T \ {k}) IN F(S)
C(name) == CASE name = "set" -> {[op |-> "Set", k |-> k, v |-> v] : k \in Ks, v \in {"x", "5"}}
             [] name = "setx" -> {[op |-> "Set", k |-> k, v |-> "x"] : k \in Ks}
             [] name = "setnx" -> {[op |-> "SetNX", k |-> k, v |-> "n"] : k \in Ks}
             [] name = "del" -> {[op |-> "Del", k |-> k] : k \in Ks}
             [] name = "incr" -> {[op |-> "IncrBy", k |-> k, d |-> "-3"] : k \in Ks}
             [] name = "append" -> {[op |-> "Append", k |-> k, v |-> "y"] : k \in Ks}
             [] name = "getset" -> {[op |-> "GetSet", k |-> k, v |-> "g"] : k \in Ks}
             [] name = "past" -> {[op |-> "PExpireAt", k |-> k, n |-> -Far] : k \in Ks}
             [] name = "far" -> {[op |-> "PExpireAt", k |-> k, n |-> Far] : k \in Ks}
             [] name = "soon" -> {[op |-> "PSetEX", k |-> k, v |-> "s", n |-> 2] : k \in Ks}
             [] name = "setex" -> {[op |-> "PSetEX", k |-> k, v |-> "e", n |-> Far] : k \in Ks}
             [] name = "mset" -> {[op |-> "MSet", kv |-> AllOf(Ks)]}
             [] name = "hset" -> {[op |-> "HMSet", k |-> k, kv |-> <<<<"f", "1">>>>] : k \in Ks}
             [] name = "hdel" -> {[op |-> "HDel", k |-> k, ks |-> <<"f">>] : k \in Ks}
             [] name = "setrange" -> {[op |-> "SetRange", k |-> k, n |-> 2, v |-> "r"] : k \in Ks}
             [] name = "flush" -> {[op |-> "Flush"]}
             [] name = "flushall" -> {[op |-> "FlushAll"]}
             [] name = "persist" -> {[op |-> "Persist", k |-> k] : k \in Ks}
             [] name = "keep" -> {[op |-> "SetKeep", k |-> k, v |-> "k"] : k \in Ks}
             [] name = "setat" -> {[op |-> "SetAt", k |-> k, v |-> "e", n |-> n] : k \in Ks, n \in {Far, -Far}}
Cmds == UNION {C(o) : o \in Ops}
Flat(kv) == LET RECURSIVE F(_) F(i) == IF i > Len(kv) THEN <<>> ELSE kv[i] \o F(i + 1) IN F(1)
Encode(c) ==
  CASE c.op = "Set" -> <<"SET", c.k, c.v>>
    [] c.op = "SetNX" -> <<"setnx", c.k, c.v>>
    [] c.op = "Del" -> <<"DEL", c.k>>
    [] c.op = "IncrBy" -> <<"decrby", c.k, NegInt(c.d)>>
    [] c.op = "Append" -> <<"append", c.k, c.v>>
    [] c.op = "GetSet" -> <<"getset", c.k, c.v>>
    [] c.op = "PExpireAt" -> <<"PEXPIREAT", c.k, "@" \o ToString(c.n)>>
    [] c.op = "PSetEX" -> <<"psetex", c.k, ToString(c.n), c.v>>
    [] c.op = "MSet" -> <<"mset">> \o Flat(c.kv)
    [] c.op = "HMSet" -> <<"hmset", c.k>> \o Flat(c.kv)
    [] c.op = "HDel" -> <<"hdel", c.k>> \o c.ks
    [] c.op = "SetRange" -> <<"setrange", c.k, ToString(c.n), c.v>>
    [] c.op = "Flush" -> <<"FLUSHDB">>
    [] c.op = "FlushAll" -> <<"FLUSHALL">>
    [] c.op = "Persist" -> <<"PERSIST", c.k>>
    [] c.op = "SetKeep" -> <<"SET", c.k, c.v, "KEEPTTL">>
    [] c.op = "SetAt" -> <<"SET", c.k, c.v, "PXAT", "@" \o ToString(c.n)>>
Words2Msg(ws) == [t |-> "array", v |-> [i \in 1..Len(ws) |-> [t |-> "bulk", v |-> ws[i]]]]
Do(m, d, c) == IF c.op = "FlushAll" THEN [x \in DOMAIN m |-> EmptyFn] ELSE [m EXCEPT ![d] = Apply(@, c).s]
Dirty(m, d, c) == Do(m, d, c) # m      \* only what changes something is sent along

\* ------------------------------------------------------------ the snapshot
Ascii == [c \in {"a", "b", "k", "f", "g", "m", "n", "e", "x", "y", "r", "s", "0", "1", "2", "3", "5", "8", "-", NUL} |->
            CASE c = "a" -> 97 [] c = "b" -> 98 [] c = "k" -> 107 [] c = "f" -> 102 [] c = "g" -> 103 [] c = "m" -> 109 [] c = "n" -> 110 [] c = "e" -> 101
              [] c = "x" -> 120 [] c = "y" -> 121 [] c = "r" -> 114 [] c = "s" -> 115 [] c = "-" -> 45 [] c = NUL -> 0
              [] c = "0" -> 48 [] c = "1" -> 49 [] c = "2" -> 50 [] c = "3" -> 51 [] c = "5" -> 53 [] c = "8" -> 56]
S(str) == <<Len(str)>> \o [i \in 1..Len(str) |-> Ascii[Ch(str, i)]]
(* deadlines: 1 second after the beginning of time, or in the year 2100 *)
When(x) == IF x > 0 THEN <<252, 0, 216, 195, 44, 187, 3, 0, 0>> ELSE IF x < 0 THEN <<252, 232, 3, 0, 0, 0, 0, 0, 0>> ELSE <<>>
At == <<[t |-> "1000", n |-> -Far], [t |-> "4102444800000", n |-> Far]>>
RECURSIVE Items(_, _), Pairs2(_, _)
Pairs2(h, DD) == IF DD = {} THEN <<>> ELSE LET f == CHOOSE f \in DD : TRUE IN S(f) \o S(h[f]) \o Pairs2(h, DD \ {f})
Items(s, DD) ==
  IF DD = {} THEN <<>>
  ELSE LET k == CHOOSE k \in DD : TRUE IN
       When(s[k].x) \o (IF s[k].t = "str" THEN <<0>> \o S(k) \o S(s[k].v) ELSE <<4>> \o S(k) \o <<Cardinality(DOMAIN s[k].f)>> \o Pairs2(s[k].f, DOMAIN s[k].f))
       \o Items(s, DD \ {k})
Head0 == <<82, 69, 68, 73, 83, 48, 48, 48, 57>>
Snapshot(m) == Head0 \o (IF DOMAIN m[1] = {} THEN <<>> ELSE <<254, 1>> \o Items(m[1], DOMAIN m[1]))
                     \o (IF DOMAIN m[0] = {} THEN <<>> ELSE <<254, 0>> \o Items(m[0], DOMAIN m[0])) \o <<255>>
Loaded(m) == LET l == Loading(Snapshot(m), <<>>, At).states IN l[Len(l)]

\* ------------------------------------------------------------ behaviour
Val(s, k) == GetS(s, [k |-> k]).r
Note(h, m) == [k \in Ks |-> h[k] \cup {Val(m[0], k)}]
Init == /\ snap = <<>> /\ mdb = [d \in 0..1 |-> EmptyFn] /\ pre = <<>> /\ sel = 0 /\ queue = <<>> /\ local = EmptyFn /\ ldb = 0 /\ ph = "before"
        /\ hist = [k \in Ks |-> {}] /\ sent = <<>> /\ app = <<>> /\ soft = FALSE
Prepare(d, c) ==
  /\ ph = "before" /\ Len(pre) < PreMax /\ Dirty(mdb, d, c)
  /\ c.op = "PSetEX" => c.n = Far
  /\ mdb' = Do(mdb, d, c) /\ pre' = Append(pre, <<d, c>>)
  /\ UNCHANGED <<snap, sel, queue, local, ldb, ph, hist, sent, app, soft>>
Sync ==
  /\ ph = "before" /\ ph' = "up" /\ snap' = Snapshot(mdb) /\ local' = Loaded(mdb) /\ hist' = Note(hist, mdb)
  /\ UNCHANGED <<mdb, pre, sel, queue, ldb, sent, app, soft>>
Out(d, m) == (IF d = sel THEN <<>> ELSE <<Words2Msg(<<"SELECT", ToString(d)>>)>>) \o <<m>>
Send(d, m) == /\ queue' = queue \o Out(d, m) /\ sent' = sent \o Out(d, m) /\ sel' = d
Execute(d, c) ==
  /\ ph = "up" /\ Len(sent) < SendMax /\ Dirty(mdb, d, c)
  /\ Kept => \A k \in Ks \cap DOMAIN mdb[d] : Vis(mdb[d], k)     \* the master deletes an expired key before it goes on
  /\ mdb' = Do(mdb, d, c) /\ hist' = Note(hist, mdb')
  /\ Send(d, Words2Msg(Encode(c))) /\ soft' = (soft \/ (c.op = "PSetEX" /\ c.n # Far))
  /\ UNCHANGED <<snap, pre, local, ldb, ph, app>>
Collect(d, k) ==    \* an expired key
  /\ ph = "up" /\ Len(sent) < SendMax /\ k \in DOMAIN mdb[d] /\ ~Vis(mdb[d], k)
  /\ mdb' = [mdb EXCEPT ![d] = Rem(@, k)] /\ Send(d, Words2Msg(<<"DEL", k>>)) /\ UNCHANGED <<snap, pre, local, ldb, ph, hist, app, soft>>
Noise(m) == /\ ph = "up" /\ Len(sent) < SendMax /\ queue' = Append(queue, m) /\ sent' = Append(sent, m)
            /\ UNCHANGED <<snap, mdb, pre, sel, local, ldb, ph, hist, app, soft>>
Arrive ==
  /\ ph \in {"up", "drain"} /\ queue # <<>>
  /\ LET y == Deliver(ldb, Head(queue)) IN
     /\ ldb' = y.db /\ local' = IF y.out = <<>> \/ (y.db # 0 /\ ~Everywhere(Head(queue))) THEN local
                               ELSE IF Kept THEN ApplyKept(local, Head(queue)) ELSE ApplyMsg(local, Head(queue))
  /\ queue' = Tail(queue)
  /\ soft' = (IF Tail(queue) = <<>> THEN FALSE ELSE soft)
  /\ UNCHANGED <<snap, mdb, pre, sel, ph, hist, sent, app>>
Drain == ph = "drain" /\ queue = <<>> /\ ph' = "lost" /\ UNCHANGED <<snap, mdb, pre, sel, queue, local, ldb, hist, sent, app, soft>>
Lose == /\ ph = "up" /\ \/ ph' = "drain" /\ UNCHANGED queue     \* the rest still arrives
                        \/ ph' = "lost" /\ queue' = <<>>
        /\ UNCHANGED <<snap, mdb, pre, sel, local, ldb, hist, sent, app, soft>>
(* relative deadlines that are under way start later at the replica: time *)
(* passes when none is                                                    *)
Tick == /\ ph \in {"up", "lost"} /\ ~soft
        \* the client forgets a key whose deadline passes while commands on it are under way: a known finding
        /\ (queue # <<>> /\ ~Kept) => \A k \in DOMAIN mdb[0] : mdb[0][k].x # 1
        /\ \E k \in DOMAIN mdb[0] : mdb[0][k].x > 0 /\ mdb[0][k].x < 10
        /\ mdb' = [d \in 0..1 |-> Advance(mdb[d], 1)] /\ local' = Advance(local, 1) /\ hist' = (IF ph = "up" THEN Note(hist, mdb') ELSE hist)
        /\ UNCHANGED <<snap, pre, sel, queue, ldb, ph, sent, app, soft>>
(* the application; the server it asks is the master or answers otherwise *)
True == [kind |-> "master"]
MasterAnswer(k) == LET g == Val(mdb[0], k) IN
  IF g.e = "" THEN [kind |-> "msg", m |-> [t |-> "bulk", v |-> g.v]] ELSE IF g.e = "nil" THEN [kind |-> "msg", m |-> [t |-> "nil", v |-> ""]] ELSE [kind |-> "msg", m |-> [t |-> "error", v |-> "WRONGTYPE"]]
AppGet(k, i) == /\ ph \in {"up", "lost"} /\ Len(app) < AppMax /\ queue = <<>> /\ AppMax > 0
             /\ app' = Append(app, [e |-> "get", k |-> k, v |-> "", rep |-> IF i = 0 THEN MasterAnswer(k) ELSE Reps[i], n |-> Len(sent)])
             /\ UNCHANGED <<snap, mdb, pre, sel, queue, local, ldb, ph, hist, sent, soft>>
AppSet(k, i) ==
  /\ ph = "up" /\ Len(app) < AppMax /\ AppMax > 0 /\ queue = <<>> /\ Len(sent) < SendMax
  /\ LET c == [op |-> "Set", k |-> k, v |-> "x"] IN
     IF i = 0
     THEN /\ mdb' = [mdb EXCEPT ![0] = Apply(@, c).s] /\ hist' = Note(hist, mdb')
          /\ IF Dirty(mdb, 0, c) THEN Send(0, Words2Msg(Encode(c))) ELSE UNCHANGED <<queue, sent, sel>>
          /\ app' = Append(app, [e |-> "set", k |-> k, v |-> "x", rep |-> [kind |-> "msg", m |-> [t |-> "simple", v |-> "OK"]], n |-> Len(sent)])
     ELSE UNCHANGED <<mdb, hist, queue, sent, sel>> /\ app' = Append(app, [e |-> "set", k |-> k, v |-> "x", rep |-> Reps[i], n |-> Len(sent)])
  /\ UNCHANGED <<snap, pre, local, ldb, ph, soft>>
Next == \/ \E d \in 0..1, c \in Cmds : Prepare(d, c)
        \/ Sync
        \/ \E d \in 0..1, c \in Cmds : Execute(d, c)
        \/ \E d \in 0..1, k \in Ks : Collect(d, k)
        \/ \E i \in 1..Len(Bad) : Noise(Bad[i])
        \/ Arrive \/ Lose \/ Drain \/ Tick
        \/ \E k \in Ks, i \in 0..Len(Reps) : AppGet(k, i) \/ AppSet(k, i)
Spec == Init /\ [][Next]_vars
(* to enumerate what can be sent and asked, the replica takes what comes at once *)
Eager == ph \in {"before", "up"} /\ Len(queue) <= 2
Scenario == <<snap, pre, sent, app, ph, Len(queue)>>
View2 == <<mdb, Len(pre), sel, queue, local, ldb, ph, hist, Len(sent), Len(app), soft>>

\* ------------------------------------------------------------ laws
Visible(s) == {k \in DOMAIN s : Vis(s, k)}
Same2(s, u) == Visible(s) = Visible(u) /\ \A k \in Visible(s) : s[k] = u[k]
Converged == ph = "up" /\ queue = <<>> => Same2(local, mdb[0]) /\ ldb = sel
Past == ph # "before" => \A k \in Ks : LET g == Val(local, k) IN g.e = "" => g \in hist[k]
(* whoever answers, copy or master: the same when nothing is under way *)
ReadThrough == ph = "up" /\ queue = <<>> => \A k \in Ks :
  LET g == Val(mdb[0], k) IN Same(GetResult(local, k, MasterAnswer(k)), [err |-> g.e # "", v |-> IF g.e = "" THEN g.v ELSE ""])
(* and never anything the key did not hold since the snapshot *)
ReadsPast == ph = "up" => \A k \in Ks : LET g == GetResult(local, k, MasterAnswer(k)) IN ~g.err => [e |-> "", v |-> g.v] \in hist[k]
Held == [][ph = "lost" /\ ph' = "lost" => \A k \in Ks : Vis(local', k) => local'[k].t = local[k].t]_vars
Printed == Emit /\ ph = "up" /\ queue = <<>> => PrintT(ToJson([b |-> snap, sent |-> sent, app |-> app]))
============================================================================
