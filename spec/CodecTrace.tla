---------------------------- MODULE CodecTrace ----------------------------
(* Recorded: inputs b of the compact decoders (ziplist, intset, zipmap, lzf  *)
(* with the length n, compress) with the result v; res is "ok" or "panic".   *)
EXTENDS Rdb, Json
CONSTANT TraceFile
Recs == ndJsonDeserialize(TraceFile)
VARIABLES i, done, ok
vars == <<i, done, ok>>
Want(r) == CASE r.kind = "ziplist" -> ZipList(r.b)
             [] r.kind = "intset" -> IntSet(r.b)
             [] r.kind = "zipmap" -> ZipMap(r.b)
             [] r.kind = "lzf" -> Unpack(r.b, r.n)
             [] r.kind = "compress" -> [s |-> "ok"]
Good(r) ==
  LET w == Want(r) IN
  IF w.s # "ok" THEN TRUE
  ELSE /\ r.res = "ok"
       /\ CASE r.kind \in {"ziplist", "intset"} -> r.v = w.v
            [] r.kind = "zipmap" -> Distinct(Odd(w.v)) => Len(r.v) = Len(w.v) /\ Pairs(r.v) = Pairs(w.v)
            [] r.kind = "lzf" -> r.v = w.v
            [] r.kind = "compress" -> \* v: compressed; back: what the code makes of it
                 /\ r.b # <<>> /\ r.v # r.b => (LET u == Unpack(r.v, Len(r.b)) IN u.s = "ok" /\ u.v = r.b)
                 /\ r.back = r.b
Init == i \in 1..Len(Recs) /\ done = FALSE /\ ok = TRUE
Next == ~done /\ done' = TRUE /\ ok' = Good(Recs[i]) /\ i' = i
Spec == Init /\ [][Next]_vars
Conforms == ok
Alias == [i |-> i, want |-> IF Len(Recs[i].b) < 200 THEN Want(Recs[i]) ELSE <<>>]
============================================================================
