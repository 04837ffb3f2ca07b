----------------------------- MODULE RdbTrace -----------------------------
(* Recorded: files and what loading them delivered.  b: the bytes; scores:   *)
(* texts of numbers with their binary form; dict: the commands delivered;    *)
(* full: result of loading the file, cuts: of loading its first 0, 1, 2 ...  *)
(* bytes; in a result m (and keys, without the deadlines) are indexes of     *)
(* dict, res is "ok", "err" or "panic".                                      *)
EXTENDS Rdb, Json
CONSTANTS TraceFile, Judge
Recs == ndJsonDeserialize(TraceFile)
VARIABLES t, p, st, j, bad
vars == <<t, p, st, j, bad>>
Values == Judge \in {"C21", "C22"}
List(r) == IF Values THEN r.full.keys ELSE r.full.m
Init == t \in 1..Len(Recs) /\ p = 1 /\ st = Zero /\ j = 0 /\ bad = ""
B(b, text) == IF b THEN text ELSE ""
First(s) == IF \E i \in 1..Len(s) : s[i] # "" THEN s[CHOOSE i \in 1..Len(s) : s[i] # "" /\ \A k \in 1..(i-1) : s[k] = ""] ELSE ""

Alike(x, y) == x = y \/ (x.d = y.d /\ x.n = y.n /\ x.a # <<>> /\ y.a # <<>> /\ x.a[1] = y.a[1] /\ SameValue(x.n, Tail(x.a), Tail(y.a)))
(* the file cut after n bytes, n in from..to: an error after the first j commands *)
Cuts(r, from, to) ==
  IF Judge # "C24" \/ r.cuts = <<>> THEN ""
  ELSE B(\E n \in from..to : LET c == r.cuts[n+1] IN
           c.res # "err" \/ Len(c.m) # j \/ \E i \in 1..j : i > Len(r.full.m) \/ ~Alike(r.dict[c.m[i]], r.dict[r.full.m[i]]), "a file cut short")
KeyOK(r, e, x) ==    \* e expected, x recorded
  CASE Judge = "C21" -> e.n # "set" \/ (x.n = "set" /\ x.a = e.a)
    [] Judge = "C22" -> e.n = "set" \/ (x.n = e.n /\ x.a # <<>> /\ x.a[1] = e.a[1] /\ SameValue(e.n, Tail(e.a), Tail(x.a)))
    [] Judge = "C23" -> /\ x.d = e.d /\ x.n = e.n /\ x.a # <<>> /\ x.a[1] = e.a[1]
                        /\ e.n = "pexpireat" => x.a = e.a
    [] Judge = "C24" -> x.n = e.n /\ x.a # <<>> /\ x.a[1] = e.a[1]
Mine(e) == CASE Judge = "C21" -> e.n = "set" [] Judge = "C22" -> e.n # "set" [] OTHER -> TRUE
Next ==
  /\ bad = "" /\ p > 0 /\ t' = t
  /\ LET r == Recs[t]  b == r.b IN
     IF p = 1
     THEN LET h == Signature(b) IN
          /\ p' = IF h = "ok" THEN 10 ELSE 0
          /\ bad' = First(<<B(Judge = "C24" /\ r.full.res = "panic", "panic"),
                            B(Judge = "C24" /\ h = "err" /\ (r.full.res # "err" \/ r.full.m # <<>>), "not a snapshot"),
                            IF h = "ok" THEN Cuts(r, 0, 8) ELSE "">>)
          /\ UNCHANGED <<st, j>>
     ELSE LET it == Item(b, p, r.scores)  L == List(r) IN
          CASE it.k = "meta" -> /\ p' = it.next /\ st' = Meta(st, it) /\ j' = j
                                /\ bad' = Cuts(r, p - 1, it.next - 2)
            [] it.k = "key" ->
                 LET es == IF Values THEN SubSeq(Commands(st, it), 1, 1) ELSE Commands(st, it)  n == Len(es) IN
                 /\ p' = it.next /\ j' = j + n /\ st' = [st EXCEPT !.exp = <<>>]
                 /\ bad' = First(<<B(Mine(es[1]) /\ Len(L) < j + n, "a key is missing"),
                                   B(\E i \in 1..n : j + i <= Len(L) /\ ~KeyOK(r, es[i], r.dict[L[j+i]]), "a key is delivered wrong"),
                                   Cuts(r, p - 1, it.next - 2)>>)
            [] it.k = "eof" ->
                 /\ p' = 0 /\ UNCHANGED <<st, j>>
                 /\ bad' = First(<<B(r.full.res # "ok", "a good file is refused"),
                                   B(Len(L) # j, "more commands than keys"),
                                   B(Judge = "C23" /\ (r.full.id # st.id \/ r.full.off # st.off), "replication id or offset"),
                                   Cuts(r, p - 1, p - 1)>>)
            [] it.k = "err" ->
                 /\ p' = 0 /\ UNCHANGED <<st, j>>
                 /\ bad' = First(<<B(Judge = "C24" /\ r.full.res # "err", "a damaged file is loaded"),
                                   B(Judge = "C24" /\ Len(L) # j, "commands for what is damaged")>>)
            [] it.k = "gray" -> p' = 0 /\ UNCHANGED <<st, j>> /\ bad' = ""
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Alias == [t |-> t, p |-> p, j |-> j, bad |-> bad, st |-> st]
============================================================================
