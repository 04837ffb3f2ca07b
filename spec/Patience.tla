------------------------------ MODULE Patience ------------------------------
(* How long a client waits.  A configuration has up to three bounds, in      *)
(* milliseconds, 0 if there is none: on a whole call (t), on waiting for a   *)
(* reply (r), on sending a request (w).  A client, or the context given to a *)
(* pool, bounds everything a call does by t, a connection ("conn") only the  *)
(* exchange.  The mood of the server:                                        *)
(*  "up" answers at once, "late" in time, "mute" not at all, "drip" a byte   *)
(*  now and then; "deaf" does not even read; "hang" is up, but connecting    *)
(*  takes forever.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Moods == {"up", "late", "mute", "drip", "deaf", "hang"}

(* the bounds that end a call which meets this mood *)
Bounds(cfg, mood, fresh) ==
  LET whole == {cfg.t}
      recv == {cfg.r}
      send == {cfg.w}
      \* greetings come first on a new connection; short enough for a byte now and then
      some == CASE mood \in {"up", "late"} -> {}
                [] mood = "mute" -> whole \cup recv
                [] mood = "drip" -> whole \cup recv
                [] mood = "deaf" -> whole \cup send \cup (IF fresh /\ cfg.greets THEN recv ELSE {})
                [] mood = "hang" -> IF fresh /\ cfg.via # "conn" THEN whole ELSE {}
  IN some \ {0}
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
(* whether something keeps the call from ending *)
Stuck(mood, fresh) == mood \in {"mute", "drip", "deaf"} \/ (mood = "hang" /\ fresh)
(* "own": the reply; "err": an error once the bound is over; "lasts": until the server is up again *)
Outcome(cfg, mood, fresh) ==
  IF ~Stuck(mood, fresh) THEN "own"
  ELSE IF Bounds(cfg, mood, fresh) = {} THEN "lasts" ELSE "err"
(* a connection that is given up is not used again *)
Fresh(cfg, mood, fresh) == Outcome(cfg, mood, fresh) = "err"
=============================================================================
