----------------------------- MODULE ReplicaImpl -----------------------------
(* The design of replication: clients that check their file when they connect,   *)
(* pull under the lock of the server, write, and push from the position of the   *)
(* last pull, through connections that break before or after the server has      *)
(* executed a request; some clients reconnect and send the push again.           *)
(* Wrong designs (constant Wrong), that the checks must tell:                     *)
(*   "position"  the server does not compare the position of a push with its own *)
(*   "blind"     after reconnecting, the push goes to the new end of the server  *)
(*   "check"     a client that was ahead pulls without comparing                 *)
(*   "keep"      the lock of a lost session is not released                      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Client, Robust, MaxId, MaxFaults, Wrong, None
VARIABLES S, lock, F, cp, st, req, ghosts, next, faults, acked, failed
vars == <<S, lock, F, cp, st, req, ghosts, next, faults, acked, failed>>

Prefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
Compat(s, t) == Prefix(s, t) \/ Prefix(t, s)
Range(s) == {s[i] : i \in DOMAIN s}
Tail1(s, n) == SubSeq(s, n + 1, Len(s))

Init == /\ S = <<>> /\ lock = None
        /\ F = [c \in Client |-> <<>>] /\ cp = [c \in Client |-> 0]
        /\ st = [c \in Client |-> "off"] /\ req = [c \in Client |-> None]
        /\ ghosts = {} /\ next = 1 /\ faults = 0 /\ acked = {} /\ failed = {}

Open(c) ==
  /\ st[c] = "off" /\ Compat(F[c], S)
  /\ cp' = [cp EXCEPT ![c] = Len(S)] /\ st' = [st EXCEPT ![c] = "idle"]
  /\ UNCHANGED <<S, lock, F, req, ghosts, next, faults, acked, failed>>

Offline(c) ==
  /\ st[c] = "off" /\ next <= MaxId
  /\ F' = [F EXCEPT ![c] = Append(@, <<c, next>>)] /\ next' = next + 1
  /\ UNCHANGED <<S, lock, cp, st, req, ghosts, faults, acked, failed>>

Close(c) ==
  /\ st[c] = "idle" /\ st' = [st EXCEPT ![c] = "off"]
  /\ UNCHANGED <<S, lock, F, cp, req, ghosts, next, faults, acked, failed>>

\* what a pull does to the file; without check, whatever is beyond its end is appended
Pulled(c) == IF Len(F[c]) < Len(S) THEN F[c] \o Tail1(S, Len(F[c])) ELSE F[c]
Checked(c) == Wrong = "check" \/ Compat(F[c], S)

Pull(c) ==
  /\ st[c] = "idle"
  /\ IF Checked(c)
     THEN F' = [F EXCEPT ![c] = Pulled(c)] /\ cp' = [cp EXCEPT ![c] = Len(S)] /\ UNCHANGED st
     ELSE st' = [st EXCEPT ![c] = "off"] /\ UNCHANGED <<F, cp>>
  /\ UNCHANGED <<S, lock, req, ghosts, next, faults, acked, failed>>

LockPull(c) ==
  /\ st[c] = "idle" /\ lock = None
  /\ IF Checked(c)
     THEN /\ F' = [F EXCEPT ![c] = Pulled(c)] /\ cp' = [cp EXCEPT ![c] = Len(S)]
          /\ st' = [st EXCEPT ![c] = "locked"] /\ lock' = c
     ELSE st' = [st EXCEPT ![c] = "off"] /\ UNCHANGED <<F, cp, lock>>
  /\ UNCHANGED <<S, req, ghosts, next, faults, acked, failed>>

Send(c) == req' = [req EXCEPT ![c] = [r |-> "push", from |-> cp[c], data |-> Tail1(F[c], cp[c])]]

Write(c) ==
  /\ st[c] = "locked" /\ next <= MaxId
  /\ F' = [F EXCEPT ![c] = Append(@, <<c, next>>)] /\ next' = next + 1
  /\ st' = [st EXCEPT ![c] = "pushing"]
  /\ req' = [req EXCEPT ![c] = [r |-> "push", from |-> cp[c], data |-> Tail1(F'[c], cp[c])]]
  /\ UNCHANGED <<S, lock, cp, ghosts, faults, acked, failed>>

\* push_if_ahead, without lock
Push(c) ==
  /\ st[c] = "idle" /\ Len(F[c]) > cp[c]
  /\ st' = [st EXCEPT ![c] = "pushing"] /\ Send(c)
  /\ UNCHANGED <<S, lock, F, cp, ghosts, next, faults, acked, failed>>

Accept(q) == q.from = Len(S) \/ Wrong = "position"
Serve(c) ==
  /\ req[c] # None /\ req[c].r = "push"
  /\ lock \in {None, c}
  /\ IF Accept(req[c])
     THEN S' = S \o req[c].data /\ req' = [req EXCEPT ![c] = [r |-> "ok"]]
     ELSE S' = S /\ req' = [req EXCEPT ![c] = [r |-> "conflict"]]
  /\ lock' = None
  /\ UNCHANGED <<F, cp, st, ghosts, next, faults, acked, failed>>

Reply(c) ==
  /\ req[c] # None /\ req[c].r # "push"
  /\ IF req[c].r = "ok"
     THEN /\ acked' = acked \cup {x \in Range(F[c]) : x[1] = c}
          /\ cp' = [cp EXCEPT ![c] = Len(F[c])]
          /\ st' = [st EXCEPT ![c] = "idle"] /\ UNCHANGED failed
     ELSE st' = [st EXCEPT ![c] = "off"] /\ UNCHANGED <<acked, cp, failed>>
  /\ req' = [req EXCEPT ![c] = None]
  /\ UNCHANGED <<S, lock, F, ghosts, next, faults>>

(* The connection breaks.  A request that was sent may be executed or not, now   *)
(* (ghost) or later, when nobody has the lock.                                   *)
Cut(c) ==
  /\ faults < MaxFaults /\ faults' = faults + 1
  /\ st[c] \in {"idle", "locked", "pushing"}
  /\ ghosts' = IF req[c] # None /\ req[c].r = "push" THEN ghosts \cup {req[c]} ELSE ghosts
  /\ lock' = IF lock = c /\ Wrong # "keep" THEN None ELSE lock
  /\ req' = [req EXCEPT ![c] = None]
  /\ st' = [st EXCEPT ![c] = IF c \in Robust /\ st[c] = "pushing" THEN "again" ELSE IF c \in Robust /\ st[c] = "locked" THEN "nolock" ELSE "off"]
  /\ UNCHANGED <<S, F, cp, next, acked, failed>>

\* a robust client whose lock was lost does not know: it writes, then pushes
Unaware(c) ==
  /\ st[c] = "nolock" /\ next <= MaxId
  /\ F' = [F EXCEPT ![c] = Append(@, <<c, next>>)] /\ next' = next + 1
  /\ st' = [st EXCEPT ![c] = "again"]
  /\ UNCHANGED <<S, lock, cp, req, ghosts, faults, acked, failed>>

Again(c) ==
  /\ st[c] = "again"
  /\ IF Compat(F[c], S)
     THEN /\ st' = [st EXCEPT ![c] = "pushing"]
          /\ req' = [req EXCEPT ![c] = [r |-> "push", from |-> IF Wrong = "blind" THEN Len(S) ELSE cp[c], data |-> Tail1(F[c], cp[c])]]
     ELSE st' = [st EXCEPT ![c] = "off"] /\ UNCHANGED req
  /\ UNCHANGED <<S, lock, F, cp, ghosts, next, faults, acked, failed>>

Ghost(q) ==
  /\ ghosts' = ghosts \ {q}
  /\ \/ lock = None /\ Accept(q) /\ S' = S \o q.data
     \/ S' = S
  /\ UNCHANGED <<lock, F, cp, st, req, next, faults, acked, failed>>

Next == \/ \E c \in Client : Open(c) \/ Offline(c) \/ Close(c) \/ Pull(c) \/ LockPull(c) \/ Write(c) \/ Push(c)
                             \/ Serve(c) \/ Reply(c) \/ Cut(c) \/ Unaware(c) \/ Again(c)
        \/ \E q \in ghosts : Ghost(q)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Once(s) == Cardinality(Range(s)) = Len(s)
HistoryOnce == Once(S) /\ acked \subseteq Range(S)
\* a file is a prefix of the history, then the client's own records
Common(s, t) == CHOOSE n \in 0..Len(s) : /\ SubSeq(s, 1, n) = SubSeq(t, 1, IF n <= Len(t) THEN n ELSE Len(t)) /\ n <= Len(t)
                                         /\ (n < Len(s) /\ n < Len(t)) => s[n + 1] # t[n + 1]
FileOk == \A c \in Client : /\ Once(F[c])
                            /\ \A i \in (Common(F[c], S) + 1)..Len(F[c]) : F[c][i][1] = c
LockedOk == \A c \in Client : st[c] = "locked" => Prefix(S, F[c])
Released == lock # None => st[lock] \in {"locked", "pushing"}
Grows == [][Prefix(S, S')]_vars
=============================================================================
