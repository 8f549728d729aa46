------------------------------- MODULE Replica -------------------------------
(* What the users of a replicated file see: a server (or a file) with a history, *)
(* and clients that each have a file, write transactions to it, pull and push,   *)
(* through connections that may break at any byte.                               *)
(*                                                                               *)
(* hist     the committed records of the server                                 *)
(* file     the committed records of the file of each client                    *)
(* own      records issued in the current call, by group; a group is committed  *)
(*          as a whole or not at all                                             *)
(* bounds   the lengths of file[c] up to which a push may go                     *)
(* past     (server files) contents given up by a client that has been closed   *)
(* call     the call that is being executed, with hist and file at its start     *)
(* flt      the connection has been broken                                       *)
(* cc       the checkpoint of the server known to a client after its last call   *)
(* alone    in the final phase, the clients are one after the other             *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES hist, file, own, bounds, past, call, flt, cc, alone, cfg
svars == <<hist, file, own, bounds, past, call, flt, cc, alone, cfg>>

None == [op |-> "none"]
Clients == DOMAIN file
Prefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
Compat(s, t) == Prefix(s, t) \/ Prefix(t, s)
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(g) == IF g = <<>> THEN <<>> ELSE Head(g) \o Flat(Tail(g))

Kind(c) == cfg.kind[c]
Robust(c) == Kind(c) \in {"R", "V"}         \* reconnects by itself
Direct(c) == Kind(c) \in {"L", "P"}         \* no server in between
Writing == {"t", "e", "l", "m", "k"}        \* calls that lock the server

ReplicaInit(c, files, h) ==
  /\ cfg = c /\ hist = h /\ file = files
  /\ own = [i \in DOMAIN files |-> <<>>]
  /\ bounds = [i \in DOMAIN files |-> 1..Len(files[i])]
  /\ past = {}
  /\ call = [i \in DOMAIN files |-> None]
  /\ flt = [i \in DOMAIN files |-> FALSE]
  /\ cc = [i \in DOMAIN files |-> 0]
  /\ alone = FALSE

(* the beginning of a call *)
Call(c, op) ==
  /\ call[c] = None
  /\ call' = [call EXCEPT ![c] = [op |-> op, hist |-> hist, file |-> file[c], fault |-> FALSE, pushed |-> FALSE]]
  /\ flt' = [flt EXCEPT ![c] = @ /\ op # "o" /\ ~Robust(c)]
  /\ own' = [own EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<hist, file, bounds, past, cc, alone, cfg>>

(* records are written in a transaction *)
Locked(c) == call[c].op \in Writing /\ Kind(c) # "P"
Issue(c, ids) ==
  /\ call[c].op \in Writing \cup {"f"}
  /\ \A i \in DOMAIN ids : ids[i] \notin Range(hist) /\ \A d \in Clients : ids[i] \notin Range(file[d])
  \* with the lock, the client has the whole history and nobody else adds to it
  /\ Locked(c) /\ ~flt[c] /\ cfg.T = 0 => Prefix(hist, file[c])
  /\ own' = [own EXCEPT ![c] = Append(@, ids)]
  /\ UNCHANGED <<hist, file, bounds, past, call, flt, cc, alone, cfg>>

(* the file of a client grows by history of the server, then by its own groups *)
File(c, f) ==
  \E j \in 0..Len(own[c]) :
     LET mine == Flat(SubSeq(own[c], 1, j))
         m == Len(f) - Len(mine)
         base == IF m < 0 THEN <<>> ELSE SubSeq(f, 1, m)
     IN /\ m >= 0
        /\ f = base \o mine
        /\ base = file[c] \/ Prefix(base, hist)
        /\ Prefix(file[c], f) \/ Kind(c) = "V"
        /\ IF Prefix(file[c], f)
           THEN /\ bounds' = [bounds EXCEPT ![c] = @ \cup {m + Len(Flat(SubSeq(own[c], 1, i))) : i \in 1..j}]
                /\ past' = past
           ELSE /\ bounds' = [bounds EXCEPT ![c] = {m + Len(Flat(SubSeq(own[c], 1, i))) : i \in 1..j}]
                /\ past' = past \cup {SubSeq(file[c], 1, b) : b \in bounds[c]}
        /\ file' = [file EXCEPT ![c] = f]
        /\ own' = [own EXCEPT ![c] = SubSeq(@, j + 1, Len(@))]
        /\ UNCHANGED <<hist, call, flt, cc, alone, cfg>>

(* another process writes to the file of a client *)
Append1(c, ids) ==
  /\ own' = [own EXCEPT ![c] = Append(@, ids)]
  /\ UNCHANGED <<hist, file, bounds, past, call, flt, cc, alone, cfg>>

(* the history of the server grows by what a client had committed to its file *)
Hist(h) ==
  /\ Len(h) > Len(hist) /\ Prefix(hist, h)
  /\ \/ \E c \in Clients : Kind(c) # "P" /\ Prefix(h, file[c]) /\ Len(h) \in bounds[c]
     \/ h \in past
  /\ cfg.w
  /\ hist' = h
  /\ UNCHANGED <<file, own, bounds, past, call, flt, cc, alone, cfg>>

Local(ids) ==
  /\ cfg.shared
  /\ hist' = hist \o ids
  /\ UNCHANGED <<file, own, bounds, past, call, flt, cc, alone, cfg>>

Fault(c) ==
  /\ ~alone
  /\ flt' = [flt EXCEPT ![c] = TRUE]
  /\ UNCHANGED <<hist, file, own, bounds, past, call, cc, alone, cfg>>

(* a push has been acknowledged *)
Pushed(c) ==
  /\ own[c] = <<>> /\ Prefix(file[c], hist)
  /\ UNCHANGED svars

(* what was read: n bytes of the records ids, at position o *)
Read(c, at, o, size, n, ids) ==
  LET h == IF at = "file" /\ ~Prefix(file[c], hist) THEN file[c] ELSE hist
      first == o \div cfg.U
      last == (o + n - 1) \div cfg.U
  IN /\ n <= size
     /\ n > 0 => o + n <= Len(h) * cfg.U /\ ids = SubSeq(h, first + 1, last + 1)
     \* there is something to be read as long as the end is not reached
     /\ n = 0 => size = 0 \/ o >= Len(IF at = "file" THEN file[c] ELSE call[c].hist) * cfg.U \/ cfg.shared
     /\ UNCHANGED svars

-----------------------------------------------------------------------------
(* the end of a call *)
Good(c, n) ==
  LET k == call[c]
  IN /\ own[c] = <<>>
     /\ CASE k.op = "o" -> /\ Kind(c) = "V" \/ cfg.shared \/ Compat(file[c], k.hist)
                           /\ Kind(c) = "V" /\ ~cfg.shared => Prefix(k.hist, file[c])
          [] k.op = "t" -> Prefix(k.hist, file[c]) /\ Prefix(file[c], hist)
          [] k.op = "l" -> Prefix(k.hist, file[c]) /\ Prefix(file[c], hist)
          [] k.op \in {"m", "k"} -> Kind(c) = "V" \/ Prefix(k.hist, file[c])
          [] k.op \in {"p", "w"} -> /\ Kind(c) = "B" \/ Prefix(k.hist, file[c])
                                    /\ Kind(c) = "B" \/ n = Len(file[c]) - Len(k.file)
          [] k.op = "u" -> Prefix(file[c], hist)
          [] k.op = "e" -> FALSE
          [] OTHER -> TRUE

Different(c) == ~Compat(file[c], hist)

\* an error that is not a mismatch has a reason
Reason(c) ==
  LET k == call[c]
  IN \/ Different(c)
     \/ ~cfg.w /\ k.op \in Writing \cup {"u"}
     \/ ~cfg.w /\ Kind(c) = "B"
     \/ Kind(c) = "P" /\ k.op \in Writing \cup {"u"}
     \/ cfg.T > 0 /\ (k.op \in Writing \cup {"u"} \/ Kind(c) = "B")
     \/ ~Robust(c) /\ ~Direct(c) /\ flt[c]
     \* a push that was executed although its reply was lost
     \/ Robust(c) /\ flt[c] /\ k.op \in Writing \cup {"u"} /\ Prefix(file[c], hist)
     \* pushing without lock, when somebody else may have the lock
     \/ ~alone /\ ~Robust(c) /\ ~Direct(c) /\ (k.op = "u" \/ Kind(c) = "B")
     \/ k.op = "u" /\ Len(hist) # cc[c]
     \* the server of a shared file does not know what others have just written
     \/ cfg.shared /\ Kind(c) = "B"

Return(c, r, n, known) ==
  /\ call[c] # None
  /\ CASE r = "ok" -> Good(c, n)
       [] r = "user" -> call[c].op = "e"
       [] r = "mismatch" -> Different(c)
       [] r = "err" -> Reason(c)
  /\ call' = [call EXCEPT ![c] = None]
  /\ own' = [own EXCEPT ![c] = <<>>]
  /\ cc' = [cc EXCEPT ![c] = known]
  /\ UNCHANGED <<hist, file, bounds, past, flt, alone, cfg>>

(* no more faults: every client starts again *)
Final ==
  /\ alone' = TRUE
  /\ \A c \in Clients : call[c] = None
  /\ UNCHANGED <<hist, file, own, bounds, past, call, flt, cc, cfg>>

Once(s) == Cardinality(Range(s)) = Len(s)
Inv == Once(hist) /\ \A c \in Clients : Once(file[c])
=============================================================================
