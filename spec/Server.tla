--------------------------------- MODULE Server ---------------------------------
(* The joedb server, as its clients see it: one history, one write lock, that   *)
(* sessions ask for, keep, lose and hand on; pulls that wait; pushes received    *)
(* piece by piece.  Positions count blocks of data of equal size.                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Session, None

VARIABLES
  cfg,     \* [T: lock timeout or 0, w: writable, shared: other processes write to the file]
  hist,    \* committed blocks
  holder,  \* session that has the write lock
  queue,   \* sessions that wait for it, in order
  lo, hi,  \* when the holder may, and must have lost the lock
  now,
  ph,      \* what each session is doing
  rq,      \* its current request
  gone,    \* the client closed its side
  out,     \* replies not received yet
  known    \* how much of hist the server has shown that it knows (all of it, when the file is not shared)

svars == <<cfg, hist, holder, queue, lo, hi, now, ph, rq, gone, out, known>>

NoRq == [op |-> "none"]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

ServerInit(c) ==
  /\ cfg = c /\ hist = <<>> /\ holder = None /\ queue = <<>> /\ lo = 0 /\ hi = 0 /\ now = 0
  /\ ph = [s \in Session |-> "off"] /\ rq = [s \in Session |-> NoRq]
  /\ gone = [s \in Session |-> FALSE] /\ out = [s \in Session |-> <<>>] /\ known = 0

-----------------------------------------------------------------------------
\* What clients do

\* connecting, and presenting oneself: nothing is answered to garbage
Hello(s, kind) ==
  /\ ph[s] = "off" /\ out[s] = <<>>
  /\ ph' = [ph EXCEPT ![s] = "req"]
  /\ rq' = [rq EXCEPT ![s] = [op |-> "hello", kind |-> kind]]
  /\ gone' = [gone EXCEPT ![s] = FALSE]
  /\ UNCHANGED <<known, cfg, hist, holder, queue, lo, hi, now, out>>

Ask(s, r) ==
  /\ ph[s] = "idle" /\ ~ gone[s]
  /\ ph' = [ph EXCEPT ![s] = "req"] /\ rq' = [rq EXCEPT ![s] = r]
  /\ UNCHANGED <<known, cfg, hist, holder, queue, lo, hi, now, gone, out>>

\* bytes of the block that is being pushed
Data(s, n) ==
  /\ ph[s] \in {"req", "push"} /\ rq[s].op = "push" /\ n <= rq[s].left
  /\ rq' = [rq EXCEPT ![s].left = @ - n]
  /\ IF holder = s THEN hi' = now + cfg.T /\ lo' \in {lo, now + cfg.T} ELSE UNCHANGED <<lo, hi>>
  /\ UNCHANGED <<known, cfg, hist, holder, queue, now, ph, gone, out>>

\* the client is gone: what it had sent is still processed
Leave(s) ==
  /\ ph[s] # "off" \/ out[s] # <<>>
  /\ gone' = [gone EXCEPT ![s] = TRUE] /\ out' = [out EXCEPT ![s] = <<>>]
  /\ UNCHANGED <<known, cfg, hist, holder, queue, lo, hi, now, ph, rq>>

Time(t) ==
  /\ t >= now /\ now' = t
  /\ UNCHANGED <<known, cfg, hist, holder, queue, lo, hi, ph, rq, gone, out>>

\* another process writes to the file, which it can when nobody has the lock
Local(b) ==
  /\ cfg.shared /\ holder = None
  /\ hist' = hist \o b
  /\ UNCHANGED <<known, cfg, holder, queue, lo, hi, now, ph, rq, gone, out>>

-----------------------------------------------------------------------------
\* What the server does

Reply(s, r) == IF gone[s] THEN out ELSE [out EXCEPT ![s] = Append(@, r)]

\* the lock is handed on to the first that waits.  P is ph updated for s.
HandOn(P) ==
  IF queue = <<>>
  THEN holder' = None /\ queue' = queue /\ ph' = P
  ELSE holder' = Head(queue) /\ queue' = Tail(queue) /\ ph' = [P EXCEPT ![Head(queue)] = "granted"]

KeepLock(P) == UNCHANGED <<holder, queue>> /\ ph' = P

\* the server ends a session
Stop(s) ==
  /\ out' = Reply(s, [op |-> "eof"])
  /\ gone' = [gone EXCEPT ![s] = FALSE]
  /\ LET P == [ph EXCEPT ![s] = "off"] IN IF holder = s THEN HandOn(P) ELSE KeepLock(P)
  /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ UNCHANGED <<known, cfg, hist, lo, hi, now>>

DoHello(s, c) ==
  /\ ph[s] = "req" /\ rq[s].op = "hello"
  /\ IF cfg.shared THEN c >= known ELSE c = Len(hist)
  /\ IF rq[s].kind = "garbage" THEN Stop(s)
     ELSE /\ known' = c
          /\ ph' = [ph EXCEPT ![s] = "idle"] /\ rq' = [rq EXCEPT ![s] = NoRq]
          /\ out' = Reply(s, [op |-> "hello", ok |-> rq[s].kind = "good", cp |-> c, w |-> cfg.w])
          /\ UNCHANGED <<cfg, hist, holder, queue, lo, hi, now, gone>>

\* a pull that finds nothing new and may wait, waits
DoPull(s) ==
  /\ ph[s] = "req" /\ rq[s].op = "pull"
  /\ IF rq[s].wait > 0 /\ rq[s].from = Len(hist)
     THEN /\ ph' = [ph EXCEPT ![s] = "pullwait"]
          /\ rq' = [rq EXCEPT ![s] = [op |-> "pull", lock |-> @.lock, data |-> @.data, wait |-> @.wait, from |-> @.from,
                                      need |-> Len(hist), dl |-> now + @.wait]]
     ELSE /\ ph' = [ph EXCEPT ![s] = "pull1"]
          /\ rq' = [rq EXCEPT ![s] = [op |-> "pull", lock |-> @.lock, data |-> @.data, wait |-> @.wait, from |-> @.from,
                                      need |-> Len(hist), dl |-> now]]
  /\ known' = Len(hist)
  /\ UNCHANGED <<cfg, hist, holder, queue, lo, hi, now, gone, out>>

PullTimeout(s) ==
  /\ ph[s] = "pullwait" /\ now >= rq[s].dl
  /\ ph' = [ph EXCEPT ![s] = "pull1"]
  /\ UNCHANGED <<known, cfg, hist, holder, queue, lo, hi, now, rq, gone, out>>

\* asking for the lock one has is an error; the lock of a read-only server cannot be obtained
PullLock(s) ==
  /\ ph[s] = "pull1" /\ rq[s].lock
  /\ IF holder = s THEN Stop(s)
     ELSE /\ IF holder = None
             THEN /\ holder' = s /\ lo' = now + cfg.T /\ hi' = now + cfg.T
                  /\ ph' = [ph EXCEPT ![s] = "granted"] /\ queue' = queue
             ELSE /\ queue' = Append(queue, s) /\ ph' = [ph EXCEPT ![s] = "lockwait"]
                  /\ UNCHANGED <<holder, lo, hi>>
          /\ UNCHANGED <<known, cfg, hist, now, rq, gone, out>>

\* what is sent: everything committed that the client does not have
PullSend(s, c) ==
  /\ ph[s] = (IF rq[s].op = "pull" /\ rq[s].lock THEN "granted" ELSE "pull1")
  /\ IF cfg.shared /\ ~ rq[s].lock THEN c >= known ELSE c = Len(hist)
  /\ known' = c
  /\ ph' = [ph EXCEPT ![s] = "idle"]
  /\ out' = Reply(s, [op |-> "pull", ok |-> cfg.w \/ ~ rq[s].lock, cp |-> c,
                      got |-> IF rq[s].data THEN SubSeq(hist, rq[s].from + 1, c) ELSE <<>>])
  /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ IF holder = s THEN lo' = now + cfg.T /\ hi' = now + cfg.T ELSE UNCHANGED <<lo, hi>>
  /\ UNCHANGED <<cfg, hist, holder, queue, now, gone>>

DoUnlock(s) ==
  /\ ph[s] = "req" /\ rq[s].op = "unlock"
  /\ out' = Reply(s, [op |-> "unlock"])
  /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ LET P == [ph EXCEPT ![s] = "idle"] IN IF holder = s THEN HandOn(P) ELSE KeepLock(P)
  /\ UNCHANGED <<known, cfg, hist, lo, hi, now, gone>>

\* a push needs the lock, or takes it if it is free
DoPush(s) ==
  /\ ph[s] = "req" /\ rq[s].op = "push"
  /\ IF holder \notin {None, s} THEN Stop(s)
     ELSE /\ holder' = s /\ lo' = now + cfg.T /\ hi' = now + cfg.T
          /\ ph' = [ph EXCEPT ![s] = "push"]
          /\ rq' = [rq EXCEPT ![s].st = IF ~ cfg.w THEN "R" ELSE IF rq[s].from # Len(hist) THEN "C" ELSE "ok"]
          /\ UNCHANGED <<known, cfg, hist, queue, now, gone, out>>

\* the block is complete: it is appended, once, at the position that was claimed
PushEnd(s) ==
  /\ ph[s] = "push" /\ rq[s].left = 0
  /\ hist' = IF rq[s].st = "ok" THEN hist \o rq[s].blk ELSE hist
  /\ known' = Len(hist')
  /\ out' = Reply(s, [op |-> "push", st |-> rq[s].st])
  /\ LET P == [q \in Session |-> IF q = s THEN "idle" ELSE IF ph[q] = "pullwait" THEN "pull1" ELSE ph[q]]
     IN IF rq[s].un /\ holder = s THEN HandOn(P) ELSE KeepLock(P)
  /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ UNCHANGED <<cfg, lo, hi, now, gone>>

\* the lock is taken from a session that keeps it too long
LockTimeout(s) ==
  /\ holder = s /\ cfg.T > 0 /\ now >= lo /\ ph[s] # "granted"
  /\ rq' = IF ph[s] = "push" /\ rq[s].st = "ok" THEN [rq EXCEPT ![s].st = "t"] ELSE rq
  /\ HandOn(ph)
  /\ UNCHANGED <<known, cfg, hist, lo, hi, now, gone, out>>

DoRead(s, c) ==
  /\ ph[s] = "req" /\ rq[s].op = "read"
  /\ IF cfg.shared THEN c >= known ELSE c = Len(hist)
  /\ known' = c
  /\ LET u == IF rq[s].until > c THEN c ELSE rq[s].until IN
     LET f == IF rq[s].from > u THEN u ELSE rq[s].from IN
     out' = Reply(s, [op |-> "read", until |-> u, got |-> SubSeq(hist, f + 1, u)])
  /\ ph' = [ph EXCEPT ![s] = "idle"] /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ IF holder = s THEN lo' = now + cfg.T /\ hi' = now + cfg.T ELSE UNCHANGED <<lo, hi>>
  /\ UNCHANGED <<cfg, hist, holder, queue, now, gone>>

\* comparing histories; the fast comparison may miss a difference
DoHash(s, same, c) ==
  /\ ph[s] = "req" /\ rq[s].op = "hash"
  /\ IF cfg.shared THEN c >= known ELSE c = Len(hist)
  /\ known' = c
  /\ LET really == Len(rq[s].cells) <= c /\ SubSeq(hist, 1, Len(rq[s].cells)) = rq[s].cells IN
     (same = really) \/ (same /\ ~ rq[s].full /\ Len(rq[s].cells) <= c)
  /\ out' = Reply(s, [op |-> "hash", same |-> same])
  /\ ph' = [ph EXCEPT ![s] = "idle"] /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ UNCHANGED <<cfg, hist, holder, queue, lo, hi, now, gone>>

DoQuit(s) == ph[s] = "req" /\ rq[s].op = "quit" /\ Stop(s)

\* the server finds that the client is gone, unless the session waits for the lock or for data
Notice(s) ==
  /\ gone[s]
  /\ ph[s] = "idle" \/ (ph[s] = "push" /\ rq[s].left > 0)
  /\ Stop(s)

Internal ==
  \E s \in Session :
     \/ DoPull(s) \/ PullTimeout(s) \/ PullLock(s) \/ DoUnlock(s)
     \/ DoPush(s) \/ PushEnd(s) \/ LockTimeout(s) \/ DoQuit(s) \/ Notice(s)
     \/ \E c \in known..Len(hist) :
           DoHello(s, c) \/ PullSend(s, c) \/ DoRead(s, c) \/ DoHash(s, TRUE, c) \/ DoHash(s, FALSE, c)

\* nothing is left to do
Quiet ==
  /\ \A s \in Session :
       /\ out[s] = <<>>
       /\ \/ ph[s] = "off"
          \/ ph[s] = "idle" /\ ~ gone[s]
          \/ ph[s] = "pullwait" /\ now < rq[s].dl
          \/ ph[s] = "lockwait"
          \/ ph[s] = "push" /\ rq[s].left > 0 /\ ~ gone[s]
  /\ (holder # None /\ cfg.T > 0) => now < hi
  /\ holder = None => queue = <<>>

Receive(s, r) ==
  /\ out[s] # <<>> /\ Head(out[s]) = r
  /\ out' = [out EXCEPT ![s] = Tail(@)]
  /\ UNCHANGED <<known, cfg, hist, holder, queue, lo, hi, now, ph, rq, gone>>

-----------------------------------------------------------------------------
HistGrows == [][IsPrefix(hist, hist')]_svars
\* only the holder of the lock pushes
OnlyHolder == [][\A s \in Session : (ph[s] = "push" /\ ph'[s] # "push" /\ hist' # hist) => holder = s]_svars
QueueOk ==
  /\ \A s \in Session : ph[s] = "lockwait" <=> \E i \in 1..Len(queue) : queue[i] = s
  /\ \A i, j \in 1..Len(queue) : queue[i] = queue[j] => i = j
  /\ holder # None => ph[holder] # "off" /\ ph[holder] # "lockwait"
  /\ holder = None => queue = <<>>
\* a pull waits only when there is nothing new (for another process, it waits as long as it asked)
NoStalePull == \A s \in Session : (ph[s] = "pullwait" /\ ~ cfg.shared) => rq[s].from = Len(hist)
=============================================================================
