------------------------------- MODULE ServerImpl -------------------------------
(* How the server keeps the promises of Server: one coroutine per session, a     *)
(* flag for the lock, a flag per session, two queues of waiting sessions woken   *)
(* by cancelling their timers, and a writer per push that writes each piece of   *)
(* data as it comes, after the end of what is committed.  Positions count units  *)
(* of data; a push carries a block of several units, that come one by one.       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Session, None,
  T,            \* lock timeout, or 0
  W,            \* whether the server is writable
  MaxReq,       \* number of requests
  MaxTime,
  Units,        \* units of data in a block
  Kinds,        \* kinds of requests
  Leaving,      \* whether clients may disappear
  StaleWriter,  \* wrong design: a push keeps the writer of the push before
  LateReset,    \* wrong design: losing the lock does not end the push
  EarlyFree,    \* wrong design: releasing the lock frees it even if it is handed on
  KeepQueue     \* wrong design: pulls that wait are not woken by a push

VARIABLES
  file, cp,           \* units written, how many are committed
  locked, locking, waiters, pullers, sig,
  timer,              \* when the session loses the lock
  pw,                 \* where the writer of the session is, or None
  buf,                \* units that have been received and not been written
  pc, rq, gone, out, now, lo, hi, reqs

ivars == <<file, cp, locked, locking, waiters, pullers, sig, timer, pw, buf, pc, rq, gone, out, now, lo, hi, reqs>>

NoRq == [op |-> "none"]
Range(q) == {q[i] : i \in 1..Len(q)}
Remove(q, s) == SelectSeq(q, LAMBDA x : x # s)
hist == SubSeq(file, 1, cp)

Init ==
  /\ file = <<>> /\ cp = 0 /\ locked = FALSE /\ locking = {} /\ waiters = <<>> /\ pullers = <<>> /\ sig = {}
  /\ timer = [s \in Session |-> None] /\ pw = [s \in Session |-> None] /\ buf = [s \in Session |-> 0]
  /\ pc = [s \in Session |-> "idle"] /\ rq = [s \in Session |-> NoRq] /\ gone = [s \in Session |-> FALSE]
  /\ out = [s \in Session |-> <<>>] /\ now = 0 /\ lo = 0 /\ hi = 0 /\ reqs = 0

-----------------------------------------------------------------------------
Block(s) == [i \in 1..Units |-> reqs]
Requests(s) ==
  {r \in {[op |-> "pull", lock |-> k, data |-> TRUE, wait |-> w, from |-> cp] : k \in BOOLEAN, w \in {0, 1}} :
     (IF r.lock THEN "lock" ELSE "pull") \in Kinds /\ (r.wait > 0 => "wait" \in Kinds)}
  \cup {[op |-> "unlock"]}
  \cup IF "quit" \in Kinds THEN {[op |-> "quit"]} ELSE {}
  \cup IF "push" \notin Kinds THEN {} ELSE {[op |-> "push", un |-> u, from |-> f, blk |-> Block(s), left |-> Units, st |-> "?"] : u \in BOOLEAN, f \in {cp, 0}}

Ask(s) ==
  /\ pc[s] = "idle" /\ ~ gone[s] /\ reqs < MaxReq
  /\ \E r \in Requests(s) : rq' = [rq EXCEPT ![s] = r]
  /\ pc' = [pc EXCEPT ![s] = "req"] /\ reqs' = reqs + 1
  /\ UNCHANGED <<file, cp, locked, locking, waiters, pullers, sig, timer, pw, buf, gone, out, now, lo, hi>>

Data(s) ==
  /\ pc[s] \in {"req", "push"} /\ rq[s].op = "push" /\ rq[s].left > 0
  /\ rq' = [rq EXCEPT ![s].left = @ - 1] /\ buf' = [buf EXCEPT ![s] = @ + 1]
  /\ IF s \in locking THEN hi' = now + T ELSE hi' = hi
  /\ UNCHANGED <<file, cp, locked, locking, waiters, pullers, sig, timer, pw, pc, gone, out, now, lo, reqs>>

Leave(s) ==
  /\ pc[s] # "off" \/ out[s] # <<>>
  /\ Leaving /\ ~ gone[s]
  /\ gone' = [gone EXCEPT ![s] = TRUE] /\ out' = [out EXCEPT ![s] = <<>>]
  /\ UNCHANGED <<file, cp, locked, locking, waiters, pullers, sig, timer, pw, buf, pc, rq, now, lo, hi, reqs>>

Time ==
  /\ now < MaxTime /\ now' = now + 1
  /\ UNCHANGED <<file, cp, locked, locking, waiters, pullers, sig, timer, pw, buf, pc, rq, gone, out, lo, hi, reqs>>

Receive(s) ==
  /\ out[s] # <<>> /\ out' = [out EXCEPT ![s] = Tail(@)]
  /\ UNCHANGED <<file, cp, locked, locking, waiters, pullers, sig, timer, pw, buf, pc, rq, gone, now, lo, hi, reqs>>

-----------------------------------------------------------------------------
Reply(s, r) == IF gone[s] THEN out ELSE [out EXCEPT ![s] = Append(@, r)]

\* taking the lock when it is free, or handed on
Take(s) == /\ locked' = TRUE /\ locking' = locking \cup {s} /\ timer' = [timer EXCEPT ![s] = IF T > 0 THEN now + T ELSE None]

\* releasing it: it is handed on by waking the first that waits.  S is the set of woken sessions.
Release(s, S) ==
  IF s \in locking
  THEN /\ locking' = locking \ {s} /\ timer' = [timer EXCEPT ![s] = None]
       /\ IF waiters = <<>> THEN locked' = FALSE /\ sig' = S
          ELSE locked' = (IF EarlyFree THEN FALSE ELSE locked) /\ sig' = S \cup {Head(waiters)}
  ELSE UNCHANGED <<locked, locking, timer>> /\ sig' = S

End(s) ==
  /\ pc' = [pc EXCEPT ![s] = "off"] /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ out' = Reply(s, [op |-> "eof"]) /\ gone' = [gone EXCEPT ![s] = FALSE]
  /\ Release(s, sig)
  /\ UNCHANGED <<file, cp, waiters, pullers, pw, buf, now, lo, hi, reqs>>

Refresh(s) ==
  IF s \in locking THEN /\ timer' = [timer EXCEPT ![s] = IF T > 0 THEN now + T ELSE None] /\ lo' = now + T /\ hi' = now + T
  ELSE UNCHANGED <<timer, lo, hi>>

Started(s, d) == [op |-> "pull", lock |-> rq[s].lock, data |-> rq[s].data, wait |-> rq[s].wait, from |-> rq[s].from, need |-> cp, dl |-> d]
DoPull(s) ==
  /\ pc[s] = "req" /\ rq[s].op = "pull"
  /\ IF rq[s].wait > 0 /\ rq[s].from = cp
     THEN /\ pullers' = Append(pullers, s) /\ pc' = [pc EXCEPT ![s] = "pullwait"]
          /\ rq' = [rq EXCEPT ![s] = Started(s, now + rq[s].wait)]
     ELSE /\ pc' = [pc EXCEPT ![s] = "pull1"] /\ pullers' = pullers /\ rq' = [rq EXCEPT ![s] = Started(s, now)]
  /\ UNCHANGED <<file, cp, locked, locking, waiters, sig, timer, pw, buf, gone, out, now, lo, hi, reqs>>

PullWake(s) ==
  /\ pc[s] = "pullwait" /\ (s \in sig \/ now >= rq[s].dl)
  /\ pullers' = Remove(pullers, s) /\ sig' = sig \ {s} /\ pc' = [pc EXCEPT ![s] = "pull1"]
  /\ UNCHANGED <<file, cp, locked, locking, waiters, timer, pw, buf, rq, gone, out, now, lo, hi, reqs>>

PullLock(s) ==
  /\ pc[s] = "pull1" /\ rq[s].lock
  /\ IF s \in locking THEN End(s)
     ELSE /\ IF ~ locked THEN /\ Take(s) /\ pc' = [pc EXCEPT ![s] = "granted"] /\ lo' = now + T /\ hi' = now + T /\ waiters' = waiters
             ELSE /\ waiters' = Append(waiters, s) /\ pc' = [pc EXCEPT ![s] = "lockwait"] /\ UNCHANGED <<locked, locking, timer, lo, hi>>
          /\ UNCHANGED <<file, cp, pullers, sig, pw, buf, rq, gone, out, now, reqs>>

LockWake(s) ==
  /\ pc[s] = "lockwait" /\ s \in sig
  /\ sig' = sig \ {s} /\ waiters' = Tail(waiters) /\ Take(s) /\ pc' = [pc EXCEPT ![s] = "granted"]
  /\ UNCHANGED <<file, cp, pullers, pw, buf, rq, gone, out, now, lo, hi, reqs>>

PullSend(s) ==
  /\ pc[s] = IF rq[s].op = "pull" /\ rq[s].lock THEN "granted" ELSE "pull1"
  /\ out' = Reply(s, [op |-> "pull", ok |-> W \/ ~ rq[s].lock, cp |-> cp, got |-> SubSeq(file, rq[s].from + 1, cp)])
  /\ pc' = [pc EXCEPT ![s] = "idle"] /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ Refresh(s)
  /\ UNCHANGED <<file, cp, locked, locking, waiters, pullers, sig, pw, buf, gone, now, reqs>>

DoUnlock(s) ==
  /\ pc[s] = "req" /\ rq[s].op = "unlock"
  /\ Release(s, sig) /\ out' = Reply(s, [op |-> "unlock"])
  /\ pc' = [pc EXCEPT ![s] = "idle"] /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ UNCHANGED <<file, cp, waiters, pullers, pw, buf, gone, now, lo, hi, reqs>>

DoPush(s) ==
  /\ pc[s] = "req" /\ rq[s].op = "push"
  /\ IF locked /\ s \notin locking THEN End(s)
     ELSE /\ locked' = TRUE /\ locking' = locking \cup {s}
          /\ timer' = [timer EXCEPT ![s] = IF T > 0 THEN now + T ELSE None] /\ lo' = now + T /\ hi' = now + T
          /\ LET st == IF ~ W THEN "R" ELSE IF rq[s].from # cp THEN "C" ELSE "ok" IN
             /\ rq' = [rq EXCEPT ![s].st = st]
             /\ pw' = [pw EXCEPT ![s] = IF st = "ok" THEN cp ELSE IF StaleWriter THEN @ ELSE None]
          /\ pc' = [pc EXCEPT ![s] = "push"]
          /\ UNCHANGED <<file, cp, waiters, pullers, sig, buf, gone, out, now, reqs>>

\* a piece of data is written, beyond what is committed, and it gives more time
RecvChunk(s) ==
  /\ pc[s] = "push" /\ buf[s] > 0
  /\ buf' = [buf EXCEPT ![s] = @ - 1]
  /\ IF pw[s] # None
     THEN /\ file' = [i \in 1..(IF pw[s] + 1 > Len(file) THEN pw[s] + 1 ELSE Len(file)) |-> IF i = pw[s] + 1 THEN rq[s].blk[1] ELSE file[i]]
          /\ pw' = [pw EXCEPT ![s] = @ + 1]
     ELSE UNCHANGED <<file, pw>>
  /\ IF s \in locking THEN timer' = [timer EXCEPT ![s] = IF T > 0 THEN now + T ELSE None] ELSE timer' = timer
  /\ UNCHANGED <<cp, locked, locking, waiters, pullers, sig, pc, rq, gone, out, now, lo, hi, reqs>>

PushEnd(s) ==
  /\ pc[s] = "push" /\ rq[s].left = 0 /\ buf[s] = 0
  /\ cp' = IF pw[s] # None THEN pw[s] ELSE cp
  /\ out' = Reply(s, [op |-> "push", st |-> rq[s].st])
  /\ LET S == IF KeepQueue THEN sig ELSE sig \cup Range(pullers) IN IF rq[s].un THEN Release(s, S) ELSE sig' = S /\ UNCHANGED <<locked, locking, timer>>
  /\ pullers' = IF KeepQueue THEN pullers ELSE <<>>
  /\ pc' = [pc EXCEPT ![s] = "idle"] /\ rq' = [rq EXCEPT ![s] = NoRq]
  /\ UNCHANGED <<file, waiters, pw, buf, gone, now, lo, hi, reqs>>

Timeout(s) ==
  /\ timer[s] # None /\ now >= timer[s] /\ s \in locking /\ pc[s] # "granted" \* the reply is sent at once
  /\ IF pw[s] # None /\ ~ LateReset
     THEN /\ pw' = [pw EXCEPT ![s] = None]
          /\ rq' = IF pc[s] = "push" THEN [rq EXCEPT ![s].st = "t"] ELSE rq
     ELSE UNCHANGED <<pw, rq>>
  /\ Release(s, sig)
  /\ UNCHANGED <<file, cp, waiters, pullers, buf, pc, gone, out, now, lo, hi, reqs>>

DoQuit(s) == pc[s] = "req" /\ rq[s].op = "quit" /\ End(s)

Notice(s) ==
  /\ gone[s] /\ (pc[s] = "idle" \/ (pc[s] = "push" /\ rq[s].left > 0 /\ buf[s] = 0))
  /\ End(s)

Server(s) ==
  DoPull(s) \/ PullWake(s) \/ PullLock(s) \/ LockWake(s) \/ PullSend(s) \/ DoUnlock(s) \/ DoPush(s) \/ RecvChunk(s)
  \/ PushEnd(s) \/ Timeout(s) \/ DoQuit(s) \/ Notice(s)
\* replies are received at once: nothing depends on when
Next == IF \A s \in Session : out[s] = <<>> THEN Time \/ \E s \in Session : Ask(s) \/ Data(s) \/ Leave(s) \/ Server(s)
        ELSE \E s \in Session : Receive(s)
Spec == Init /\ [][Next]_ivars
Fair == Spec /\ WF_ivars(Time) /\ \A s \in Session : WF_ivars(Server(s)) /\ WF_ivars(Receive(s))

-----------------------------------------------------------------------------
\* refinement
handed == locked /\ locking = {} /\ waiters # <<>>
aholder == IF locking # {} THEN CHOOSE s \in locking : TRUE ELSE IF handed THEN Head(waiters) ELSE None
aqueue == IF handed THEN Tail(waiters) ELSE waiters
aph == [s \in Session |-> IF pc[s] = "lockwait" /\ s \in sig THEN "granted" ELSE IF pc[s] = "pullwait" /\ s \in sig THEN "pull1" ELSE pc[s]]
Abs == INSTANCE Server WITH cfg <- [T |-> T, w |-> W, shared |-> FALSE], holder <- aholder, queue <- aqueue, ph <- aph, known <- cp
Refines == [][
    \/ \E s \in Session : Abs!Ask(s, rq'[s]) \/ Abs!Data(s, 1) \/ Abs!Leave(s) \/ (out[s] # <<>> /\ Abs!Receive(s, Head(out[s])))
    \/ Abs!Time(now') \/ Abs!Internal ]_(Abs!svars)
QueueOk == Abs!QueueOk
Exclusive == Cardinality(locking) <= 1
NoStalePull == Abs!NoStalePull
\* a lock that is handed on is taken, a pull ends
LockProgress == \A s \in Session : (T > 0 /\ pc[s] = "lockwait" /\ now + T * (1 + Len(waiters)) < MaxTime) ~> (pc[s] # "lockwait" \/ now = MaxTime)
=============================================================================
