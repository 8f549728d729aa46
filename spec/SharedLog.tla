------------------------------- MODULE SharedLog -------------------------------
(* A file shared by several processes, as its users see it: one sequence of   *)
(* committed transactions, that opening, pulling and transactions observe.    *)
(* Operations have a start and an end; the commits are the atomic steps.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Proc, None

VARIABLES
  log,    \* committed transactions
  init,   \* the file has a header
  dirty,  \* a transaction was aborted or interrupted: there may be a tail
  st,     \* state of each process
  kind,   \* "r" or "w"
  need,   \* length of the log when the operation in progress started
  could,  \* whether the file had a header when the opening in progress started
  view,   \* what the process has seen
  cnt,    \* transactions started by each process
  mine    \* committed so far by the transaction in progress

slog == <<log, init, dirty, st, kind, need, could, view, cnt, mine>>

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

SharedInit ==
  /\ log = <<>> /\ init = FALSE /\ dirty = FALSE
  /\ st = [p \in Proc |-> "none"] /\ kind = [p \in Proc |-> "w"]
  /\ need = [p \in Proc |-> 0] /\ could = [p \in Proc |-> FALSE]
  /\ view = [p \in Proc |-> <<>>] /\ cnt = [p \in Proc |-> 0]
  /\ mine = [p \in Proc |-> 0]

\* what a process may see: committed transactions, in order, everything that was
\* committed when it asked, and everything it has seen before
Sees(p, seen) == IsPrefix(seen, log) /\ Len(seen) >= need[p] /\ Len(seen) >= Len(view[p])

OpenStart(p, k) ==
  /\ st[p] = "none"
  /\ st' = [st EXCEPT ![p] = "opening"] /\ kind' = [kind EXCEPT ![p] = k]
  /\ need' = [need EXCEPT ![p] = Len(log)] /\ could' = [could EXCEPT ![p] = init]
  /\ view' = [view EXCEPT ![p] = <<>>]
  /\ UNCHANGED <<log, init, dirty, cnt, mine>>

OpenOk(p, seen) ==
  /\ st[p] = "opening" /\ init /\ Sees(p, seen)
  /\ st' = [st EXCEPT ![p] = "ready"] /\ view' = [view EXCEPT ![p] = seen]
  /\ UNCHANGED <<log, init, dirty, kind, need, could, cnt, mine>>

\* a reader fails only if there was nothing to read; a writer only if there is a tail
OpenFails(p) ==
  /\ st[p] = "opening"
  /\ IF kind[p] = "r" THEN ~ could[p] ELSE dirty
  /\ st' = [st EXCEPT ![p] = "none"]
  /\ UNCHANGED <<log, init, dirty, kind, need, could, view, cnt, mine>>

\* the file is initialised once, by a process that opens it for writing
Initialise(p) ==
  /\ ~ init /\ st[p] = "opening" /\ kind[p] = "w"
  /\ init' = TRUE
  /\ UNCHANGED <<log, dirty, st, kind, need, could, view, cnt, mine>>

TxStart(p) ==
  /\ st[p] \in {"ready", "cancelled"} /\ kind[p] = "w"
  /\ st' = [st EXCEPT ![p] = IF st[p] = "ready" THEN "waiting" ELSE "refusing"]
  /\ need' = [need EXCEPT ![p] = Len(log)]
  /\ UNCHANGED <<log, init, dirty, kind, could, view, cnt, mine>>

\* the body of a transaction runs alone, on the state left by all those before it
Body(p, seen) ==
  /\ st[p] = "waiting"
  /\ \A q \in Proc : st[q] # "body"
  /\ seen = log
  /\ st' = [st EXCEPT ![p] = "body"]
  /\ view' = [view EXCEPT ![p] = seen] /\ mine' = [mine EXCEPT ![p] = 0]
  /\ UNCHANGED <<log, init, dirty, kind, need, could, cnt>>

BodyEnd(p) ==
  /\ st[p] = "body"
  /\ st' = [st EXCEPT ![p] = "ending"]
  /\ UNCHANGED <<log, init, dirty, kind, need, could, view, cnt, mine>>

Tx(p, n) == 100 * p + n

\* a checkpoint makes one whole transaction visible, at the end of the log
Commit(p) ==
  /\ st[p] \in {"body", "ending"}
  /\ \A q \in Proc \ {p} : st[q] # "body"
  /\ IsPrefix(view[p], log) /\ Len(log) = Len(view[p])  \* nothing came in between
  /\ log' = Append(log, Tx(p, cnt[p] + 1))
  /\ view' = [view EXCEPT ![p] = log']
  /\ cnt' = [cnt EXCEPT ![p] = @ + 1] /\ mine' = [mine EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<init, dirty, st, kind, need, could>>

\* success: everything that was asked is committed
TxOk(p, n) ==
  /\ st[p] = "ending" /\ mine[p] = n
  /\ st' = [st EXCEPT ![p] = "ready"]
  /\ UNCHANGED <<log, init, dirty, kind, need, could, view, cnt, mine>>

\* failure: nothing is committed, and the client is not usable any more
TxAbort(p, n) ==
  /\ st[p] = "ending" /\ mine[p] = n
  /\ st' = [st EXCEPT ![p] = "cancelled"]
  /\ cnt' = [cnt EXCEPT ![p] = @ + 1]   \* the number of the lost transaction is not used again
  /\ dirty' = TRUE
  /\ UNCHANGED <<log, init, kind, need, could, view, mine>>

\* a cancelled client refuses, before running the body
TxRefused(p) ==
  /\ st[p] = "refusing"
  /\ st' = [st EXCEPT ![p] = "cancelled"]
  /\ UNCHANGED <<log, init, dirty, kind, need, could, view, cnt, mine>>

PullStart(p) ==
  /\ st[p] \in {"ready", "cancelled"}
  /\ st' = [st EXCEPT ![p] = IF st[p] = "ready" THEN "pulling" ELSE "refusing"]
  /\ need' = [need EXCEPT ![p] = Len(log)]
  /\ UNCHANGED <<log, init, dirty, kind, could, view, cnt, mine>>

PullOk(p, seen) ==
  /\ st[p] = "pulling" /\ Sees(p, seen)
  /\ st' = [st EXCEPT ![p] = "ready"] /\ view' = [view EXCEPT ![p] = seen]
  /\ UNCHANGED <<log, init, dirty, kind, need, could, cnt, mine>>

Close(p) ==
  /\ st[p] \in {"ready", "cancelled"}
  /\ st' = [st EXCEPT ![p] = "none"]
  /\ UNCHANGED <<log, init, dirty, kind, need, could, view, cnt, mine>>

Kill(p) ==
  /\ st' = [st EXCEPT ![p] = "killed"]
  /\ dirty' = (dirty \/ st[p] \in {"body", "ending"})
  /\ UNCHANGED <<log, init, kind, need, could, view, cnt, mine>>

SharedNext ==
  \E p \in Proc :
    \/ \E k \in {"r", "w"} : OpenStart(p, k)
    \/ \E n \in 0..Len(log) : OpenOk(p, SubSeq(log, 1, n)) \/ PullOk(p, SubSeq(log, 1, n))
    \/ OpenFails(p) \/ Initialise(p) \/ TxStart(p) \/ Body(p, log) \/ BodyEnd(p) \/ Commit(p)
    \/ TxOk(p, 1) \/ TxAbort(p, 0) \/ TxRefused(p) \/ PullStart(p) \/ Close(p) \/ Kill(p)

SharedSpec == SharedInit /\ [][SharedNext]_slog

-----------------------------------------------------------------------------
\* C04, C05: what was seen stays, in order, for ever
LogGrows == [][IsPrefix(log, log')]_slog
Alone == Cardinality({p \in Proc : st[p] = "body"}) <= 1
ViewsArePrefixes == \A p \in Proc : IsPrefix(view[p], log)
Once == \A i, j \in 1..Len(log) : log[i] = log[j] => i = j
=============================================================================
