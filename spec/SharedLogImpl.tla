---------------------------- MODULE SharedLogImpl ----------------------------
(* How joedb implements SharedLog: a head lock that protects the header, a    *)
(* tail lock that protects the end of the log.  Each system call is a step.   *)
(* TLC checks that this refines SharedLog.                                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Writers, Readers, None, MaxTx, MaxKill,
  EarlySize,  \* TRUE: the size is read before locking (as it was before it was fixed)
  LateFlush   \* TRUE: an aborted transaction is flushed after unlocking (as it was)

Proc == Writers \cup Readers

VARIABLES
  data,    \* the file after its header: a sequence of cells, two for each transaction
  hdr,     \* number of committed cells; -1 if there is no header
  tail,    \* owner of the tail lock
  head,    \* set of owners of the head lock
  headX,   \* whether it is exclusive
  pc, sz, pos,
  kills,
  dirty, need, could, view, cnt, mine  \* as in SharedLog

vars == <<data, hdr, tail, head, headX, pc, sz, pos, kills, dirty, need, could, view, cnt, mine>>
hist == <<dirty, need, could, view, cnt, mine>>

Tx(p, n) == 100 * p + n
Log == IF hdr <= 0 THEN <<>> ELSE [i \in 1..(hdr \div 2) |-> data[2 * i].t]

Init ==
  /\ data = <<>> /\ hdr = -1 /\ tail = None /\ head = {} /\ headX = FALSE
  /\ pc = [p \in Proc |-> "none"] /\ sz = [p \in Proc |-> 0] /\ pos = [p \in Proc |-> 0]
  /\ kills = 0 /\ dirty = FALSE
  /\ need = [p \in Proc |-> 0] /\ could = [p \in Proc |-> FALSE] /\ view = [p \in Proc |-> <<>>]
  /\ cnt = [p \in Proc |-> 0] /\ mine = [p \in Proc |-> 0]

Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Size == IF hdr < 0 THEN 0 ELSE 1 + Len(data)
Put(i, c) == IF i <= Len(data) THEN [data EXCEPT ![i] = c] ELSE Append(data, c)

TakeTail(p) == tail = None /\ tail' = p
TakeHead(p, x) == (IF x THEN head = {} ELSE ~ headX) /\ head' = head \cup {p} /\ headX' = x
DropHead(p) == head' = head \ {p} /\ headX' = FALSE

OpenStart(p) ==
  /\ pc[p] = "none"
  /\ Go(p, IF p \in Writers THEN (IF EarlySize THEN "o_early" ELSE "o_tail") ELSE "r_head")
  /\ need' = [need EXCEPT ![p] = Len(Log)] /\ could' = [could EXCEPT ![p] = hdr >= 0]
  /\ view' = [view EXCEPT ![p] = <<>>]
  /\ UNCHANGED <<data, hdr, tail, head, headX, sz, pos, kills, dirty, cnt, mine>>

OEarly(p) == pc[p] = "o_early" /\ sz' = [sz EXCEPT ![p] = Size] /\ Go(p, "o_tail")
             /\ UNCHANGED <<data, hdr, tail, head, headX, pos, kills, hist>>
OTail(p) == pc[p] = "o_tail" /\ TakeTail(p) /\ Go(p, "o_head")
            /\ UNCHANGED <<data, hdr, head, headX, sz, pos, kills, hist>>
OHead(p) == pc[p] = "o_head" /\ TakeHead(p, TRUE) /\ Go(p, IF EarlySize THEN "o_hdr" ELSE "o_size")
            /\ UNCHANGED <<data, hdr, tail, sz, pos, kills, hist>>
OSize(p) == pc[p] = "o_size" /\ sz' = [sz EXCEPT ![p] = Size] /\ Go(p, "o_hdr")
            /\ UNCHANGED <<data, hdr, tail, head, headX, pos, kills, hist>>
OHdr(p) ==
  /\ pc[p] = "o_hdr"
  /\ IF sz[p] = 0
     THEN hdr' = 0 /\ pos' = [pos EXCEPT ![p] = 0] /\ Go(p, "o_unlockhead")
     ELSE /\ hdr' = hdr /\ pos' = [pos EXCEPT ![p] = hdr]
          /\ Go(p, IF sz[p] > 1 + hdr THEN "f_unlockhead" ELSE "o_unlockhead")
  /\ UNCHANGED <<data, tail, head, headX, sz, kills, hist>>
OUnlockHead(p) ==
  /\ pc[p] \in {"o_unlockhead", "f_unlockhead"} /\ DropHead(p)
  /\ Go(p, IF pc[p] = "o_unlockhead" THEN "o_unlocktail" ELSE "f_unlocktail")
  /\ UNCHANGED <<data, hdr, tail, sz, pos, kills, hist>>
OUnlockTail(p) ==
  /\ pc[p] \in {"o_unlocktail", "f_unlocktail"} /\ tail' = None
  /\ Go(p, IF pc[p] = "o_unlocktail" THEN "ready" ELSE "none")
  /\ view' = IF pc[p] = "o_unlocktail" THEN [view EXCEPT ![p] = SubSeq(Log, 1, pos[p] \div 2)] ELSE view
  /\ UNCHANGED <<data, hdr, head, headX, sz, pos, kills, dirty, need, could, cnt, mine>>

RHead(p) == pc[p] \in {"r_head", "p_head"} /\ TakeHead(p, FALSE)
            /\ Go(p, IF pc[p] = "r_head" THEN "r_hdr" ELSE "p_hdr")
            /\ UNCHANGED <<data, hdr, tail, sz, pos, kills, hist>>
RHdr(p) == pc[p] \in {"r_hdr", "p_hdr"}
           /\ Go(p, IF hdr < 0 THEN "rf_unlock" ELSE IF pc[p] = "r_hdr" THEN "r_unlock" ELSE "p_unlock")
           /\ pos' = [pos EXCEPT ![p] = hdr]
           /\ UNCHANGED <<data, hdr, tail, head, headX, sz, kills, hist>>
RUnlock(p) ==
  /\ pc[p] \in {"r_unlock", "p_unlock", "rf_unlock"} /\ DropHead(p)
  /\ Go(p, IF pc[p] = "rf_unlock" THEN "none" ELSE "ready")
  /\ view' = IF pc[p] = "rf_unlock" THEN view ELSE [view EXCEPT ![p] = SubSeq(Log, 1, pos[p] \div 2)]
  /\ UNCHANGED <<data, hdr, tail, sz, pos, kills, dirty, need, could, cnt, mine>>
PullStart(p) ==
  /\ pc[p] = "ready" /\ p \in Readers /\ Go(p, "p_head")
  /\ need' = [need EXCEPT ![p] = Len(Log)]
  /\ UNCHANGED <<data, hdr, tail, head, headX, sz, pos, kills, dirty, could, view, cnt, mine>>

TxStart(p) ==
  /\ pc[p] = "ready" /\ p \in Writers /\ cnt[p] < MaxTx /\ Go(p, "t_tail")
  /\ need' = [need EXCEPT ![p] = Len(Log)]
  /\ UNCHANGED <<data, hdr, tail, head, headX, sz, pos, kills, dirty, could, view, cnt, mine>>
TTail(p) == pc[p] = "t_tail" /\ TakeTail(p) /\ Go(p, "t_pull")
            /\ UNCHANGED <<data, hdr, head, headX, sz, pos, kills, hist>>
TPull(p) ==
  /\ pc[p] = "t_pull" /\ pos' = [pos EXCEPT ![p] = hdr] /\ Go(p, "t_body")
  /\ view' = [view EXCEPT ![p] = Log] /\ mine' = [mine EXCEPT ![p] = 0]
  /\ UNCHANGED <<data, hdr, tail, head, headX, sz, kills, dirty, need, could, cnt>>
\* part of the data may be written before the end of the body
TWrite1(p) ==
  /\ pc[p] = "t_body" /\ data' = Put(pos[p] + 1, [t |-> Tx(p, cnt[p] + 1), i |-> 1])
  /\ Go(p, "t_body2")
  /\ UNCHANGED <<hdr, tail, head, headX, sz, pos, kills, hist>>
TBodyEnd(p) ==
  /\ pc[p] = "t_body2" /\ \E s \in {"t_write2", "a_flush"} : Go(p, s)
  /\ UNCHANGED <<data, hdr, tail, head, headX, sz, pos, kills, hist>>
TWrite2(p) ==
  /\ pc[p] = "t_write2" /\ data' = Put(pos[p] + 2, [t |-> Tx(p, cnt[p] + 1), i |-> 2])
  /\ Go(p, "t_head")
  /\ UNCHANGED <<hdr, tail, head, headX, sz, pos, kills, hist>>
THead(p) == pc[p] = "t_head" /\ TakeHead(p, TRUE) /\ Go(p, "t_cp")
            /\ UNCHANGED <<data, hdr, tail, sz, pos, kills, hist>>
TCp(p) ==
  /\ pc[p] = "t_cp" /\ hdr' = pos[p] + 2 /\ Go(p, "t_unlockhead")
  /\ cnt' = [cnt EXCEPT ![p] = @ + 1] /\ mine' = [mine EXCEPT ![p] = @ + 1]
  /\ view' = [view EXCEPT ![p] = Append(@, Tx(p, cnt[p] + 1))]
  /\ UNCHANGED <<data, tail, head, headX, sz, pos, kills, dirty, need, could>>
TUnlockHead(p) == pc[p] = "t_unlockhead" /\ DropHead(p) /\ Go(p, "t_unlocktail")
                  /\ UNCHANGED <<data, hdr, tail, sz, pos, kills, hist>>
TUnlockTail(p) == pc[p] = "t_unlocktail" /\ tail' = None /\ Go(p, "ready")
                  /\ UNCHANGED <<data, hdr, head, headX, sz, pos, kills, hist>>

\* an aborted transaction: its last buffer is written, then the lock is released
AFlush(p) ==
  /\ pc[p] = "a_flush" /\ ~ LateFlush
  /\ data' = Put(pos[p] + 2, [t |-> Tx(p, cnt[p] + 1), i |-> 2]) /\ Go(p, "a_unlock")
  /\ UNCHANGED <<hdr, tail, head, headX, sz, pos, kills, hist>>
AUnlock(p) ==
  /\ pc[p] = (IF LateFlush THEN "a_flush" ELSE "a_unlock") /\ tail' = None /\ Go(p, "cancelled")
  /\ dirty' = TRUE /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<data, hdr, head, headX, sz, pos, kills, need, could, view, mine>>
Close(p) ==
  /\ pc[p] \in {"ready", "cancelled"} /\ Go(p, "none")
  /\ data' = IF LateFlush /\ pc[p] = "cancelled" /\ Len(data) > pos[p]
             THEN Put(pos[p] + 2, [t |-> Tx(p, cnt[p]), i |-> 2]) ELSE data
  /\ UNCHANGED <<hdr, tail, head, headX, sz, pos, kills, hist>>

Busy == {"t_body", "t_body2", "t_write2", "t_head", "t_cp", "t_unlockhead", "t_unlocktail", "a_flush", "a_unlock"}
Kill(p) ==
  /\ kills < MaxKill /\ pc[p] # "killed" /\ kills' = kills + 1 /\ Go(p, "killed")
  /\ tail' = (IF tail = p THEN None ELSE tail)
  /\ head' = head \ {p} /\ headX' = (headX /\ p \notin head)
  /\ dirty' = (dirty \/ pc[p] \in Busy)
  /\ UNCHANGED <<data, hdr, sz, pos, need, could, view, cnt, mine>>

Next == \E p \in Proc :
  OpenStart(p) \/ OEarly(p) \/ OTail(p) \/ OHead(p) \/ OSize(p) \/ OHdr(p) \/ OUnlockHead(p) \/ OUnlockTail(p)
  \/ RHead(p) \/ RHdr(p) \/ RUnlock(p) \/ PullStart(p)
  \/ TxStart(p) \/ TTail(p) \/ TPull(p) \/ TWrite1(p) \/ TBodyEnd(p) \/ TWrite2(p) \/ THead(p) \/ TCp(p)
  \/ TUnlockHead(p) \/ TUnlockTail(p) \/ AFlush(p) \/ AUnlock(p) \/ Close(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AbsState(s) ==
  CASE s \in {"none", "ready", "cancelled", "killed"} -> s
    [] s \in {"o_early", "o_tail", "o_head", "o_size", "o_hdr", "o_unlockhead", "f_unlockhead",
              "o_unlocktail", "f_unlocktail", "r_head", "r_hdr", "r_unlock", "rf_unlock"} -> "opening"
    [] s \in {"p_head", "p_hdr", "p_unlock"} -> "pulling"
    [] s \in {"t_tail", "t_pull"} -> "waiting"
    [] s \in {"t_body", "t_body2"} -> "body"
    [] OTHER -> "ending"

A == INSTANCE SharedLog WITH
       log <- Log, init <- (hdr >= 0),
       st <- [p \in Proc |-> AbsState(pc[p])],
       kind <- [p \in Proc |-> IF p \in Readers THEN "r" ELSE "w"]

\* every step of the implementation is a step of SharedLog, or changes nothing it sees
SharedRefined == [][A!SharedNext]_<<Log, hdr >= 0, dirty, [p \in Proc |-> AbsState(pc[p])], need, could, view, cnt, mine>>

\* the committed part is made of whole transactions
Whole == \A i \in 1..(IF hdr <= 0 THEN 0 ELSE hdr \div 2) :
           data[2*i-1] = [t |-> data[2*i].t, i |-> 1] /\ data[2*i].i = 2
LogGrows == [][A!IsPrefix(Log, Log')]_vars
ViewsArePrefixes == A!ViewsArePrefixes
Alone == A!Alone
Once == A!Once
\* a transaction that returned is in the log
NotLost == \A p \in Writers : pc[p] = "t_unlocktail" => \E i \in 1..Len(Log) : Log[i] = Tx(p, cnt[p])
=============================================================================
