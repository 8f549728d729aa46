------------------------------- MODULE Journal -------------------------------
(* Design model of a journal: one writer at a time writes a log, makes soft   *)
(* and hard checkpoints by the steps of the implementation, and can be killed *)
(* or lose power between any two steps; the next writer opens what is left.   *)
EXTENDS JournalDisk

CONSTANTS MaxPos, MaxCrash

VARIABLES
  pc,        \* "down", "idle", or the next step of a checkpoint in progress
  pos,       \* position of the writer (end of what it has written)
  ck,        \* its checkpoint position
  hard,      \* its hard checkpoint position
  hi, si,    \* its hard_index (0..1) and soft_index (0..1)
  crashes,   \* number of crashes so far
  afterPower \* the last end was a power failure

wvars == <<pc, pos, ck, hard, hi, si, crashes, afterPower>>
vars == <<disk, promises, wvars>>

\* slot number (1..4) of copy c (0..1) of pair i (0..1)
Slot(i, c) == 2 * i + c + 1

Init ==
  /\ DiskInit
  /\ pc = "down" /\ pos = 0 /\ ck = 0 /\ hard = 0 /\ hi = 0 /\ si = 0
  /\ crashes = 0 /\ afterPower = FALSE

\* indexes found by the constructor: the order of the scan does not matter for
\* correctness, except that the soft slots are those of the pair that is not hard
Indexes(h, size) ==
  LET soft == SoftOf(h, size)
      hd == HardOf(h)
      S == {k \in Slots : -h[k] = soft}
      H == {i \in 0..1 : h[2*i+1] = h[2*i+2] /\ h[2*i+1] = hd}
  IN IF S # {} THEN LET k == Max(S) IN <<1 - ((k-1) \div 2), (k-1) % 2>>
     ELSE IF H # {} THEN <<Max(H), 0>> ELSE <<0, 0>>

StartHistory(c) ==
  /\ asked' = {x \in asked : x <= c} \cup {c}
  /\ softRet' = c

OpenNew ==
  /\ pc = "down" /\ sizeC = 0
  /\ DiskWrite({<<k, HS>> : k \in Slots}, TRUE, HS, HS)
  /\ pc' = "idle" /\ pos' = HS /\ ck' = HS /\ hard' = HS /\ hi' = 0 /\ si' = 0
  /\ StartHistory(HS)
  /\ UNCHANGED <<hardRet, crashes, afterPower>>

(* Opening an existing file: default mode when there is nothing after the     *)
(* checkpoint and no power was lost, overwrite mode otherwise.                 *)
OpenOld ==
  /\ pc = "down" /\ sizeC > 0 /\ exists
  /\ WritableOpens(slotC, sizeC, "overwrite")
  /\ LET c == RecoverAt(slotC, sizeC)
         ix == Indexes(slotC, sizeC)
         overwrite == afterPower \/ sizeC # c
     IN /\ pos' = c /\ ck' = c /\ hard' = HardOf(slotC)
        /\ hi' = ix[1]
        /\ IF overwrite
           THEN \* both soft slots are made to say c
             /\ pc' = "over" /\ si' = 1 - ix[2]
             /\ DiskWrite({<<Slot(1 - ix[1], 1 - ix[2]), -c>>}, FALSE, HS, HS)
           ELSE pc' = "idle" /\ si' = ix[2] /\ UNCHANGED disk
        /\ StartHistory(c)
  /\ UNCHANGED <<hardRet, crashes, afterPower>>

Over ==
  /\ pc = "over"
  /\ si' = 1 - si
  /\ DiskWrite({<<Slot(1 - hi, 1 - si), -ck>>}, FALSE, HS, HS)
  /\ pc' = "idle" /\ afterPower' = FALSE
  /\ UNCHANGED <<promises, pos, ck, hard, hi, crashes>>

Write ==
  /\ pc = "idle" /\ pos < MaxPos
  /\ pos' = pos + 1
  /\ DiskWrite({}, FALSE, pos, pos + 1)
  \* what is written over lost content is not lost any more
  /\ UNCHANGED <<promises, pc, ck, hard, hi, si, crashes, afterPower>>

Soft ==
  /\ pc = "idle" /\ pos > ck
  /\ si' = 1 - si /\ ck' = pos
  /\ DiskWrite({<<Slot(1 - hi, 1 - si), -pos>>}, FALSE, HS, HS)
  /\ asked' = asked \cup {pos} /\ softRet' = pos
  /\ UNCHANGED <<hardRet, pc, pos, hard, hi, crashes, afterPower>>

(* Hard checkpoint: keep the last soft checkpoint out of the way, first copy, *)
(* sync, second copy, datasync.                                               *)
Hard0 ==
  /\ pc = "idle" /\ pos > hard
  /\ asked' = asked \cup {pos}
  /\ pc' = "h1"
  /\ IF ck > hard /\ si = 0
     THEN DiskWrite({<<Slot(1 - hi, 1), -ck>>}, FALSE, HS, HS)
     ELSE UNCHANGED disk
  /\ UNCHANGED <<softRet, hardRet, pos, ck, hard, hi, si, crashes, afterPower>>

Hard1 ==
  /\ pc = "h1" /\ pc' = "h2"
  /\ hi' = 1 - hi /\ hard' = pos /\ ck' = pos
  /\ DiskWrite({<<Slot(1 - hi, 0), pos>>}, FALSE, HS, HS)
  /\ UNCHANGED <<promises, pos, si, crashes, afterPower>>

Hard2 == pc = "h2" /\ pc' = "h3" /\ DiskSync
         /\ UNCHANGED <<promises, pos, ck, hard, hi, si, crashes, afterPower>>
Hard3 ==
  /\ pc = "h3" /\ pc' = "h4"
  /\ DiskWrite({<<Slot(hi, 1), hard>>}, FALSE, HS, HS)
  /\ UNCHANGED <<promises, pos, ck, hard, hi, si, crashes, afterPower>>
Hard4 ==
  /\ pc = "h4" /\ pc' = "idle" /\ DiskDatasync
  /\ softRet' = ck /\ hardRet' = hard
  /\ UNCHANGED <<asked, pos, ck, hard, hi, si, crashes, afterPower>>

Kill ==
  /\ pc # "down" /\ crashes < MaxCrash
  /\ pc' = "down" /\ crashes' = crashes + 1
  /\ DiskKill
  /\ UNCHANGED <<afterPower, promises, pos, ck, hard, hi, si>>

Power ==
  /\ pc # "down" /\ crashes < MaxCrash /\ existsD
  /\ \E h \in PowerHeaders, s \in sizeD..sizeC :
       /\ DiskPower(h, s)
       \* the next writer takes what it finds after the hard checkpoint as it is
       /\ HardOf(h) <= s
  /\ softRet' = 0
  /\ asked' = asked \cup {-v : v \in UNION {slotP[k] \cup {slotD[k]} : k \in Slots}}
  /\ pc' = "down" /\ crashes' = crashes + 1 /\ afterPower' = TRUE
  /\ UNCHANGED <<hardRet, pos, ck, hard, hi, si>>

Next == OpenNew \/ OpenOld \/ Over \/ Write \/ Soft \/ Hard0 \/ Hard1 \/ Hard2 \/ Hard3 \/ Hard4
        \/ Kill \/ Power

Spec == Init /\ [][Next]_vars

\* after a power failure, what lies between the hard and a soft checkpoint may be
\* anything: the promise concerns the part before the hard checkpoint
PowerSafeD ==
  hardRet > 0 =>
    /\ existsD
    /\ \A h \in PowerHeaders :
         LET r == HardOf(h) IN
           r >= hardRet /\ r \in asked /\ r <= sizeD /\ ~ Touches(pend, HS, r)

CanReopen == pc = "down" /\ exists => WritableOpens(slotC, sizeC, "overwrite")
ProcessSafeD == afterPower \/ ProcessSafe
=============================================================================
