------------------------------ MODULE UpgradeTrace ------------------------------
(* Recorded openings of real files by generated programs are behaviours of Upgrade *)
EXTENDS Upgrade, Json, IOUtils
FamilyFromFile == JsonDeserialize(IOEnv.FAMILY)

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<uvars, tid, l>>

Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ DataInit(<<>>) /\ sess = << >>

Next ==
  \/ IsEvent("op") /\ Written(Ev.op)
  \/ IsEvent("open") /\ Open(Ev.id, Ev.v, Ev.mode, Ev.res, Ev.calls, Ev.ops, Ev.w)
  \/ IsEvent("died") /\ Died(Ev.v, Ev.calls, Ev.ops)
  \/ IsEvent("use") /\ Use(Ev.id, Ev.how, Ev.ok, Ev.ran, Ev.w)
  \/ IsEvent("close") /\ Closed(Ev.id)
  \/ IsEvent("file") /\ View(Ev.w) /\ UNCHANGED sess
  \/ l > Len(Tr.ev) /\ UNCHANGED vars

Spec == TInit /\ [][Next]_vars
===============================================================================
