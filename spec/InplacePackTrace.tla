---------------------------- MODULE InplacePackTrace ----------------------------
(* the system calls of inplace_pack are those of InplacePack *)
EXTENDS InplacePack, Sequences, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<pvars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ PInit

TNext ==
  \/ packed = "none" /\ step = 0 /\ Create /\ UNCHANGED <<tid, l>>
  \/ IsEvent("write") /\ Ev.to = "packed" /\ Write
  \/ IsEvent("sync") /\ Ev.to = "packed" /\ Sync
  \/ IsEvent("sync") /\ Ev.to # "packed" /\ UNCHANGED pvars
  \/ IsEvent("rename") /\ Ev.from = "name" /\ Ev.to = "unpacked" /\ Keep
  \/ IsEvent("rename") /\ Ev.from = "packed" /\ Ev.to = "name" /\ Replace
  \/ IsEvent("end") /\ name = "new" /\ UNCHANGED pvars
  \/ IsEvent("refused") /\ name = "old" /\ UNCHANGED pvars
  \/ l > Len(Tr.ev) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
===============================================================================
