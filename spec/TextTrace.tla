------------------------------- MODULE TextTrace -------------------------------
(* strings written and read by the real code *)
EXTENDS Text, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1
TNext ==
  \/ /\ l <= Len(Tr.ev) /\ l' = l + 1 /\ tid' = tid
     /\ CASE Ev.e = "write" -> Printable(Ev.t) /\ ReadString(Ev.t) = Ev.s
          [] Ev.e = "read" -> Ev.s = ReadString(Ev.t)
          [] OTHER -> FALSE
  \/ l > Len(Tr.ev) /\ UNCHANGED vars
Spec == TInit /\ [][TNext]_vars
===============================================================================
