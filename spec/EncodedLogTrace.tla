---------------------------- MODULE EncodedLogTrace ----------------------------
(* Recorded histories of journals in encoded files are behaviours of EncodedLog *)
EXTENDS EncodedLog, Json, IOUtils, Sequences, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<lvars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ LInit
Next == \/ IsEvent("opened") /\ LOpen(Ev.n)
        \/ IsEvent("op") /\ LOp(Ev.i)
        \/ IsEvent("soft") /\ LSoft
        \/ IsEvent("hard") /\ LHard
        \/ IsEvent("closed") /\ LClose
        \/ IsEvent("killed") /\ LKill(Ev.power)
        \/ IsEvent("shown") /\ LShown(Ev.n)
        \/ l > Len(Tr.ev) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
===============================================================================
