-------------------------------- MODULE RpcTrace --------------------------------
(* Recorded calls are behaviours of Rpc *)
EXTENDS Rpc, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<rvars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ RInit
Next == \/ IsEvent("connect") /\ Connect(Ev.c, Ev.match, Ev.ok)
        \/ IsEvent("ask") /\ Ask(Ev.c, Ev.id, Ev.proc, Ev.text)
        \/ IsEvent("begin") /\ Begin(Ev.id, Ev.proc, Ev.text, Ev.alone)
        \/ IsEvent("append") /\ Append1(Ev.id, Ev.n)
        \/ IsEvent("end") /\ End(Ev.id, Ev.ok, Ev.out)
        \/ IsEvent("return") /\ Return(Ev.id, Ev.ok, Ev.out)
        \/ IsEvent("lost") /\ Lost(Ev.id)
        \/ IsEvent("kept") /\ Kept(Ev.id, Ev.text, Ev.stored)
        \/ IsEvent("ping") /\ Ping(Ev.c)
        \/ IsEvent("cut") /\ Cut(Ev.c)
        \/ IsEvent("noise") /\ Noise(Ev.closed)
        \/ IsEvent("final") /\ Final(Ev.list)
        \/ l > Len(Tr.ev) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
===============================================================================
