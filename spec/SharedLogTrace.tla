---------------------------- MODULE SharedLogTrace ----------------------------
(* Recorded histories of real processes on one shared file are histories of   *)
(* SharedLog.                                                                 *)
EXTENDS SharedLog, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "all"
VARIABLES tid, l
vars == <<slog, tid, l>>

Ev == Traces[tid].ev[l]
IsEvent(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TInit == SharedInit /\ tid \in 1..Len(Traces) /\ l = 1

EOpen1 == IsEvent("open1") /\ OpenStart(Ev.p, Ev.k)
EOpen2 == IsEvent("open2") /\ (IF Ev.ok THEN OpenOk(Ev.p, Ev.seen) ELSE OpenFails(Ev.p))
EInit == IsEvent("init") /\ Initialise(Ev.p)
ETx1 == IsEvent("tx1") /\ TxStart(Ev.p)
EBody == IsEvent("body") /\ Body(Ev.p, Ev.seen)
EBend == IsEvent("bend") /\ BodyEnd(Ev.p)
ECommit == IsEvent("cp") /\ Commit(Ev.p) /\ log' = Ev.log
ETx2 == IsEvent("tx2") /\
        \/ Ev.k = "ok" /\ TxOk(Ev.p, Ev.n)
        \/ Ev.k = "abort" /\ TxAbort(Ev.p, Ev.n)
        \/ Ev.k = "refused" /\ TxRefused(Ev.p)
EPull1 == IsEvent("pull1") /\ PullStart(Ev.p)
EPull2 == IsEvent("pull2") /\ (IF Ev.ok THEN PullOk(Ev.p, Ev.seen) ELSE TxRefused(Ev.p))
EClose == IsEvent("close") /\ Close(Ev.p)
EKill == IsEvent("kill") /\ Kill(Ev.p)
\* "damage" (a committed byte changed), "stuck" (nobody can proceed) and
\* "exception" are explained by nothing
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars

Next == EOpen1 \/ EOpen2 \/ EInit \/ ETx1 \/ EBody \/ EBend \/ ECommit \/ ETx2 \/ EPull1 \/ EPull2
        \/ EClose \/ EKill \/ Done
Spec == TInit /\ [][Next]_vars
=============================================================================
