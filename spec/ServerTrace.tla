------------------------------ MODULE ServerTrace ------------------------------
(* Recorded conversations with the real server are behaviours of Server.        *)
EXTENDS Server, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<svars, tid, l>>

Ev == Traces[tid].ev[l]
IsEvent(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ ServerInit([T |-> Traces[tid].T, w |-> Traces[tid].w, shared |-> Traces[tid].shared])

\* what the file contains when the server starts
EStart == IsEvent("start") /\ hist = <<>> /\ hist' = Ev.hist
          /\ UNCHANGED <<known, cfg, holder, queue, lo, hi, now, ph, rq, gone, out>>
EHello == IsEvent("hello") /\ Hello(Ev.s, Ev.kind)
EPull == IsEvent("pull") /\ Ask(Ev.s, [op |-> "pull", lock |-> Ev.lock, data |-> Ev.data, wait |-> Ev.wait, from |-> Ev.from])
EUnlock == IsEvent("unlock") /\ Ask(Ev.s, [op |-> "unlock"])
EPush == IsEvent("push") /\ Ask(Ev.s, [op |-> "push", un |-> Ev.un, from |-> Ev.from, blk |-> Ev.blk, left |-> Ev.left, st |-> "?"])
EData == IsEvent("data") /\ Data(Ev.s, Ev.n)
ERead == IsEvent("read") /\ Ask(Ev.s, [op |-> "read", from |-> Ev.from, until |-> Ev.until])
EHash == IsEvent("hash") /\ Ask(Ev.s, [op |-> "hash", cells |-> Ev.cells, full |-> Ev.full])
EQuit == IsEvent("quit") /\ Ask(Ev.s, [op |-> "quit"])
ELeave == IsEvent("leave") /\ Leave(Ev.s)
ETime == IsEvent("time") /\ Time(Ev.t)
ELocal == IsEvent("local") /\ Local(Ev.blk)
EReply == IsEvent("reply") /\ Receive(Ev.s, Ev.r)
EHist == IsEvent("hist") /\ hist = Ev.hist /\ UNCHANGED svars
EIdle == IsEvent("idle") /\ Quiet /\ hist = Ev.hist /\ UNCHANGED svars
Hidden == Internal /\ UNCHANGED <<tid, l>> /\ l <= Len(Traces[tid].ev)

Next == EStart \/ EHello \/ EPull \/ EUnlock \/ EPush \/ EData \/ ERead \/ EHash \/ EQuit \/ ELeave \/ ETime \/ ELocal
        \/ EReply \/ EHist \/ EIdle \/ Hidden
\* reports the traces explained to their end; for a rejected one, how far it can be explained
Accepted ==
  /\ l > Len(Traces[tid].ev) => PrintT(<<"ACC", tid>>)
  /\ IOEnv.SHOW = "1" => PrintT(<<"AT", l>>)
  /\ IOEnv.UPTO # "0" => ToString(l) # IOEnv.UPTO
Spec == TInit /\ [][Next]_vars
=============================================================================
