------------------------------ MODULE ByteFileTrace ------------------------------
(* Recorded operations on real files are behaviours of ByteFile *)
EXTENDS ByteFile, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<bvars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ BInit
Next ==
  \/ IsEvent("create") /\ Create(Ev.f, Ev.kills)
  \/ IsEvent("write") /\ Write(Ev.f, Ev.a, Ev.n, Ev.t, Ev.ok)
  \/ IsEvent("read") /\ Read(Ev.f, Ev.a, Ev.n, Ev.once, Ev.ok, Ev.runs)
  \/ IsEvent("size") /\ Size(Ev.f, Ev.n)
  \/ IsEvent("sync") /\ Sync(Ev.f)
  \/ IsEvent("reopen") /\ Reopen(Ev.f)
  \/ IsEvent("killed") /\ Killed(Ev.f, Ev.power, Ev.runs)
  \/ IsEvent("copy") /\ Copy(Ev.f, Ev.g, Ev.a, Ev.n, Ev.ok)
  \/ IsEvent("equal") /\ Equal(Ev.f, Ev.g, Ev.a, Ev.b, Ev.res)
  \/ IsEvent("cursor") /\ Open(Ev.k, Ev.f, Ev.stream)
  \/ IsEvent("seek") /\ Seek(Ev.k, Ev.what, Ev.p)
  \/ IsEvent("flush") /\ Flush(Ev.k)
  \/ IsEvent("cwrite") /\ CWrite(Ev.k, Ev.n, Ev.t)
  \/ IsEvent("number") /\ CNumber(Ev.k, Ev.n, Ev.t, Ev.v)
  \/ IsEvent("cread") /\ CRead(Ev.k, Ev.n, Ev.ok, Ev.runs)
  \/ IsEvent("get") /\ CNumberRead(Ev.k, Ev.n, Ev.v)
  \/ IsEvent("skip") /\ Skip(Ev.k, Ev.n)
  \/ IsEvent("unget") /\ Unget(Ev.k)
  \/ IsEvent("tell") /\ Tell(Ev.k, Ev.p, Ev.q)
  \/ IsEvent("close") /\ Close(Ev.k)
  \/ l > Len(Tr.ev) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
===============================================================================
