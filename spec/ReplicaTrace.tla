----------------------------- MODULE ReplicaTrace -----------------------------
(* Recorded lives of real clients and of a real server are behaviours of Replica *)
EXTENDS Replica, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<svars, tid, l>>

Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ ReplicaInit([T |-> Traces[tid].T, w |-> Traces[tid].w, shared |-> Traces[tid].shared, U |-> Traces[tid].U, kind |-> Traces[tid].kind],
                        Traces[tid].files, Traces[tid].hist)

Next ==
  \/ IsEvent("call") /\ Call(Ev.c, Ev.op)
  \/ IsEvent("issue") /\ Issue(Ev.c, Ev.ids)
  \/ IsEvent("file") /\ File(Ev.c, Ev.f)
  \/ IsEvent("append") /\ Append1(Ev.c, Ev.ids)
  \/ IsEvent("hist") /\ (Hist(Ev.hist) \/ (hist = Ev.hist /\ UNCHANGED svars))
  \/ IsEvent("local") /\ Local(Ev.ids)
  \/ IsEvent("fault") /\ Fault(Ev.c)
  \/ IsEvent("pushed") /\ Pushed(Ev.c)
  \/ IsEvent("read") /\ Read(Ev.c, Ev.at, Ev.o, Ev.size, Ev.n, Ev.ids)
  \/ IsEvent("ret") /\ Return(Ev.c, Ev.r, Ev.n, Ev.cc)
  \/ IsEvent("final") /\ Final
  \/ (IsEvent("close") \/ IsEvent("down") \/ IsEvent("up") \/ IsEvent("end")) /\ UNCHANGED svars
  \/ l > Len(Tr.ev) /\ UNCHANGED vars

Spec == TInit /\ [][Next]_vars
=============================================================================
