------------------------------ MODULE CopiesTrace ------------------------------
(* Recorded copies of real databases are those of Copies *)
EXTENDS Copies, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<dvars, tid, l>>

Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ DataInit(<<>>)

Next ==
  \/ IsEvent("op") /\ Op(Ev.op, Ev.ok, Ev.alloc)
  \/ IsEvent("view") /\ View(Ev.w)
  \/ IsEvent("log") /\ Logged(Ev.ops)
  \/ IsEvent("walk") /\ Walk(Ev.w)
  \/ IsEvent("replayed") /\ Replayed(Ev.how, Ev.w, Ev.ops)
  \/ IsEvent("prefix") /\ Prefix(Ev.ops)
  \/ IsEvent("selected") /\ Selected(Ev.mode, Ev.ops)
  \/ IsEvent("packed") /\ Packed(Ev.ok, Ev.w, Ev.ops)
  \/ IsEvent("dumped") /\ Dumped(Ev.full, Ev.w)
  \/ IsEvent("merged") /\ Merged(Ev.a, Ev.b, Ev.c)
  \/ IsEvent("read") /\ Read(Ev.n, Ev.bytes)
  \/ l > Len(Tr.ev) /\ UNCHANGED vars

Spec == TInit /\ [][Next]_vars
===============================================================================
