------------------------------- MODULE DataTrace -------------------------------
(* Recorded operations and views of real databases are behaviours of Data *)
EXTENDS Data, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<dvars, tid, l>>

Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ DataInit(Traces[tid].defs)

Next ==
  \/ IsEvent("op") /\ Op(Ev.op, Ev.ok, Ev.alloc)
  \/ IsEvent("view") /\ View(Ev.w)
  \/ IsEvent("log") /\ Logged(Ev.ops)
  \/ IsEvent("walk") /\ Walk(Ev.w)
  \/ IsEvent("compiled") /\ Compiled(Ev.w, Ev.walks, Ev.ix)
  \/ IsEvent("strict") /\ Strict(Ev.ix)
  \/ IsEvent("predict") /\ Predict(Ev.t, Ev.r)
  \/ IsEvent("reopen") /\ Reopen
  \/ l > Len(Tr.ev) /\ UNCHANGED vars

Spec == TInit /\ [][Next]_vars
===============================================================================
