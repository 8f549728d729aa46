---------------------------------- MODULE Rpc ----------------------------------
(* Remote procedure calls: what the clients and the procedures of a service see.
   A message is a text (the content of a database); the service has a list to
   which one of the procedures appends the identifiers of its calls. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sess,     \* connection -> open, refused, closed
          call,     \* identifier -> [c, proc, text: message sent, phase: asked, running, done, failed; out: message or error; waited]
          running,  \* identifiers of the calls that are being executed
          list      \* the list of the service
rvars == <<sess, call, running, list>>
CONSTANT MaxError  \* longer texts of errors may be cut
RInit == sess = << >> /\ call = << >> /\ running = {} /\ list = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Status(c) == IF c \in DOMAIN sess THEN sess[c] ELSE "none"
\* a client whose procedures are not those of the server is refused
Connect(c, match, ok) ==
  /\ Status(c) \in {"none", "closed"} /\ ok = match
  /\ sess' = With(sess, c, IF Status(c) = "closed" THEN "closed" ELSE IF ok THEN "open" ELSE "refused") /\ UNCHANGED <<call, running, list>>
Ask(c, id, proc, text) ==
  /\ Status(c) \in {"open", "closed"} /\ id \notin DOMAIN call
  /\ call' = With(call, id, [c |-> c, proc |-> proc, text |-> text, phase |-> "asked", out |-> "", has |-> text, waited |-> TRUE])
  /\ UNCHANGED <<sess, running, list>>
\* the server executes a call once, alone, on what was sent
Begin(id, proc, text, alone) ==
  /\ id \in DOMAIN call /\ call[id].phase = "asked" /\ call[id].proc = proc /\ call[id].text = text
  /\ alone => running = {}
  /\ running' = running \cup {id} /\ call' = [call EXCEPT ![id].phase = "running"]
  /\ UNCHANGED <<sess, list>>
Append1(id, n) == /\ id \in running /\ list' = Append(list, id) /\ n = Len(list') /\ UNCHANGED <<sess, call, running>>
End(id, ok, out) ==
  /\ id \in running /\ running' = running \ {id}
  /\ call' = [call EXCEPT ![id].phase = IF ok THEN "done" ELSE "failed", ![id].out = out]
  /\ UNCHANGED <<sess, list>>
\* a result returns to the one who asked for it
Same(x, y) == x = y \/ (Len(y) > MaxError /\ Len(x) >= MaxError /\ Len(x) < Len(y) /\ x = SubSeq(y, 1, Len(x)))
Return(id, ok, out) ==
  /\ id \in DOMAIN call /\ call[id].waited
  /\ IF ok THEN call[id].phase = "done" /\ out = call[id].out
     ELSE call[id].phase = "failed" /\ Same(out, call[id].out)
  /\ call' = [call EXCEPT ![id].waited = FALSE, ![id].has = IF ok THEN out ELSE @] /\ UNCHANGED <<sess, running, list>>
\* the connection was cut: nobody knows whether the call is executed
Lost(id) == /\ Status(call[id].c) = "closed" /\ call[id].waited
            /\ call' = [call EXCEPT ![id].waited = FALSE] /\ UNCHANGED <<sess, running, list>>
\* the message of the caller changes with a result, and an error leaves it as it was,
\* in memory and in the bytes of its file
Kept(id, text, stored) == id \in DOMAIN call /\ text = call[id].has /\ stored = text /\ UNCHANGED rvars
Ping(c) == Status(c) = "open" /\ UNCHANGED rvars
Cut(c) == sess' = With(sess, c, "closed") /\ UNCHANGED <<call, running, list>>
\* bytes that are no call are refused, and change nothing
Noise(closed) == closed /\ UNCHANGED rvars
Final(l) == l = list /\ running = {} /\ UNCHANGED rvars
===============================================================================
