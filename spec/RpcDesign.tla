------------------------------- MODULE RpcDesign -------------------------------
(* How calls travel (joedb/rpc/Client.h, joedb/rpc/Server.h): every client has a
   channel, that its threads and the thread that keeps it alive share under a
   lock; the server has a session for each channel, with a buffer of its own, and
   executes what it reads.  Bytes are tokens: "H" a hash, "C" a call and its
   argument, "P" a ping.  What the user sees is Rpc. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Client, Thread, MaxCalls, Design
VARIABLES up, down,      \* tokens on their way to the server, to the client
          lock,          \* client -> thread that has its channel (or none)
          pc,            \* <<client, thread>> -> where it is; "live" is the thread of pings
          mine,          \* <<client, thread>> -> identifier of its call
          count,         \* calls so far
          ses,           \* client -> state of its session: hello, idle, arg, run, closed
          buf,           \* session -> the argument it read
          running, ran,  \* sessions that are executing; identifiers that were, in order
          bad            \* what went wrong
vars == <<up, down, lock, pc, mine, count, ses, buf, running, ran, bad>>
Live == "live"
T(k) == <<k, 0>>
V(n) == <<"value", n>>
Main == CHOOSE t \in Thread : TRUE
All == Client \X (Thread \cup {Live})
Init == /\ up = [c \in Client |-> <<>>] /\ down = [c \in Client |-> <<>>]
        /\ lock = [c \in Client |-> "none"]
        /\ pc = [x \in All |-> IF x[2] = Main THEN "start" ELSE "wait"]
        /\ mine = [x \in All |-> 0] /\ count = 0
        /\ ses = [c \in Client |-> "hello"] /\ buf = [c \in Client |-> 0]
        /\ running = {} /\ ran = <<>> /\ bad = {}
Free(x) == lock[x[1]] = "none"
Take(x) == lock' = [lock EXCEPT ![x[1]] = x[2]]
Drop(x) == lock' = [lock EXCEPT ![x[1]] = "none"]
Go(x, p) == pc' = [pc EXCEPT ![x] = p]
Send(c, tokens) == up' = [up EXCEPT ![c] = @ \o tokens]
Started(c) == pc[<<c, Main>>] \notin {"start", "hello"}
S == <<count, ses, buf, running, ran>>

Hello(x) == /\ pc[x] = "start" /\ Free(x) /\ Take(x) /\ Send(x[1], <<T("H")>>) /\ Go(x, "hello")
            /\ UNCHANGED <<down, mine, bad, S>>
Got(x, want) == down[x[1]] # <<>> /\ down' = [down EXCEPT ![x[1]] = Tail(@)]
                /\ bad' = (IF Head(down[x[1]]) = want THEN bad ELSE bad \cup {"answer"})
Welcome(x) == /\ pc[x] = "hello" /\ Got(x, T("H")) /\ Drop(x) /\ Go(x, "idle") /\ UNCHANGED <<up, mine, S>>
Wake(x) == /\ pc[x] = "wait" /\ x[2] # Live /\ Started(x[1]) /\ Go(x, "idle") /\ UNCHANGED <<up, down, lock, mine, bad, S>>
Ask(x) == /\ pc[x] = "idle" /\ x[2] # Live /\ Free(x) /\ count < MaxCalls
          /\ count' = count + 1 /\ mine' = [mine EXCEPT ![x] = count + 1]
          /\ Take(x) /\ Send(x[1], <<T("C")>>) /\ Go(x, "ask")
          /\ UNCHANGED <<down, bad, ses, buf, running, ran>>
Argument(x) == /\ pc[x] = "ask" /\ Send(x[1], <<V(mine[x])>>) /\ Go(x, "asked")
               /\ (IF Design = "early" THEN Drop(x) ELSE UNCHANGED lock)
               /\ UNCHANGED <<down, mine, bad, S>>
Answer(x) == /\ pc[x] = "asked" /\ (Design = "early" => Free(x)) /\ Got(x, V(mine[x])) /\ Drop(x) /\ Go(x, "idle") /\ UNCHANGED <<up, mine, S>>
\* the thread of pings starts after the handshake
Ping(x) == /\ pc[x] = "wait" /\ x[2] = Live
           /\ (Design = "before" \/ Started(x[1]))
           /\ (Design = "unlocked" \/ Free(x))
           /\ (IF Design = "unlocked" THEN UNCHANGED lock ELSE Take(x))
           /\ Send(x[1], <<T("P")>>) /\ Go(x, "pinged")
           /\ UNCHANGED <<down, mine, bad, S>>
Pong(x) == /\ pc[x] = "pinged" /\ Got(x, T("P")) /\ (IF Design = "unlocked" THEN UNCHANGED lock ELSE Drop(x))
           /\ Go(x, "end") /\ UNCHANGED <<up, mine, S>>

\* a session
Next1(c) == Head(up[c])
Eat(c) == up[c] # <<>> /\ up' = [up EXCEPT ![c] = Tail(@)]
Reply(c, t) == down' = [down EXCEPT ![c] = Append(@, t)]
W == <<lock, pc, mine, count>>
Handshake(c) == /\ ses[c] = "hello" /\ Eat(c)
                /\ IF Next1(c) = T("H") THEN Reply(c, T("H")) /\ ses' = [ses EXCEPT ![c] = "idle"]
                   ELSE Reply(c, T("h")) /\ ses' = [ses EXCEPT ![c] = "closed"]
                /\ UNCHANGED <<W, buf, running, ran, bad>>
Command(c) == /\ ses[c] = "idle" /\ Eat(c)
              /\ IF Next1(c) = T("P") THEN Reply(c, T("P")) /\ UNCHANGED ses
                 ELSE UNCHANGED down /\ ses' = [ses EXCEPT ![c] = IF Next1(c) = T("C") THEN "arg" ELSE "closed"]
              /\ UNCHANGED <<W, buf, running, ran, bad>>
ReadArgument(c) ==
  /\ ses[c] = "arg" /\ Eat(c)
  /\ buf' = (IF Design = "shared" THEN [d \in Client |-> Next1(c)[2]] ELSE [buf EXCEPT ![c] = Next1(c)[2]])
  /\ ses' = [ses EXCEPT ![c] = "run"]
  /\ UNCHANGED <<W, down, running, ran, bad>>
\* one thread runs the sessions: an execution is not interrupted
Execute(c) == /\ ses[c] = "run" /\ (Design = "parallel" \/ running = {})
              /\ running' = running \cup {c} /\ ses' = [ses EXCEPT ![c] = "running"]
              /\ ran' = Append(ran, buf[c])
              /\ bad' = bad \cup (IF running # {} THEN {"overlap"} ELSE {}) \cup (IF buf[c] = 0 THEN {"argument"} ELSE {})
              /\ UNCHANGED <<W, up, down, buf>>
Executed(c) == /\ ses[c] = "running" /\ running' = running \ {c} /\ Reply(c, V(buf[c])) /\ ses' = [ses EXCEPT ![c] = "idle"]
               /\ UNCHANGED <<W, up, buf, ran, bad>>
Next == \/ \E x \in All : Hello(x) \/ Welcome(x) \/ Wake(x) \/ Ask(x) \/ Argument(x) \/ Answer(x) \/ Ping(x) \/ Pong(x)
        \/ \E c \in Client : Handshake(c) \/ Command(c) \/ ReadArgument(c) \/ Execute(c) \/ Executed(c)
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair
Good == bad = {}
Once == \A i, j \in 1..Len(ran) : ran[i] = ran[j] => i = j
\* the answer of a call comes after it was executed
Before == \A x \in All : pc[x] = "idle" /\ mine[x] > 0 => \E i \in 1..Len(ran) : ran[i] = mine[x]
Done == <>(\A x \in All : pc[x] \in {"idle", "end", "wait"})
===============================================================================
