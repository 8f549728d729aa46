------------------------------ MODULE JournalCode ------------------------------
(* The compact encoding of operations depends on the previous operation.
   Several writers append to the same journal in turns; before writing, each of
   them reads or skips what the others wrote.  Whatever they do, decoding the
   journal from the start gives the operations that were asked.

   Wrong: a writer that skips keeps the context of its own last operation. *)
EXTENDS Integers, Sequences
CONSTANTS Writers, Length, Wrong

Tables == {1, 2}
Records == 0..2
FieldIds == {1, 2}
NoContext == [t |-> 0, r |-> -1, f |-> 0]
Ops == [o : {"insert", "delete"}, t : Tables, r : Records, f : {0}] \cup [o : {"update"}, t : Tables, r : Records, f : FieldIds]

VARIABLES log,      \* the operations, as asked
          code,     \* the journal: what is written for each of them
          ctx,      \* writer -> context
          at        \* writer -> position: how many operations it has read, skipped or written
vars == <<log, code, ctx, at>>

After(c, op) == CASE op.o = "insert" -> [c EXCEPT !.t = op.t, !.r = op.r]
                  [] op.o = "update" -> [t |-> op.t, r |-> op.r, f |-> op.f]
                  [] OTHER -> c
Encode(c, op) ==
  CASE op.o = "insert" /\ op.t = c.t /\ op.r = c.r + 1 -> [k |-> "append"]
    [] op.o = "update" /\ op.t = c.t /\ op.r = c.r -> [k |-> "last", f |-> op.f]
    [] op.o = "update" /\ op.t = c.t /\ op.r = c.r + 1 /\ op.f = c.f -> [k |-> "next"]
    [] OTHER -> [k |-> "full", op |-> op]
DecodeOne(c, x) ==
  CASE x.k = "append" -> [o |-> "insert", t |-> c.t, r |-> c.r + 1, f |-> 0]
    [] x.k = "last" -> [o |-> "update", t |-> c.t, r |-> c.r, f |-> x.f]
    [] x.k = "next" -> [o |-> "update", t |-> c.t, r |-> c.r + 1, f |-> c.f]
    [] OTHER -> x.op
RECURSIVE Decode(_, _)
Decode(c, s) == IF s = <<>> THEN <<>> ELSE LET op == DecodeOne(c, Head(s)) IN <<op>> \o Decode(After(c, op), Tail(s))
RECURSIVE Context(_, _)
Context(c, s) == IF s = <<>> THEN c ELSE Context(After(c, DecodeOne(c, Head(s))), Tail(s))

Init == log = <<>> /\ code = <<>> /\ ctx = [w \in Writers |-> NoContext] /\ at = [w \in Writers |-> 0]

\* reading goes on from the context of the writer; it makes sense only when nothing was skipped with a wrong context
Read(w) == /\ at[w] < Len(code)
           /\ ctx' = [ctx EXCEPT ![w] = Context(@, SubSeq(code, at[w] + 1, Len(code)))]
           /\ at' = [at EXCEPT ![w] = Len(code)] /\ UNCHANGED <<log, code>>
Skip(w) == /\ at[w] < Len(code)
           /\ ctx' = [ctx EXCEPT ![w] = IF Wrong THEN @ ELSE NoContext]
           /\ at' = [at EXCEPT ![w] = Len(code)] /\ UNCHANGED <<log, code>>
Write(w, op) == /\ at[w] = Len(code) /\ Len(code) < Length
                /\ log' = Append(log, op) /\ code' = Append(code, Encode(ctx[w], op))
                /\ ctx' = [ctx EXCEPT ![w] = After(@, op)] /\ at' = [at EXCEPT ![w] = @ + 1]
\* the writers that read everything are of one kind, those that skip of another: w = 1 reads
Next == \E w \in Writers : (IF w = 1 THEN Read(w) ELSE Skip(w)) \/ \E op \in Ops : Write(w, op)
Spec == Init /\ [][Next]_vars

Faithful == Decode(NoContext, code) = log
===============================================================================
