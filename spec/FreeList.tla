------------------------------- MODULE FreeList -------------------------------
(* How tables keep track of used and free records: densely while the used
   records are 0..n-1, and then with a list of used and a list of free records.
   Two copies do the same operations: the writer (generated code) and a reader
   that replays its journal.  They must always agree, also on the identifiers
   that the next insertions get, and both must list exactly the live records.

   Reader: "same" (vectors are deleted from the last to the first, as the writer
   does) or "ascending", a wrong reader.  Ends: "right", or "wrong", where the
   list of free records of a dense table without used record has a wrong end. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxId, Reader, Ends

VARIABLES live, w, r, steps
vars == <<live, w, r, steps>>

New == [dense |-> TRUE, used |-> <<>>, free |-> <<>>, n |-> 0, size |-> 0]
\* dense: n used, size allocated; otherwise the two lists
Seq0(a, b) == [i \in 1..(IF b > a THEN b - a ELSE 0) |-> a + i - 1]
UsedList(k) == IF k.dense THEN Seq0(0, k.n) ELSE k.used
FreeSeq(k) == IF k.dense THEN Seq0(k.n, k.size) ELSE k.free
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* walking backwards from the end of the free list
FreeBack(k) == IF ~k.dense THEN Reverse(k.free)
               ELSE IF Ends = "wrong" /\ k.n = 0 THEN SubSeq(Reverse(Seq0(0, k.size)), 1, IF k.size = 0 THEN 0 ELSE k.size - 1)
               ELSE Reverse(Seq0(k.n, k.size))
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

Loose(k) == IF ~k.dense THEN k
            ELSE [k EXCEPT !.dense = FALSE, !.used = Seq0(0, k.n),
                  \* all were pushed in front of the free list, and the used ones removed
                  !.free = Reverse(Seq0(k.n, k.size))]
Push(k) == IF k.dense THEN [k EXCEPT !.size = @ + 1]
           ELSE [k EXCEPT !.size = @ + 1, !.free = <<k.size>> \o @]
RECURSIVE Resize(_, _)
Resize(k, size) == IF k.size >= size THEN k ELSE Resize(Push(k), size)
Use(k, i) == IF k.dense /\ i = k.n /\ k.n < k.size THEN [k EXCEPT !.n = @ + 1]
             ELSE LET l == Loose(k) IN [l EXCEPT !.used = Append(@, i), !.free = Without(@, i)]
Free(k, i) == IF k.dense /\ i = k.n - 1 THEN [k EXCEPT !.n = @ - 1]
              ELSE LET l == Loose(k) IN [l EXCEPT !.free = <<i>> \o @, !.used = Without(@, i)]
RECURSIVE UseRun(_, _, _)
UseRun(k, i, n) == IF n = 0 THEN k
                   ELSE IF k.dense /\ i = k.n /\ k.n + n <= k.size THEN [k EXCEPT !.n = @ + n]
                   ELSE UseRun(Use(Loose(k), i), i + 1, n - 1)
RECURSIVE FreeUp(_, _, _)
FreeUp(k, i, n) == IF n = 0 THEN k ELSE FreeUp(Free(k, i), i + 1, n - 1)
RECURSIVE FreeDown(_, _, _)
FreeDown(k, i, n) == IF n = 0 THEN k ELSE FreeDown(Free(k, i + n - 1), i, n - 1)

FirstFree(k) == IF FreeSeq(k) = <<>> THEN k.size ELSE FreeSeq(k)[1]
Insert(k, i) == Use(Resize(k, i + 1), i)
InsertRun(k, i, n) == UseRun(Resize(k, i + n), i, n)
\* the identifiers that the next insertions get
RECURSIVE NextIds(_, _)
NextIds(k, n) == IF n = 0 THEN <<>> ELSE <<FirstFree(k)>> \o NextIds(Insert(k, FirstFree(k)), n - 1)

Init == live = {} /\ w = New /\ r = New /\ steps = 0
Do(l, a, b) == live' = l /\ w' = a /\ r' = b /\ steps' = steps + 1
Run(i, n) == i..i + n - 1
Next == /\ steps < 6
        /\ \/ LET i == FirstFree(w) IN i <= MaxId /\ Do(live \cup {i}, Insert(w, i), Insert(r, i))
           \/ \E i \in 0..MaxId \ live : Do(live \cup {i}, Insert(w, i), Insert(r, i))
           \/ \E n \in 2..3 : w.size + n <= MaxId + 1 /\ Do(live \cup Run(w.size, n), InsertRun(w, w.size, n), InsertRun(r, w.size, n))
           \/ \E i \in live : Do(live \ {i}, Free(w, i), Free(r, i))
           \/ \E i \in live, n \in 2..3 : Run(i, n) \subseteq live
                /\ Do(live \ Run(i, n), FreeDown(w, i, n), IF Reader = "same" THEN FreeDown(r, i, n) ELSE FreeUp(r, i, n))
Spec == Init /\ [][Next]_vars

Ran(s) == {s[i] : i \in 1..Len(s)}
Exact(k) == /\ Ran(UsedList(k)) = live /\ Len(UsedList(k)) = Cardinality(live)
            /\ Ran(FreeSeq(k)) = 0..k.size - 1 \ live /\ Len(FreeSeq(k)) = k.size - Cardinality(live)
            /\ FreeBack(k) = Reverse(FreeSeq(k))
Lists == Exact(w) /\ Exact(r)
Fresh == \A i \in 1..2 : NextIds(w, 2)[i] \notin live
Agree == UsedList(w) = UsedList(r) /\ NextIds(w, 3) = NextIds(r, 3)
===============================================================================
