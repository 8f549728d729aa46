------------------------------ MODULE MergeDesign ------------------------------
(* How merge() finds identifiers: those of the second database, plus the size of
   the table in the first one.  Size: with its free records at the end ("size"),
   or the number of records ("count", wrong); of a dense table, the records
   ("used"), or all of its size ("all", wrong). *)
EXTENDS Copies

CONSTANTS N, Design
VARIABLES m

\* a table: rows (a set of identifiers), size, reference of each row
Dbs == {x \in [rows: SUBSET (0..(N - 1)), size: 0..N, ref: [0..(N - 1) -> -1..N]] :
          /\ \A r \in x.rows : r < x.size
          /\ \A r \in 0..(N - 1) : r \notin x.rows => x.ref[r] = -1}
Dense(x) == x.rows = 0..(Cardinality(x.rows) - 1)
SortedIds(S) == SetToSortSeq(S, <)
Show(x) == <<<<1, <<116>>, <<<<1, <<102>>, "reference", 1>>>>,
             [i \in 1..Cardinality(x.rows) |-> <<SortedIds(x.rows)[i], <<<<x.ref[SortedIds(x.rows)[i]]>>>>>>]>>>>
Merge(a, b) ==
  LET off == IF Design = "count" THEN Cardinality(a.rows) ELSE a.size
      R == IF Dense(b) /\ Design = "all" THEN 0..(b.size - 1) ELSE b.rows
      cref(r) == IF r \in a.rows THEN a.ref[r] ELSE IF b.ref[r - off] = -1 THEN -1 ELSE b.ref[r - off] + off
      rows2 == a.rows \cup {r + off : r \in R} IN
  <<<<1, <<116>>, <<<<1, <<102>>, "reference", 1>>>>,
      [i \in 1..Cardinality(rows2) |-> <<SortedIds(rows2)[i], <<<<cref(SortedIds(rows2)[i])>>>>>>]>>>>

MInit == DataInit(<<>>) /\ m \in [a: Dbs, b: Dbs]
\* a reference of the first one that dangles may be anything
Fair(x) == \A r \in x.rows : x.ref[r] < x.size
Correct == Fair(m.a) /\ Fair(m.b) => MergeOk(Show(m.a), Show(m.b), Merge(m.a, m.b))
Spec == MInit /\ [][UNCHANGED <<dvars, m>>]_<<dvars, m>>
===============================================================================
