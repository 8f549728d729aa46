----------------------------- MODULE UpgradeDesign -----------------------------
(* How programs of successive versions upgrade and use one shared file: lock,
   pull, compare the statements, write those that miss and what the functions
   make of the data, one checkpoint, unlock.  The process may be killed between
   any two steps; what it wrote after the last checkpoint is then lost.

   A statement is <<"s", k>> (the k-th one of all versions; the function Func is
   one of them) and <<"r", x>> a record; the function writes <<"c", n>>, the
   number of records that it saw.  The statements of version v are the first
   Len_(v) ones.

   Design: "code"; wrong ones: "checkpoints" after each statement, "unlocked"
   comparison before locking, "deaf" clients that pull changes of the schema
   without noticing, "again": the function also called when its statement is
   found in the file *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size,       \* version -> number of its statements
          Func,       \* the statement that is a function
          MaxRecords, \* records written altogether
          MaxKills, Procs, Design
SizeOf == <<1, 3, 5>>
VARIABLES disk,       \* items below the checkpoint
          tail,       \* items above it, of the process that has the lock
          lock,       \* 0, or the process
          pc, ver, known, \* of each process: step, version, number of items known
          recs, kills
vars == <<disk, tail, lock, pc, ver, known, recs, kills>>

Versions == DOMAIN Size
Statements(s) == SelectSeq(s, LAMBDA x : x[1] = "s")
Records(s) == Len(SelectSeq(s, LAMBDA x : x[1] = "r"))
Have(p) == Len(Statements(SubSeq(disk, 1, known[p])))

Init == /\ disk = <<>> /\ tail = <<>> /\ lock = 0 /\ recs = 0 /\ kills = 0
        /\ pc = [p \in Procs |-> "closed"] /\ ver \in [Procs -> Versions] /\ known = [p \in Procs |-> 0]
Goto(p, s) == pc' = [pc EXCEPT ![p] = s]
Same == UNCHANGED <<disk, tail, lock, ver, known, recs, kills>>

\* opening
Start(p) == /\ pc[p] = "closed"
            /\ known' = [known EXCEPT ![p] = Len(disk)]
            /\ Goto(p, IF Design = "unlocked" THEN "compare" ELSE "lock")
            /\ UNCHANGED <<disk, tail, lock, ver, recs, kills>>
Lock(p) == /\ pc[p] \in {"lock", "idle"} /\ lock = 0 /\ lock' = p
           /\ LET from == known[p]  new == SubSeq(disk, from + 1, Len(disk)) IN
              IF pc[p] = "idle"
              THEN IF Design # "deaf" /\ Statements(new) # <<>>
                   THEN Goto(p, "refuse") ELSE Goto(p, "use")
              ELSE Goto(p, IF Design = "unlocked" THEN "write" ELSE "compare")
           /\ known' = IF Design = "unlocked" /\ pc[p] = "lock" THEN known ELSE [known EXCEPT ![p] = Len(disk)]
           /\ UNCHANGED <<disk, tail, ver, recs, kills>>
Compare(p) == /\ pc[p] = "compare"
              /\ IF Have(p) > Size[ver[p]] THEN Goto(p, IF lock = p THEN "refuse" ELSE "closed")
                 ELSE Goto(p, IF Design = "unlocked" /\ lock # p THEN "lock" ELSE IF Have(p) < Size[ver[p]] THEN "write" ELSE "done")
              /\ Same
\* all the missing statements, then the effect of those that are functions
Write(p) == /\ pc[p] = "write"
            /\ LET k == Have(p) + Len(Statements(tail)) + 1
                   isfunc == \E i \in 1..Len(tail) : tail[i][1] = "c"
                   need == (Have(p) < Func \/ Design = "again") /\ Size[ver[p]] >= Func /\ ~isfunc IN
               IF k <= Size[ver[p]] THEN tail' = Append(tail, <<"s", k>>) /\ Goto(p, IF Design = "checkpoints" THEN "part" ELSE "write")
               ELSE IF need THEN tail' = Append(tail, <<"c", Records(disk)>>) /\ Goto(p, "write")
               ELSE tail' = tail /\ Goto(p, "commit")
            /\ UNCHANGED <<disk, lock, ver, known, recs, kills>>
Part(p) == /\ pc[p] = "part" /\ disk' = disk \o tail /\ tail' = <<>> /\ known' = [known EXCEPT ![p] = Len(disk')]
           /\ Goto(p, "write") /\ UNCHANGED <<lock, ver, recs, kills>>
Commit(p) == /\ pc[p] = "commit" /\ disk' = disk \o tail /\ tail' = <<>> /\ known' = [known EXCEPT ![p] = Len(disk')]
             /\ Goto(p, "done") /\ UNCHANGED <<lock, ver, recs, kills>>
Done(p) == /\ pc[p] \in {"done", "refuse"} /\ lock' = 0
           /\ Goto(p, IF pc[p] = "done" THEN "idle" ELSE "closed")
           /\ UNCHANGED <<disk, tail, ver, known, recs, kills>>
\* using
UseIt(p) == /\ pc[p] = "use" /\ recs < MaxRecords /\ recs' = recs + 1
            /\ tail' = Append(tail, <<"r", ver[p]>>) /\ Goto(p, "commit")
            /\ UNCHANGED <<disk, lock, ver, known, kills>>
Skip(p) == pc[p] = "use" /\ recs = MaxRecords /\ Goto(p, "done") /\ Same
Kill(p) == /\ kills < MaxKills /\ pc[p] # "closed" /\ kills' = kills + 1
           /\ Goto(p, "closed") /\ IF lock = p THEN lock' = 0 /\ tail' = <<>> ELSE UNCHANGED <<lock, tail>>
           /\ UNCHANGED <<disk, ver, known, recs>>
Change(p) == /\ pc[p] = "closed" /\ \E v \in Versions : v > ver[p] /\ ver' = [ver EXCEPT ![p] = v]
             /\ UNCHANGED <<disk, tail, lock, pc, known, recs, kills>>
Next == \E p \in Procs : Start(p) \/ Lock(p) \/ Compare(p) \/ Write(p) \/ Part(p) \/ Commit(p) \/ Done(p) \/ UseIt(p) \/ Skip(p) \/ Kill(p) \/ Change(p)
Spec == Init /\ [][Next]_vars

\* the statements of a file are those of a version, in order, each one once
AllOrNothing == LET n == Len(Statements(disk)) IN
  /\ n \in {0} \cup {Size[v] : v \in Versions}
  /\ Statements(disk) = [i \in 1..n |-> <<"s", i>>]
\* a function was called when its statement was written, once, and saw all the records written before
Before(i) == Records(SubSeq(disk, 1, i - 1))
Once == LET cs == {i \in 1..Len(disk) : disk[i][1] = "c"} IN
  /\ Cardinality(cs) = (IF Len(Statements(disk)) >= Func THEN 1 ELSE 0)
  /\ \A i \in cs : disk[i][2] = Before(i)
\* records are written by programs that know the whole schema, and remain
Fitting == \A i \in 1..Len(disk) : disk[i][1] = "r" => Len(Statements(SubSeq(disk, 1, i))) = Size[disk[i][2]]
Remain == [][Len(disk') >= Len(disk) /\ SubSeq(disk', 1, Len(disk)) = disk]_vars
===============================================================================
