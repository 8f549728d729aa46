-------------------------------- MODULE Copies --------------------------------
(* What copies of a database contain: packed, dumped, as text, through a
   multiplexer or a selective writer, merged.  Views and operations are those
   of Data. *)
EXTENDS Data, SequencesExt

Schema(op) == op.o \in {"create_table", "drop_table", "rename_table", "add_field", "drop_field", "rename_field", "custom"}
Info(op) == op.o \in {"comment", "timestamp", "valid_data"}
Content(op) == op.o \in {"insert", "delete", "insert_vector", "delete_vector", "update", "update_vector"}

\* an update of a vector, as a sequence of updates
Singles(op) == IF op.o = "update_vector"
               THEN [i \in 1..op.n[4] |-> [o |-> "update", n |-> <<op.n[1], op.n[2] + i - 1, op.n[3]>>, s |-> <<>>, v |-> <<op.v[i]>>, y |-> op.y]]
               ELSE <<op>>
Flat(ops) == FlattenSeq([i \in 1..Len(ops) |-> Singles(ops[i])])
\* a blob is at another place in another file
NoPlace(ops) == [i \in 1..Len(ops) |-> IF ops[i].o = "blob" THEN [ops[i] EXCEPT !.n = <<>>] ELSE ops[i]]
NoBlobs(ops) == SelectSeq(ops, LAMBDA op : op.o # "blob")

(* the same operations again; how: "same" file format, or "moved" blobs, or "without" blobs *)
Replayed(how, w, ops) ==
  /\ Shows(w)
  /\ CASE how = "same" -> ops = log
       [] how = "moved" -> NoPlace(ops) = NoPlace(log)
       [] how = "without" -> ops = NoBlobs(log)
       [] how = "selected" -> Flat(ops) = Flat(NoBlobs(log))
  /\ UNCHANGED dvars
Prefix(ops) == NoPlace(ops) = NoPlace(SubSeq(log, 1, Len(ops))) /\ UNCHANGED dvars

(* mode: 1 = schema, 2 = data, 4 = information *)
Bit(mode, b) == (mode \div b) % 2 = 1
Selected(mode, ops) ==
  /\ Flat(ops) = Flat(SelectSeq(log, LAMBDA op : \/ Bit(mode, 1) /\ Schema(op)
                                                 \/ Bit(mode, 2) /\ Content(op)
                                                 \/ Bit(mode, 4) /\ Info(op)))
  /\ UNCHANGED dvars

(* packing: the commands that define the schema, and the data without its past *)
HasBlobs == \E i \in 1..Len(log) : log[i].o = "blob"
Packed(ok, w, ops) ==
  /\ ok = ~HasBlobs            \* they would be lost
  /\ ok => LET sch == SelectSeq(log, Schema)
               rest == Flat(SubSeq(ops, Len(sch) + 1, Len(ops))) IN
           /\ Shows(w)
           /\ SubSeq(ops, 1, Len(sch)) = sch
           /\ \A i \in 1..Len(rest) : rest[i].o \in {"insert", "insert_vector", "update"}
           /\ \A i, j \in 1..Len(rest) : rest[i].o = "update" /\ rest[j].o = "update" /\ rest[i].n = rest[j].n => i = j
  /\ UNCHANGED dvars

(* the content, with new identifiers for tables and fields: those that exist, counted from 1 *)
Nth(S, x) == Cardinality({y \in S : y <= x})
DumpRef(f) == IF f.type # "reference" THEN 0 ELSE IF f.ref \in DOMAIN tabs THEN Nth(DOMAIN tabs, f.ref) ELSE 0
Dumped(full, w) ==
  /\ Ascending(w)
  /\ {<<w[i][1], w[i][2]>> : i \in 1..Len(w)} = {<<Nth(DOMAIN tabs, t), tabs[t].name>> : t \in DOMAIN tabs}
  /\ \A t \in DOMAIN tabs : LET x == w[Nth(DOMAIN tabs, t)]
                                fs == DOMAIN tabs[t].fields IN
       /\ Ascending(x[3])
       /\ Ran(x[3]) = {<<Nth(fs, f), tabs[t].fields[f].name, tabs[t].fields[f].type, DumpRef(tabs[t].fields[f])>> : f \in fs}
       /\ IF ~full THEN x[4] = <<>>
          ELSE /\ Ascending(x[4]) /\ {x[4][i][1] : i \in 1..Len(x[4])} = DOMAIN rows[t]
               /\ \A i \in 1..Len(x[4]) : \A f \in fs : x[4][i][2][Nth(fs, f)] = rows[t][x[4][i][1]][f]
  /\ UNCHANGED dvars

(* a and b were merged into c: the records of b got other identifiers, in the same order *)
Ids(x) == {x[i][1] : i \in 1..Len(x)}
MergeOk(a, b, c) ==
  LET T == 1..Len(a)
      new(t) == SelectSeq(c[t][4], LAMBDA r : r[1] \notin Ids(a[t][4]))
      \* the new identifier of record r of table number t of b; -1: none
      To(t, r) == IF \E i \in 1..Len(b[t][4]) : b[t][4][i][1] = r
                  THEN new(t)[CHOOSE i \in 1..Len(b[t][4]) : b[t][4][i][1] = r][1] ELSE -1
      Tab2(u) == IF \E t \in T : a[t][1] = u THEN CHOOSE t \in T : a[t][1] = u ELSE 0
      \* value v of b, of a field that refers to table u, became x
      RefOk(u, v, x) == IF v[1] = -1 \/ Tab2(u) = 0 THEN x = v \/ Tab2(u) = 0
                        ELSE IF To(Tab2(u), v[1]) # -1 THEN x = <<To(Tab2(u), v[1])>>
                        ELSE x[1] \notin Ids(c[Tab2(u)][4]) IN
  /\ Len(b) = Len(a) /\ Len(c) = Len(a)
  /\ \A t \in T :
       /\ c[t][1] = a[t][1] /\ c[t][2] = a[t][2] /\ c[t][3] = a[t][3] /\ b[t][3] = a[t][3]
       /\ Ascending(c[t][4])
       /\ SelectSeq(c[t][4], LAMBDA r : r[1] \in Ids(a[t][4])) = a[t][4]
       /\ Len(new(t)) = Len(b[t][4])
       /\ \A i \in 1..Len(new(t)) : \A j \in 1..Len(a[t][3]) :
            LET f == a[t][3][j]
                v == b[t][4][i][2][j]
                x == new(t)[i][2][j] IN
            IF f[3] = "reference" THEN RefOk(f[4], v, x) ELSE x = v
Merged(a, b, c) == MergeOk(a, b, c) /\ UNCHANGED dvars

(* bytes read through a blob handle *)
Read(n, bytes) == /\ \E i \in 1..Len(log) : log[i].o = "blob" /\ log[i].n = n /\ log[i].v = <<bytes>>
                  /\ UNCHANGED dvars
===============================================================================
