--------------------------------- MODULE Data ---------------------------------
(* Schemas, records, indexes and the log of a database.

   Every value, name or text is a sequence of integers.  An operation is a
   record [o: kind, n: numbers, s: name, v: values, y: type of the values].

   tabs  the tables: tid -> [name, next (the last field identifier given), fields: fid -> [name, type, ref]]
   nextt the last table identifier given
   rows  tid -> (rid -> (fid -> value))
   idx   name of an index -> (rid -> key): the entries of the indexes of the generated code
   log   the operations accepted so far
   seen  what a generated database showed at some length of the log: iteration orders
   pred  table -> the identifiers that replaying the log and inserting would give
   limbo values that a unique index refused, and that stay in the memory of the writer until a valid update *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES tabs, nextt, rows, idx, defs, log, seen, pred, limbo
dvars == <<tabs, nextt, rows, idx, defs, log, seen, pred, limbo>>

Default(type) == CASE type \in {"string"} -> <<>>
                   [] type \in {"blob", "int64", "float64"} -> <<0, 0>>
                   [] type = "reference" -> <<-1>>
                   [] OTHER -> <<0>>

Letter(c) == c \in 65..90 \/ c \in 97..122
Digit(c) == c \in 48..57
Identifier(s) == /\ s # <<>>
                 /\ \A i \in 1..Len(s) : Letter(s[i]) \/ Digit(s[i]) \/ s[i] = 95
                 /\ ~Digit(s[1])
                 /\ \A i \in 1..Len(s) - 1 : ~(s[i] = 95 /\ s[i + 1] = 95)

DataInit(d) ==
  /\ tabs = << >> /\ nextt = 0 /\ rows = << >>
  /\ defs = d                                         \* sequence of [name, unique, t, f: sequence of fids]
  /\ idx = [x \in {d[i].name : i \in 1..Len(d)} |-> << >>]
  /\ log = << >> /\ seen = [at |-> -1, order |-> << >>, ix |-> << >>] /\ pred = << >> /\ limbo = {}

Tab(t) == t \in DOMAIN tabs
Fld(t, f) == Tab(t) /\ f \in DOMAIN tabs[t].fields
Rec(t, r) == Tab(t) /\ r \in DOMAIN rows[t]
TableNames == {tabs[t].name : t \in DOMAIN tabs}
FieldNames(t) == {tabs[t].fields[f].name : f \in DOMAIN tabs[t].fields}
Drop(fun, x) == [y \in DOMAIN fun \ {x} |-> fun[y]]

-------------------------------------------------------------------------------
(* Which requests are valid.  "either": not said. *)
Valid(op) == LET n == op.n IN
  CASE op.o = "create_table" -> Identifier(op.s) /\ op.s \notin TableNames
    [] op.o = "drop_table" -> Tab(n[1])
    [] op.o = "rename_table" -> Identifier(op.s) /\ op.s \notin TableNames /\ Tab(n[1])
    [] op.o = "add_field" -> Identifier(op.s) /\ Tab(n[1]) /\ op.s \notin FieldNames(n[1])
    [] op.o = "drop_field" -> Fld(n[1], n[2])
    [] op.o = "rename_field" -> Identifier(op.s) /\ Fld(n[1], n[2]) /\ op.s \notin FieldNames(n[1])
    [] op.o = "insert" -> Tab(n[1]) /\ n[2] >= 0 /\ ~Rec(n[1], n[2])
    [] op.o = "delete" -> Rec(n[1], n[2])
    [] op.o = "insert_vector" -> Tab(n[1]) /\ n[2] >= 0 /\ \A i \in 0..n[3] - 1 : ~Rec(n[1], n[2] + i)
    [] op.o = "delete_vector" -> Tab(n[1]) /\ n[2] >= 0 /\ \A i \in 0..n[3] - 1 : Rec(n[1], n[2] + i)
    [] op.o = "update" -> Rec(n[1], n[2]) /\ Fld(n[1], n[3]) /\ tabs[n[1]].fields[n[3]].type = op.y
    [] op.o = "update_vector" -> Fld(n[1], n[3]) /\ n[2] >= 0 /\ tabs[n[1]].fields[n[3]].type = op.y
                                 /\ \A i \in 0..n[4] - 1 : Rec(n[1], n[2] + i)
    [] OTHER -> TRUE
Either(op) == (op.o \in {"insert_vector", "delete_vector"} /\ op.n[3] = 0) \/ (op.o = "update_vector" /\ op.n[4] = 0)

(* the indexes: keys, what an update triggers, what unique means *)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Ran(s) == {s[i] : i \in 1..Len(s)}
Triggers(d, t, f) == d.t = t /\ f \in Ran(d.f) /\ (d.unique => f = Max(Ran(d.f)))
Key(d, row) == [i \in 1..Len(d.f) |-> row[d.f[i]]]
Unique(d, ix) == d.unique => \A a, b \in DOMAIN ix : ix[a] = ix[b] => a = b

\* the indexes after the rows rs of table t have had field f updated
Reindexed(t, f, rs, newrows) ==
  [x \in DOMAIN idx |->
    LET d == CHOOSE d \in Ran(defs) : d.name = x IN
    IF Triggers(d, t, f) THEN [r \in DOMAIN idx[x] \cup rs |-> IF r \in rs THEN Key(d, newrows[t][r]) ELSE idx[x][r]]
    ELSE idx[x]]
Deindexed(t, rs) ==
  [x \in DOMAIN idx |->
    LET d == CHOOSE d \in Ran(defs) : d.name = x IN
    IF d.t = t THEN [r \in DOMAIN idx[x] \ rs |-> idx[x][r]] ELSE idx[x]]
UniqueOk(nidx) == \A d \in Ran(defs) : Unique(d, nidx[d.name])

(* the new state of an accepted operation, from st = [tabs, nextt, rows] *)
Run(r, n) == {r + i : i \in 0..n - 1}
NewRowOf(st, t) == [f \in DOMAIN st.tabs[t].fields |-> Default(st.tabs[t].fields[f].type)]
RowsAfter(st, op) ==
  LET n == op.n
      Inserted(rs) == [st.rows EXCEPT ![n[1]] = [r \in DOMAIN @ \cup rs |-> IF r \in rs THEN NewRowOf(st, n[1]) ELSE @[r]]]
      Deleted(rs) == [st.rows EXCEPT ![n[1]] = [r \in DOMAIN @ \ rs |-> @[r]]] IN
  CASE op.o = "create_table" -> [t \in DOMAIN st.rows \cup {st.nextt + 1} |-> IF t = st.nextt + 1 THEN << >> ELSE st.rows[t]]
    [] op.o = "drop_table" -> Drop(st.rows, n[1])
    [] op.o = "add_field" -> LET f == st.tabs[n[1]].next + 1 IN
         [st.rows EXCEPT ![n[1]] = [r \in DOMAIN @ |-> [g \in DOMAIN @[r] \cup {f} |-> IF g = f THEN Default(op.y) ELSE @[r][g]]]]
    [] op.o = "drop_field" -> [st.rows EXCEPT ![n[1]] = [r \in DOMAIN @ |-> Drop(@[r], n[2])]]
    [] op.o = "insert" -> Inserted({n[2]})
    [] op.o = "insert_vector" -> Inserted(Run(n[2], n[3]))
    [] op.o = "delete" -> Deleted({n[2]})
    [] op.o = "delete_vector" -> Deleted(Run(n[2], n[3]))
    [] op.o \in {"update", "update_vector"} ->
         [st.rows EXCEPT ![n[1]] = [r \in DOMAIN @ |-> IF r \in Run(n[2], Len(op.v)) THEN [@[r] EXCEPT ![n[3]] = op.v[r - n[2] + 1]] ELSE @[r]]]
    [] OTHER -> st.rows
TabsAfter(st, op) == LET n == op.n IN
  CASE op.o = "create_table" -> [t \in DOMAIN st.tabs \cup {st.nextt + 1} |->
         IF t = st.nextt + 1 THEN [name |-> op.s, next |-> 0, fields |-> << >>] ELSE st.tabs[t]]
    [] op.o = "drop_table" -> Drop(st.tabs, n[1])
    [] op.o = "rename_table" -> [st.tabs EXCEPT ![n[1]].name = op.s]
    [] op.o = "add_field" -> LET f == st.tabs[n[1]].next + 1 IN
         [st.tabs EXCEPT ![n[1]] = [@ EXCEPT !.next = f,
            !.fields = [g \in DOMAIN @ \cup {f} |-> IF g = f THEN [name |-> op.s, type |-> op.y, ref |-> n[2]] ELSE @[g]]]]
    [] op.o = "drop_field" -> [st.tabs EXCEPT ![n[1]].fields = Drop(@, n[2])]
    [] op.o = "rename_field" -> [st.tabs EXCEPT ![n[1]].fields[n[2]].name = op.s]
    [] OTHER -> st.tabs
After(st, op) == [tabs |-> TabsAfter(st, op), nextt |-> IF op.o = "create_table" THEN st.nextt + 1 ELSE st.nextt, rows |-> RowsAfter(st, op)]
State == [tabs |-> tabs, nextt |-> nextt, rows |-> rows]
NewRows(op) == RowsAfter(State, op)
NewTabs(op) == TabsAfter(State, op)
NewIdx(op) == LET n == op.n IN
  CASE op.o = "update" -> Reindexed(n[1], n[3], {n[2]}, NewRows(op))
    [] op.o = "update_vector" -> Reindexed(n[1], n[3], Run(n[2], n[4]), NewRows(op))
    [] op.o = "delete" -> Deindexed(n[1], {n[2]})
    [] op.o = "delete_vector" -> Deindexed(n[1], Run(n[2], n[3]))
    [] OTHER -> idx
\* an update of an empty vector has no effect, and is not seen by readers
Invisible(op) == op.o = "update_vector" /\ op.n[4] = 0

Touches(op) == IF op.o \in {"insert", "delete", "insert_vector", "delete_vector"} THEN {op.n[1]} ELSE {}

(* An operation was asked.  ok: it was accepted; alloc: the database chose the identifier *)
Op(op, ok, alloc) ==
  IF ok THEN
    /\ Valid(op) \/ Either(op)
    /\ IF ~Valid(op) THEN UNCHANGED <<tabs, nextt, rows, idx>>
       ELSE /\ tabs' = NewTabs(op) /\ rows' = NewRows(op)
            /\ nextt' = IF op.o = "create_table" THEN nextt + 1 ELSE nextt
            /\ idx' = NewIdx(op)
            /\ UniqueOk(idx')
    /\ (alloc /\ op.o = "insert" /\ op.n[1] \in DOMAIN pred /\ pred[op.n[1]] # <<>>) => op.n[2] = pred[op.n[1]][1]
    /\ pred' = [t \in DOMAIN pred |-> IF t \in Touches(op)
                                      THEN IF alloc /\ op.o = "insert" /\ pred[t] # <<>> THEN Tail(pred[t]) ELSE <<>>
                                      ELSE pred[t]]
    /\ log' = IF Invisible(op) THEN log ELSE Append(log, op)
    /\ limbo' = IF op.o = "update" THEN limbo \ {<<op.n[1], op.n[2], op.n[3]>>}
                ELSE IF op.o = "update_vector" THEN limbo \ {<<op.n[1], r, op.n[3]>> : r \in Run(op.n[2], op.n[4])}
                ELSE IF op.o \in {"delete", "delete_vector"} THEN {x \in limbo : x[1] # op.n[1] \/ x[2] \in DOMAIN rows'[op.n[1]]}
                ELSE limbo
    /\ UNCHANGED <<defs, seen>>
  ELSE
    \/ (~Valid(op) \/ Either(op)) /\ UNCHANGED dvars
    \* refused by a unique index: not in the log, not in the indexes, only in the memory of the writer
    \/ /\ Valid(op) /\ op.o \in {"update", "update_vector"} /\ ~UniqueOk(NewIdx(op))
       /\ limbo' = limbo \cup {<<op.n[1], r, op.n[3]>> : r \in IF op.o = "update" THEN {op.n[2]} ELSE Run(op.n[2], op.n[4])}
       /\ UNCHANGED <<tabs, nextt, rows, idx, defs, log, seen, pred>>
\* the writer is abandoned: only the log remains
Reopen == limbo' = {} /\ UNCHANGED <<tabs, nextt, rows, idx, defs, log, seen, pred>>

-------------------------------------------------------------------------------
(* What databases show.  w = [[tid, name, fields, records]...] *)
Ascending(s) == \A i \in 1..Len(s) - 1 : s[i][1] < s[i + 1][1]
FieldsOk(st, t, fs) ==
  /\ Ascending(fs)
  /\ LET known == st.tabs[t].fields IN Ran(fs) = {<<f, known[f].name, known[f].type, known[f].ref>> : f \in DOMAIN known}
RowsOk(st, t, fs, rs) ==
  /\ Ascending(rs) /\ {rs[i][1] : i \in 1..Len(rs)} = DOMAIN st.rows[t]
  /\ \A i \in 1..Len(rs) : /\ Len(rs[i][2]) = Len(fs)
                           /\ \A j \in 1..Len(fs) : rs[i][2][j] = st.rows[t][rs[i][1]][fs[j][1]]
ShowsState(st, w) ==
  /\ Ascending(w) /\ {<<w[i][1], w[i][2]>> : i \in 1..Len(w)} = {<<t, st.tabs[t].name>> : t \in DOMAIN st.tabs}
  /\ \A i \in 1..Len(w) : FieldsOk(st, w[i][1], w[i][3]) /\ RowsOk(st, w[i][1], w[i][3], w[i][4])
Shows(w) == ShowsState(State, w)
View(w) == Shows(w) /\ UNCHANGED dvars
Logged(ops) == ops = log /\ UNCHANGED dvars

(* iterations: [[tid, forwards, backwards, count, and for interpreted databases: free ones forwards, backwards, capacity]...] *)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
WalkOk(k) == /\ Len(k[2]) = Cardinality(DOMAIN rows[k[1]]) /\ Ran(k[2]) = DOMAIN rows[k[1]]
             /\ k[3] = Reverse(k[2]) /\ k[4] = Len(k[2])
             /\ Len(k) > 4 => /\ k[6] = Reverse(k[5]) /\ Len(k[5]) = Cardinality(Ran(k[5]))
                              /\ Ran(k[5]) = (0..k[7] - 1) \ DOMAIN rows[k[1]]
Walk(w) == /\ {w[i][1] : i \in 1..Len(w)} = DOMAIN tabs /\ \A i \in 1..Len(w) : WalkOk(w[i])
           /\ UNCHANGED dvars

(* A generated database: records, iteration, indexes.
   ix = [[name, traversal, forwards by next, backwards by previous, [[key, found]...]]...] *)
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF a[1] = b[1] THEN LexLeq(Tail(a), Tail(b)) ELSE a[1] < b[1]
RECURSIVE KeyLeq(_, _)
KeyLeq(a, b) == IF a = <<>> THEN TRUE
                ELSE IF a[1] = b[1] THEN KeyLeq(Tail(a), Tail(b)) ELSE LexLeq(a[1], b[1])
IndexOk(k) == LET d == CHOOSE d \in Ran(defs) : d.name = k[1]
                  x == idx[k[1]] IN
  /\ Len(k[2]) = Cardinality(DOMAIN x) /\ {k[2][i][1] : i \in 1..Len(k[2])} = DOMAIN x
  /\ \A i \in 1..Len(k[2]) : k[2][i][2] = x[k[2][i][1]]
  /\ \A i \in 1..Len(k[2]) - 1 : KeyLeq(k[2][i][2], k[2][i + 1][2])
  /\ d.unique => /\ k[3] = [i \in 1..Len(k[2]) |-> k[2][i][1]]
                 /\ k[4] = Reverse(k[3])
  /\ \A i \in 1..Len(k[5]) : LET q == k[5][i] IN
       Ran(q[2]) = {r \in DOMAIN x : x[r] = q[1]} /\ Len(q[2]) = Cardinality(Ran(q[2]))
Orders(walks, ix) == [order |-> [i \in 1..Len(walks) |-> <<walks[i][1], walks[i][2]>>],
                      ix |-> [i \in 1..Len(ix) |-> <<ix[i][1], [j \in 1..Len(ix[i][2]) |-> ix[i][2][j][1]]>>]]
Compiled(w, walks, ix) ==
  /\ limbo = {}
  /\ Shows(w) /\ \A i \in 1..Len(walks) : WalkOk(walks[i])
  /\ {walks[i][1] : i \in 1..Len(walks)} = DOMAIN tabs
  /\ {ix[i][1] : i \in 1..Len(ix)} = DOMAIN idx /\ \A i \in 1..Len(ix) : IndexOk(ix[i])
  /\ LET o == Orders(walks, ix) IN
     IF seen.at = Len(log) THEN seen.order = o.order /\ seen.ix = o.ix /\ UNCHANGED seen
     ELSE seen' = [at |-> Len(log), order |-> o.order, ix |-> o.ix]
  /\ UNCHANGED <<tabs, nextt, rows, idx, defs, log, pred, limbo>>

\* the writer after a refusal: the indexes still hold no wrong entry
Strict(ix) ==
  /\ \A i \in 1..Len(ix) : LET d == CHOOSE d \in Ran(defs) : d.name = ix[i][1] IN
       /\ \A j \in 1..Len(ix[i][2]) : ix[i][2][j][1] \in DOMAIN idx[ix[i][1]] \cup {x[2] : x \in {y \in limbo : y[1] = d.t}}
       /\ \A r \in DOMAIN idx[ix[i][1]] : (\A x \in limbo : ~(x[1] = d.t /\ x[2] = r)) =>
            \E j \in 1..Len(ix[i][2]) : ix[i][2][j] = <<r, idx[ix[i][1]][r]>>
       /\ d.unique => \A a, b \in 1..Len(ix[i][2]) : ix[i][2][a][2] = ix[i][2][b][2] => a = b
  /\ UNCHANGED dvars

\* replaying the log and inserting into table t gives these identifiers
Predict(t, rs) ==
  /\ \A i \in 1..Len(rs) : rs[i] \notin DOMAIN rows[t] /\ rs[i] >= 0
  /\ Len(rs) = Cardinality(Ran(rs))
  /\ (t \in DOMAIN pred /\ pred[t] # <<>>) =>
       \A i \in 1..(IF Len(rs) < Len(pred[t]) THEN Len(rs) ELSE Len(pred[t])) : rs[i] = pred[t][i]
  /\ pred' = [u \in DOMAIN pred \cup {t} |-> IF u = t THEN rs ELSE pred[u]]
  /\ UNCHANGED <<tabs, nextt, rows, idx, defs, log, seen, limbo>>
===============================================================================
