------------------------------- MODULE Upgrade -------------------------------
(* Programs with versions of a schema, and the files that they open.

   Version v of the program has the statements Family[v].schema (operations of
   Data; the field y of a custom one is the name of the function), initial
   values Family[v].values of fields ([t, f, v]), and tables of a single row
   Family[v].single.

   A file is what Data describes: its schema is made of the statements of its
   log.  A program may open it if this schema is a prefix of its own; the
   missing statements are then applied, each function being called once, at its
   place, and the whole is committed at once. *)
EXTENDS Data, SequencesExt
CONSTANT Family
VARIABLE sess          \* open clients: id -> [v: version, dead: it was told that the file has changed]
uvars == <<dvars, sess>>

Statement(op) == op.o \in {"create_table", "drop_table", "rename_table", "add_field", "drop_field", "rename_field", "custom"}
Plain(st) == IF st.o = "custom" THEN [st EXCEPT !.y = ""] ELSE st
SchemaOf(ops) == SelectSeq(ops, Statement)
Target(v) == [i \in 1..Len(Family[v].schema) |-> Plain(Family[v].schema[i])]
Missing(v, have) == SubSeq(Family[v].schema, Len(have) + 1, Len(Family[v].schema))
Fits(v, have) == IsPrefix(have, Target(v))

U(t, r, f, v) == [o |-> "update", n |-> <<t, r, f>>, s |-> <<>>, v |-> <<v>>, y |-> ""]
Ins(t, r) == [o |-> "insert", n |-> <<t, r>>, s |-> <<>>, v |-> <<>>, y |-> ""]
Del(t, r) == [o |-> "delete", n |-> <<t, r>>, s |-> <<>>, v |-> <<>>, y |-> ""]
SetAll(st, t, f, v) == [st EXCEPT !.rows[t] = [r \in DOMAIN @ |-> [@[r] EXCEPT ![f] = v]]]

(* The functions.  ids: the identifiers of the records that they create *)
Person == 1  Town == 2  Language == 4  Settings == 5
Effect(name, st, ids) ==
  CASE name = "set_language" ->          \* a new language, that every person speaks
         SetAll(After(After(st, Ins(Language, ids[1])), U(Language, ids[1], 1, <<7>>)), Person, 4, <<ids[1]>>)
    [] name = "count_people" ->          \* the number of persons, and how many of them have no language
         After(st, U(Settings, 0, 1, <<Cardinality(DOMAIN st.rows[Person])
                                       + 100 * Cardinality({r \in DOMAIN st.rows[Person] : st.rows[Person][r][4] = <<-1>>})>>))
    [] name = "add_town" ->              \* three more towns, without the first of them
         After(After(After(st, Ins(Town, ids[1])), [Ins(Town, ids[2]) EXCEPT !.o = "insert_vector", !.n = <<Town, ids[2], 2>>]), Del(Town, ids[1]))
NewIds(name, st, ids) ==
  CASE name = "set_language" -> Len(ids) = 1 /\ ids[1] \notin DOMAIN st.rows[Language]
    [] name = "count_people" -> ids = <<>>
    [] name = "add_town" -> Len(ids) = 2 /\ ids[1] # ids[2] /\ ids[1] # ids[2] + 1
                            /\ {ids[1], ids[2], ids[2] + 1} \cap DOMAIN st.rows[Town] = {}

(* one statement: [st, ok: the functions were called as they should, calls: those that remain] *)
Step(v, x, op) ==
  IF op.o = "custom" THEN
    IF x.calls # <<>> /\ x.calls[1][1] = op.y /\ NewIds(op.y, x.st, x.calls[1][2])
    THEN [st |-> Effect(op.y, x.st, x.calls[1][2]), ok |-> x.ok, calls |-> Tail(x.calls)]
    ELSE [x EXCEPT !.ok = FALSE]
  ELSE LET st == After(x.st, op) IN
    [x EXCEPT !.st =
      IF op.o = "create_table" /\ st.nextt \in Ran(Family[v].single) THEN After(st, Ins(st.nextt, 0))
      ELSE IF op.o = "add_field" /\ \E i \in 1..Len(Family[v].values) : Family[v].values[i].t = op.n[1] /\ Family[v].values[i].f = st.tabs[op.n[1]].next
           THEN LET i == CHOOSE i \in 1..Len(Family[v].values) : Family[v].values[i].t = op.n[1] /\ Family[v].values[i].f = st.tabs[op.n[1]].next
                IN SetAll(st, op.n[1], st.tabs[op.n[1]].next, Family[v].values[i].v)
           ELSE st]
Upgraded(v, calls) == FoldSeq(LAMBDA op, x : Step(v, x, op), [st |-> State, ok |-> TRUE, calls |-> calls], Missing(v, SchemaOf(log)))
Become(st, ops) ==
  /\ tabs' = st.tabs /\ rows' = st.rows /\ nextt' = st.nextt /\ log' = log \o ops
  /\ UNCHANGED <<idx, defs, seen, pred, limbo>>

\* the functions called by an opening that did not succeed: the first ones
CallsOk(v, calls) == LET cs == SelectSeq(Missing(v, SchemaOf(log)), LAMBDA op : op.o = "custom") IN
  Len(calls) <= Len(cs) /\ \A i \in 1..Len(calls) : calls[i][1] = cs[i].y

(* Version v opened the file.
   mode: "write", "client", "connected", "text": the file may be written; "read", "follow": it may not;
         "view": it may not, but the program may work on an upgraded copy in memory
   res: "ok"; "foreign": refused; "old": refused because it should be upgraded; "threw": a function failed
   calls: the functions called [name, identifiers created]; ops: what was committed; w: what the program sees *)
Open(id, v, mode, res, calls, ops, w) ==
  LET have == SchemaOf(log)
      fits == Fits(v, have)
      current == fits /\ Len(have) = Len(Family[v].schema)
      up == Upgraded(v, calls) IN
  /\ CASE ~fits -> res = "foreign" /\ calls = <<>> /\ ops = <<>> /\ UNCHANGED dvars
       [] fits /\ mode \in {"read", "follow"} /\ ~current -> res = "old" /\ calls = <<>> /\ ops = <<>> /\ UNCHANGED dvars
       [] current -> res = "ok" /\ calls = <<>> /\ ops = <<>> /\ Shows(w) /\ UNCHANGED dvars
       [] OTHER ->
          IF res = "threw" THEN CallsOk(v, calls) /\ ops = <<>> /\ UNCHANGED dvars
          ELSE /\ res = "ok" /\ up.ok /\ up.calls = <<>>
               /\ ShowsState(up.st, w)
               /\ IF mode = "view" THEN ops = <<>> /\ UNCHANGED dvars
                  ELSE /\ SchemaOf(ops) = [i \in 1..Len(Missing(v, have)) |-> Plain(Missing(v, have)[i])]
                       /\ Become(up.st, ops)
  /\ sess' = IF res = "ok" /\ id # 0 THEN [i \in DOMAIN sess \cup {id} |-> IF i = id THEN [v |-> v, dead |-> FALSE] ELSE sess[i]]
             ELSE [i \in DOMAIN sess \ {id} |-> sess[i]]

(* The process died while version v was opening the file: all or nothing *)
Died(v, calls, ops) ==
  /\ \/ ops = <<>> /\ UNCHANGED dvars
     \/ LET up == Upgraded(v, calls)
            m == Missing(v, SchemaOf(log)) IN
        /\ Fits(v, SchemaOf(log)) /\ m # <<>>
        /\ up.ok /\ up.calls = <<>>
        /\ SchemaOf(ops) = [i \in 1..Len(m) |-> Plain(m[i])]
        /\ Become(up.st, ops)
  /\ sess' = << >>

(* A client runs a transaction or pulls.  ran: its function was called *)
Outdated(id) == Len(SchemaOf(log)) # Len(Family[sess[id].v].schema)
Use(id, how, ok, ran, w) ==
  IF Outdated(id) THEN
    /\ ok => sess[id].dead /\ how = "pull"
    /\ ~ran
    /\ sess' = [sess EXCEPT ![id].dead = TRUE] /\ UNCHANGED dvars
  ELSE /\ ok /\ (how = "transaction" => ran)
       /\ Shows(w)
       /\ UNCHANGED uvars
Closed(id) == sess' = [i \in DOMAIN sess \ {id} |-> sess[i]] /\ UNCHANGED dvars
\* anything but statements may be written by programs
Written(op) == Op(op, TRUE, FALSE) /\ UNCHANGED sess
===============================================================================
