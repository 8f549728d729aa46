------------------------------- MODULE DataCheck -------------------------------
(* Data, explored exhaustively on a small universe: what the specification itself promises *)
EXTENDS Data
CONSTANTS Depth
Names == {<<97>>, <<98, 95>>, <<95, 95>>}
Tids == 1..2
Fids == 1..2
Rids == 0..1
Values == {<<0>>, <<1>>}
O(o, n, s, v, y) == [o |-> o, n |-> n, s |-> s, v |-> v, y |-> y]
Ops == {O("create_table", <<>>, s, <<>>, "") : s \in Names} \cup {O("drop_table", <<t>>, <<>>, <<>>, "") : t \in Tids}
       \cup {O("rename_table", <<t>>, s, <<>>, "") : t \in Tids, s \in Names}
       \cup {O("add_field", <<t, 0>>, s, <<>>, "int8") : t \in Tids, s \in Names}
       \cup {O(k, <<t, f>>, <<>>, <<>>, "") : k \in {"drop_field"}, t \in Tids, f \in Fids}
       \cup {O("insert", <<t, r>>, <<>>, <<>>, "") : t \in Tids, r \in Rids}
       \cup {O("insert_vector", <<t, 0, 2>>, <<>>, <<>>, "") : t \in Tids}
       \cup {O("delete", <<t, r>>, <<>>, <<>>, "") : t \in Tids, r \in Rids}
       \cup {O("delete_vector", <<t, 0, 2>>, <<>>, <<>>, "") : t \in Tids}
       \cup {O("update", <<t, r, f>>, <<>>, <<v>>, "int8") : t \in Tids, r \in Rids, f \in Fids, v \in Values}
       \cup {O("update_vector", <<t, 0, f, 2>>, <<>>, <<v, u>>, "int8") : t \in Tids, f \in Fids, v \in Values, u \in Values}
Start == << O("create_table", <<>>, <<97>>, <<>>, ""), O("add_field", <<1, 0>>, <<97>>, <<>>, "int8") >>
Init == DataInit(<<[name |-> "u", unique |-> TRUE, t |-> 1, f |-> <<1>>], [name |-> "m", unique |-> FALSE, t |-> 1, f |-> <<1, 2>>]>>)
\* generated code exists only for a schema that does not change: the multi-column index needs field 2
Allowed(op) == op.o \in {"update", "update_vector"} /\ op.n[1] = 1 => Fld(1, 1) /\ Fld(1, 2)
Next == /\ Len(log) < Depth
        /\ \E op \in Ops : /\ Allowed(op)
                           /\ (Len(log) < 2 => op = Start[Len(log) + 1])
                           /\ Op(op, TRUE, FALSE) \/ Op(op, FALSE, FALSE)
Spec == Init /\ [][Next]_dvars
View_ == <<tabs, nextt, rows, idx, limbo, Len(log)>>

Shape == /\ DOMAIN rows = DOMAIN tabs
         /\ \A t \in DOMAIN tabs : /\ t <= nextt /\ Identifier(tabs[t].name)
                                   /\ \A f \in DOMAIN tabs[t].fields : f <= tabs[t].next /\ Identifier(tabs[t].fields[f].name)
                                   /\ \A r \in DOMAIN rows[t] : DOMAIN rows[t][r] = DOMAIN tabs[t].fields
NamesUnique == /\ \A a, b \in DOMAIN tabs : tabs[a].name = tabs[b].name => a = b
               /\ \A t \in DOMAIN tabs : \A a, b \in DOMAIN tabs[t].fields : tabs[t].fields[a].name = tabs[t].fields[b].name => a = b
IndexedLive == \A d \in Ran(defs) : d.t \in DOMAIN rows => DOMAIN idx[d.name] \subseteq DOMAIN rows[d.t]
UniqueAlways == UniqueOk(idx)
\* an index of one column always holds current values
Current == \A d \in Ran(defs) : (Len(d.f) = 1 /\ d.t \in DOMAIN rows) =>
             \A r \in DOMAIN idx[d.name] : d.f[1] \in DOMAIN rows[d.t][r] => idx[d.name][r] = <<rows[d.t][r][d.f[1]]>>
NeverReused == [][ (\A t \in DOMAIN tabs' \ DOMAIN tabs : t > nextt)
                   /\ \A t \in DOMAIN tabs' \cap DOMAIN tabs : \A f \in DOMAIN tabs'[t].fields \ DOMAIN tabs[t].fields : f > tabs[t].next ]_dvars
===============================================================================
