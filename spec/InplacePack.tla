------------------------------ MODULE InplacePack ------------------------------
(* joedb_pack of a file in place: the packed file is written beside it, and then
   renamed.  A file is "none", "old" (all of the original) or "new".
   A crash may lose what was not synced; renames take effect in order. *)
EXTENDS Integers, TLC

CONSTANT Design   \* "sync": as it should be; "late": synced after renaming; "swap": the first rename is skipped
VARIABLES name, packed, unpacked, whole, synced, step
pvars == <<name, packed, unpacked, whole, synced, step>>

PInit == name = "old" /\ packed = "none" /\ unpacked = "none" /\ whole = FALSE /\ synced = FALSE /\ step = 0

Create == packed = "none" /\ packed' = "new" /\ UNCHANGED <<name, unpacked, whole, synced, step>>
Write == packed = "new" /\ synced' = FALSE /\ UNCHANGED <<name, packed, unpacked, whole, step>>
Finish == packed = "new" /\ whole' = TRUE /\ UNCHANGED <<name, packed, unpacked, synced, step>>
Sync == synced' = TRUE /\ UNCHANGED <<name, packed, unpacked, whole, step>>
Keep == name = "old" /\ packed = "new" /\ unpacked' = "old" /\ name' = "none" /\ step' = 1 /\ UNCHANGED <<packed, whole, synced>>
Replace == packed = "new" /\ name' = "new" /\ packed' = "none" /\ step' = 2 /\ UNCHANGED <<unpacked, whole, synced>>

(* what is left after a crash *)
Safe == /\ name # "none" \/ unpacked = "old"                 \* the original is somewhere
        /\ name = "new" => unpacked = "old"
        /\ name = "new" => synced                            \* and its successor is not a part of a file

Next ==
  \/ Create \/ (Write /\ ~whole) \/ (Finish /\ ~whole) \/ (Sync /\ whole /\ ~synced /\ (Design = "late" => step = 2))
  \/ (Keep /\ whole /\ (synced \/ Design = "late") /\ Design # "swap")
  \/ (Replace /\ whole /\ (step = 1 \/ Design = "swap"))
  \/ step = 2 /\ synced /\ UNCHANGED pvars
Spec == PInit /\ [][Next]_pvars /\ WF_pvars(Next)
===============================================================================
