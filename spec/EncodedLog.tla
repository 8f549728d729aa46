------------------------------ MODULE EncodedLog ------------------------------
(* A journal in an encoded file: what is there after it is closed, or after the
   process that writes it is killed.  States of the journal are numbers of
   operations. *)
EXTENDS Integers, FiniteSets
VARIABLES written,   \* operations appended
          last,      \* the last checkpoint
          kept,      \* states that a power failure may leave: those of the checkpoints since the last hard one
          near,      \* states that a kill may leave: those of the checkpoints of this session
          phase      \* open, shut (not opened again yet), killed, down (after a power failure)
lvars == <<written, last, kept, near, phase>>
LInit == written = 0 /\ last = 0 /\ kept = {0} /\ near = {0} /\ phase = "shut"
\* the journal is what its reader sees, and is written from there
LOpen(n) == /\ phase = "shut" /\ n = last
            /\ written' = n /\ near' = {n} /\ phase' = "open" /\ UNCHANGED <<last, kept>>
LOp(i) == phase = "open" /\ i = written + 1 /\ written' = i /\ UNCHANGED <<last, kept, near, phase>>
LSoft == phase = "open" /\ last' = written /\ kept' = kept \cup {written} /\ near' = near \cup {written} /\ UNCHANGED <<written, phase>>
LHard == phase = "open" /\ last' = written /\ kept' = {written} /\ near' = {written} /\ UNCHANGED <<written, phase>>
LClose == phase = "open" /\ phase' = "shut" /\ UNCHANGED <<written, last, kept, near>>
LKill(power) == phase = "open" /\ phase' = (IF power THEN "down" ELSE "killed") /\ UNCHANGED <<written, last, kept, near>>
LShown(n) == \/ phase = "shut" /\ n = last /\ UNCHANGED lvars
             \/ /\ (phase = "killed" /\ n \in near) \/ (phase = "down" /\ n \in kept)
                /\ last' = n /\ written' = n /\ kept' = {n} /\ near' = {n} /\ phase' = "shut"
===============================================================================
