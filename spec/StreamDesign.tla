----------------------------- MODULE StreamDesign -----------------------------
(* Stream_File (joedb/journal/Stream_File.h): a file on a std::streambuf.  The
   streambuf has one position for reads and one for writes; Stream_File
   remembers one position and the direction of the last operation, and seeks
   only when it has to.  split: a streambuf (std::stringbuf, joedb::filebuf)
   whose two positions are distinct; otherwise (std::filebuf) they are one,
   and a seek is required between a read and a write. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size, Design
VARIABLES file, get, put, last, split, pos, direction, content, good
vars == <<file, get, put, last, split, pos, direction, content, good>>
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
At(f, i) == IF i < Len(f) THEN f[i + 1] ELSE 0
Over(f, o, d) == [i \in 1..Max2(Len(f), o + Len(d)) |-> IF i > o /\ i <= o + Len(d) THEN d[i - o] ELSE At(f, i - 1)]
Init == /\ file = <<>> /\ get = 0 /\ put = 0 /\ last = "none" /\ split \in BOOLEAN
        /\ pos = 0 /\ direction = "in" /\ content = <<>> /\ good = TRUE
\* is a seek skipped?
Stays(o, d) == pos = o /\ (Design = "position" \/ d = direction)
\* positions of the streambuf when Stream_File reads or writes at o
From(o, d, p) == IF Stays(o, d) THEN p ELSE o
Broken(o, d) == ~split /\ Stays(o, d) /\ last \notin {"none", d}
Write(o, w) ==
  LET q == From(o, "out", IF split THEN put ELSE Max2(get, put)) IN
  /\ o <= Len(content) /\ o + Len(w) <= Size
  /\ file' = Over(file, q, w) /\ content' = Over(content, o, w)
  /\ put' = q + Len(w)
  /\ get' = (IF split THEN (IF Stays(o, "out") THEN get ELSE o) ELSE put')
  /\ last' = "out" /\ pos' = o + Len(w) /\ direction' = (IF Design = "position" THEN direction ELSE "out")
  /\ good' = ~Broken(o, "out")
  /\ UNCHANGED split
Read(o, n) ==
  LET q == From(o, "in", get)  m == Min2(n, Max2(0, Len(content) - o)) IN
  /\ o <= Len(content)
  /\ get' = q + m
  /\ put' = (IF split THEN (IF Stays(o, "in") THEN put ELSE o) ELSE get')
  /\ last' = "in" /\ pos' = o + m /\ direction' = (IF Design = "position" THEN direction ELSE "in")
  /\ good' = (~Broken(o, "in") /\ SubSeq(content, o + 1, o + m) = SubSeq(file, q + 1, Min2(Len(file), q + m)))
  /\ UNCHANGED <<file, content, split>>
\* the size is where a seek from the end arrives
GetSize ==
  /\ get' = Len(file) /\ put' = (IF split THEN put ELSE Len(file)) /\ pos' = Len(file)
  /\ direction' = (IF Design = "size" THEN direction ELSE "in")
  /\ last' = "none" /\ good' = (Len(file) = Len(content)) /\ UNCHANGED <<file, content, split>>
Next == \/ \E o \in 0..Size : \E n \in 1..2 : Read(o, n) \/ \E w \in [1..n -> {1, 2}] : Write(o, w)
        \/ GetSize
Spec == Init /\ [][Next]_vars
Good == good
Same == file = content
===============================================================================
