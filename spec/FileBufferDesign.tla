--------------------------- MODULE FileBufferDesign ---------------------------
(* How File_Buffer (joedb/journal/File_Buffer.h) gives the contract of a buffer
   of ByteFile: one array of N + X bytes holds either bytes not yet written, or
   bytes read ahead.  The ghosts content and where are the file and the position
   that the user sees; pread may return less than asked. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, X,      \* size of the buffer, extra space at its end
          Bytes,     \* values of bytes
          MaxSize, MaxWrite, Design
VARIABLES file, at,            \* the file, position of File_Iterator
          data, index, ahead,  \* the buffer, where in it, how much was read into it
          content, where, mode, good
vars == <<file, at, data, index, ahead, content, where, mode, good>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
At(f, i) == IF i < Len(f) THEN f[i + 1] ELSE 0
\* f with the bytes d at offset o
Over(f, o, d) == IF d = <<>> THEN f ELSE
  [i \in 1..Max2(Len(f), o + Len(d)) |-> IF i > o /\ i <= o + Len(d) THEN d[i - o] ELSE At(f, i - 1)]
Pending == ahead = 0 /\ index > 0
Held == IF Pending THEN SubSeq(data, 1, Min2(index, N + X)) ELSE <<>>
Place(d, i, s) == [j \in 1..(N + X) |-> IF j > i /\ j <= i + Len(s) THEN s[j - i] ELSE d[j]]
Position == at - ahead + index
Words == UNION {[1..n -> Bytes] : n \in 1..MaxWrite}

Init == /\ file = <<>> /\ at = 0 /\ data = [i \in 1..(N + X) |-> 0] /\ index = 0 /\ ahead = 0
        /\ content = <<>> /\ where = 0 /\ mode = "none" /\ good = TRUE

Flushed(f, a, i, r) == \* f, a after flush
  IF r = 0 /\ i > 0 THEN [f |-> Over(f, a, SubSeq(data, 1, i)), a |-> a + i] ELSE [f |-> f, a |-> a - r + i]

Write(w) ==
  LET n == Len(w)  room == N + X - index
      small == n <= X \/ n < room
      i2 == index + n IN
  /\ mode \in {"none", "write"} /\ where + n <= MaxSize
  /\ IF small
     THEN /\ data' = Place(data, index, w)
          /\ IF i2 >= N /\ Design # "late"
             THEN file' = Over(file, at, SubSeq(Place(data, index, w), 1, i2)) /\ at' = at + i2 /\ index' = 0
             ELSE index' = i2 /\ UNCHANGED <<file, at>>
          /\ ahead' = 0
     ELSE LET s == IF Design = "direct" THEN [f |-> file, a |-> at] ELSE Flushed(file, at, index, 0) IN
          /\ file' = Over(s.f, s.a, w) /\ at' = s.a + n
          /\ index' = (IF Design = "direct" THEN index ELSE 0) /\ UNCHANGED <<data, ahead>>
  /\ content' = Over(content, where, w) /\ where' = where + n /\ mode' = "write"
  /\ good' = (index + n <= N + X \/ ~small)

\* read_data of n bytes: what is in the buffer, then one block read ahead or directly the rest
Read(n) ==
  /\ mode \in {"none", "read"}
  /\ where + n <= Len(content)
  /\ IF index + n <= ahead
     THEN /\ good' = (SubSeq(data, index + 1, index + n) = SubSeq(content, where + 1, where + n))
          /\ index' = index + n /\ UNCHANGED <<file, at, data, ahead>>
     ELSE LET n0 == ahead - index  left == n - n0
              first == SubSeq(data, index + 1, index + n0) IN
          IF n <= N
          THEN \E m \in 1..Min2(N, Len(file) - at) :    \* pread returned m bytes
               LET take == Min2(left, m)  rest == left - take
                   got == first \o SubSeq(file, at + 1, at + n - n0) IN
               /\ data' = Place(data, 0, SubSeq(file, at + 1, at + m)) /\ ahead' = m /\ index' = take
               /\ at' = at + m + rest
               \* (the rest is read directly, in as many calls as it takes)
               /\ good' = (got = SubSeq(content, where + 1, where + n))
               /\ UNCHANGED file
          ELSE /\ good' = (first \o SubSeq(file, at + 1, at + left) = SubSeq(content, where + 1, where + n))
               /\ at' = at + left /\ index' = ahead /\ UNCHANGED <<file, data, ahead>>
  /\ where' = where + n /\ mode' = "read" /\ UNCHANGED content

Flush == LET s == Flushed(file, at, index, ahead) IN
  /\ file' = s.f /\ at' = (IF Design = "rewind" /\ ahead > 0 THEN at ELSE s.a) /\ index' = 0 /\ ahead' = 0
  /\ mode' = "none" /\ UNCHANGED <<data, content, where>> /\ good' = TRUE
SetPosition(p) ==
  LET s == Flushed(file, at, index, ahead) IN
  /\ IF Design = "keep" /\ ahead > 0 THEN UNCHANGED <<index, ahead>> ELSE index' = 0 /\ ahead' = 0
  /\ file' = (IF Design = "drop" THEN file ELSE s.f) /\ at' = p
  /\ where' = p /\ mode' = "none" /\ UNCHANGED <<data, content>> /\ good' = TRUE
Skip(n) ==
  /\ mode \in {"none", "read"} /\ where + n <= MaxSize
  /\ IF index + n <= ahead THEN index' = index + n /\ UNCHANGED <<file, at, ahead>>
     ELSE at' = Position + n /\ index' = 0 /\ ahead' = 0 /\ UNCHANGED file
  /\ where' = where + n /\ mode' = "read" /\ UNCHANGED <<data, content>> /\ good' = TRUE
Next == \/ \E w \in Words : Write(w)
        \/ \E n \in 1..MaxWrite : Read(n) \/ Skip(n)
        \/ Flush
        \/ \E p \in 0..MaxSize : SetPosition(p)
Spec == Init /\ [][Next]_vars
\* what the user sees is the file with what the buffer holds
Sees == Over(file, at, Held) = content
Where == mode \in {"none", "write", "read"} => Position = where
Good == good
Fits == index <= N + X /\ (ahead > 0 => index <= ahead)
===============================================================================
