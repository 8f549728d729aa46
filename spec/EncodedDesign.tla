----------------------------- MODULE EncodedDesign -----------------------------
(* How Encoded_File (joedb/journal/Encoded_File.h) makes a file of a database of
   encoded blocks: what is written is gathered in a buffer of W bytes, and
   becomes a block <<offset, bytes>> of the log of the database; the bytes of
   the file are those of the last block that covers them.  A kill keeps a prefix
   of the blocks, with at least those there when the file was last synced. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Size, MaxBlocks, Design
VARIABLES blocks, synced, buf, bufAt,  \* the log, how many blocks are durable, the buffer
          content, past,               \* the file; what it was since it was last synced
          good
vars == <<blocks, synced, buf, bufAt, content, past, good>>
Max2(a, b) == IF a > b THEN a ELSE b
At(f, i) == IF i < Len(f) THEN f[i + 1] ELSE 0
Over(f, o, d) == IF d = <<>> THEN f ELSE
  [i \in 1..Max2(Len(f), o + Len(d)) |-> IF i > o /\ i <= o + Len(d) THEN d[i - o] ELSE At(f, i - 1)]
RECURSIVE Laid(_)
Laid(b) == IF b = <<>> THEN <<>>
           ELSE IF Design = "first" THEN Over(Laid(Tail(b)), b[1].o, b[1].d)
           ELSE Over(Laid(SubSeq(b, 1, Len(b) - 1)), b[Len(b)].o, b[Len(b)].d)
Flushed == IF buf = <<>> THEN blocks ELSE Append(blocks, [o |-> bufAt, d |-> buf])
Init == /\ blocks = <<>> /\ synced = 0 /\ buf = <<>> /\ bufAt = 0
        /\ content = <<>> /\ past = {<<>>} /\ good = TRUE
Write(o, w) ==
  LET c == Over(content, o, w)
      joins == buf # <<>> /\ (Design = "merge" \/ bufAt + Len(buf) = o) /\ Len(buf) + Len(w) <= W IN
  /\ o + Len(w) <= Size
  /\ IF Len(w) > W
     THEN /\ blocks' = Append(IF Design = "direct" THEN blocks ELSE Flushed, [o |-> o, d |-> w])
          /\ buf' = (IF Design = "direct" THEN buf ELSE <<>>) /\ UNCHANGED bufAt
     ELSE IF joins THEN buf' = buf \o w /\ UNCHANGED <<bufAt, blocks>>
     ELSE blocks' = Flushed /\ buf' = w /\ bufAt' = o
  /\ content' = c /\ past' = past \cup {c} /\ good' = TRUE /\ UNCHANGED synced
Flush == blocks' = Flushed /\ buf' = <<>> /\ UNCHANGED <<synced, bufAt, content, past>> /\ good' = TRUE
\* reading flushes, so that only blocks have to be read
Read == /\ blocks' = (IF Design = "read" THEN blocks ELSE Flushed) /\ buf' = (IF Design = "read" THEN buf ELSE <<>>)
        /\ good' = (Laid(blocks') = content) /\ UNCHANGED <<synced, bufAt, content, past>>
GetSize == /\ good' = (Len(content) = Max2(Len(Laid(blocks)), IF buf = <<>> THEN 0 ELSE bufAt + Len(buf)))
           /\ UNCHANGED <<blocks, synced, buf, bufAt, content, past>>
Sync == /\ blocks' = (IF Design = "sync" THEN blocks ELSE Flushed) /\ buf' = (IF Design = "sync" THEN buf ELSE <<>>)
        /\ synced' = Len(blocks') /\ past' = {content} /\ good' = TRUE /\ UNCHANGED <<bufAt, content>>
Kill == \E n \in synced..Len(blocks) :
  LET b == SubSeq(blocks, 1, n)  c == Laid(b) IN
  /\ blocks' = b /\ synced' = n /\ buf' = <<>> /\ content' = c /\ past' = {c} /\ good' = (c \in past) /\ UNCHANGED bufAt
Next == \/ \E o \in 0..(Size - 1) : \E n \in 1..(W + 1) : \E x \in {1, 2} : Write(o, [i \in 1..n |-> x])
        \/ Flush \/ Read \/ GetSize \/ Sync \/ Kill
Spec == Init /\ [][Next]_vars
Bound == Len(blocks) <= MaxBlocks
Good == good
===============================================================================
