------------------------------- MODULE TextCheck -------------------------------
(* every string over some bytes is read back as written *)
EXTENDS Text
CONSTANTS Bytes, N
VARIABLE s
Init == s \in UNION {[1..n -> Bytes] : n \in 0..N}
Back == ReadString(WriteString(s)) = s /\ Printable(WriteString(s))
\* also when it is followed by something else
Then == ReadString(WriteString(s) \o <<32, 34>>) = s
Spec == Init /\ [][UNCHANGED s]_s
===============================================================================
