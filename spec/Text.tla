--------------------------------- MODULE Text ---------------------------------
(* Strings in the text form of databases: how they are read, and written. Bytes are numbers. *)
EXTENDS Integers, Sequences, TLC

Quote == 34
Backslash == 92
Blank == 32
LOCAL Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 0
LOCAL At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0

RECURSIVE Spaces(_, _)
Spaces(t, i) == IF i <= Len(t) /\ t[i] = Blank THEN Spaces(t, i + 1) ELSE i

\* what follows position i of t, up to the end of the string
RECURSIVE Rest(_, _, _)
Rest(t, i, quoted) ==
  IF i > Len(t) \/ t[i] = (IF quoted THEN Quote ELSE Blank) THEN <<>>
  ELSE IF t[i] # Backslash THEN <<t[i]>> \o Rest(t, i + 1, quoted)
  ELSE IF At(t, i + 1) = 120 THEN <<(16 * Digit(At(t, i + 2)) + Digit(At(t, i + 3))) % 256>> \o Rest(t, i + 4, quoted)
  ELSE IF At(t, i + 1) >= 48 /\ At(t, i + 1) <= 57
       THEN <<(64 * (t[i + 1] - 48) + 8 * (At(t, i + 2) - 48) + At(t, i + 3) - 48) % 256>> \o Rest(t, i + 4, quoted)
  ELSE <<At(t, i + 1)>> \o Rest(t, i + 2, quoted)

ReadString(t) == LET i == Spaces(t, 1) IN IF At(t, i) = Quote THEN Rest(t, i + 1, TRUE) ELSE Rest(t, i, FALSE)

\* one line of text, between quotes, with nothing that a terminal would act upon
Printable(t) == /\ Len(t) >= 2 /\ t[1] = Quote /\ t[Len(t)] = Quote
                /\ \A i \in 1..Len(t) : t[i] >= Blank /\ t[i] # 127

(* writing *)
LOCAL Oct(c) == <<Backslash, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
LOCAL Cont(s, i) == At(s, i) >= 128 /\ At(s, i) < 192
RECURSIVE Chars(_, _)
Chars(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == s[i] IN
       IF c < 32 \/ c = 127 THEN Oct(c) \o Chars(s, i + 1)
       ELSE IF c = 63 /\ i > 1 /\ At(s, i - 1) = 63 THEN <<Backslash, c>> \o Chars(s, i + 1)
       ELSE IF c \in {Quote, Backslash} THEN <<Backslash, c>> \o Chars(s, i + 1)
       ELSE IF c < 128 THEN <<c>> \o Chars(s, i + 1)
       ELSE IF c >= 192 /\ c < 224 /\ Cont(s, i + 1) THEN <<c, s[i + 1]>> \o Chars(s, i + 2)
       ELSE IF c = 237 /\ At(s, i + 1) >= 160 THEN Oct(c) \o Chars(s, i + 1)
       ELSE IF c >= 224 /\ c < 240 /\ Cont(s, i + 1) /\ Cont(s, i + 2) THEN <<c, s[i + 1], s[i + 2]>> \o Chars(s, i + 3)
       ELSE IF c >= 240 /\ c < 248 /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
            THEN <<c, s[i + 1], s[i + 2], s[i + 3]>> \o Chars(s, i + 4)
       ELSE Oct(c) \o Chars(s, i + 1)
WriteString(s) == <<Quote>> \o Chars(s, 1) \o <<Quote>>
===============================================================================
