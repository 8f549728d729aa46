-------------------------------- MODULE ByteFile --------------------------------
(* Files of every kind, as one array of bytes each, and what reads and writes
   them piece by piece: buffers (of a journal), streams, copies.

   The content of a file is a set of disjoint segments <<a, b, t>>: the bytes at
   offsets a .. b - 1 are those that write number t put at these offsets.  What
   is below the size in no segment is zero.  t >= 300: a number written with
   write or compact_write; its bytes are not looked at one by one. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES files,  \* name -> [segs, size, kills, safe, near: states that a power failure, a kill may bring back]
          curs,   \* name of a buffer or stream -> [f, mode, pos: position of reads, put: position of writes]
          nums    \* t -> value of the number
bvars == <<files, curs, nums>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Clip(S, a, b) == {<<Max2(s[1], a), Min2(s[2], b), s[3]>> : s \in {x \in S : x[1] < b /\ x[2] > a}}
Inf == 2000000000
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (x[2] - x[1]) + Sum(S \ {x})
Put(c, a, n, t) == IF n = 0 THEN c ELSE
  [segs |-> Clip(c.segs, 0, a) \cup Clip(c.segs, a + n, Inf) \cup {<<a, a + n, t>>}, size |-> Max2(c.size, a + n)]
Paste(c, d, a, b) ==    \* c, with the bytes of d at a .. b - 1
  IF b <= a THEN c ELSE
  [segs |-> Clip(c.segs, 0, a) \cup Clip(c.segs, b, Inf) \cup Clip(d.segs, a, b), size |-> Max2(c.size, b)]
Content(f) == [segs |-> files[f].segs, size |-> files[f].size]

\* runs: sequence of <<a, b, t>>, t = 0 for zeros, 255 for bytes of numbers
Shown(c, a, b, runs) ==
  /\ IF b <= a THEN runs = <<>> ELSE
     /\ runs # <<>> /\ runs[1][1] = a /\ runs[Len(runs)][2] = b
     /\ \A i \in 1..(Len(runs) - 1) : runs[i][2] = runs[i + 1][1]
     /\ \A i \in 1..Len(runs) :
          LET x == Clip(c.segs, runs[i][1], runs[i][2]) IN
          IF runs[i][3] = 0 THEN x = {}
          ELSE /\ Sum(x) = runs[i][2] - runs[i][1]
               /\ \A s \in x : IF runs[i][3] = 255 THEN s[3] >= 300 ELSE s[3] = runs[i][3]
Same(c, d, a, b) ==
  /\ \A s \in Clip(c.segs, a, b) : Sum({x \in Clip(d.segs, s[1], s[2]) : x[3] = s[3]}) = s[2] - s[1]
  /\ Sum(Clip(c.segs, a, b)) = Sum(Clip(d.segs, a, b))
Rest(c, a) == Max2(0, c.size - a)

BInit == files = << >> /\ curs = << >> /\ nums = << >>
Set(f, c) == files' = [files EXCEPT ![f] = [segs |-> c.segs, size |-> c.size, kills |-> @.kills, safe |-> IF @.kills THEN @.safe \cup {c} ELSE {},
                                             near |-> IF @.kills THEN @.near \cup {c} ELSE {}]]
Idle(f) == \A k \in DOMAIN curs : curs[k].f = f => curs[k].mode # "write"

Create(f, kills) ==
             /\ files' = [x \in DOMAIN files \cup {f} |-> IF x = f THEN [segs |-> {}, size |-> 0, kills |-> kills, safe |-> {[segs |-> {}, size |-> 0]},
                                                                      near |-> {[segs |-> {}, size |-> 0]}] ELSE files[x]]
             /\ UNCHANGED <<curs, nums>>
\* ok: some streams cannot seek past their end
Write(f, a, n, t, ok) ==
  /\ IF ok THEN Set(f, Put(Content(f), a, n, t)) ELSE a > files[f].size /\ UNCHANGED files
  /\ UNCHANGED <<curs, nums>>
\* once: one call of pread, that may return less
Read(f, a, n, once, ok, runs) ==
  LET got == IF runs = <<>> THEN 0 ELSE runs[Len(runs)][2] - a
      all == Min2(n, Rest(Content(f), a)) IN
  /\ Idle(f)
  /\ IF ~ok THEN a > files[f].size
     ELSE /\ got <= all /\ (IF once THEN all > 0 => got > 0 ELSE got = all)
          /\ Shown(Content(f), a, a + got, runs)
  /\ UNCHANGED bvars
Size(f, n) == Idle(f) /\ n = files[f].size /\ UNCHANGED bvars
\* the file is written durably
Sync(f) == Idle(f) /\ files' = [files EXCEPT ![f].safe = {Content(f)}, ![f].near = {Content(f)}] /\ UNCHANGED <<curs, nums>>
\* closed and opened again
Reopen(f) == /\ \A k \in DOMAIN curs : curs[k].f # f
             /\ files' = [files EXCEPT ![f].near = {Content(f)}] /\ UNCHANGED <<curs, nums>>
\* the process is killed: some of its last writes may be lost; those since the file was last synced in a power failure
Killed(f, power, runs) == /\ \A k \in DOMAIN curs : curs[k].f # f
             /\ \E c \in (IF power THEN files[f].safe ELSE files[f].near) : Shown(c, 0, c.size, runs) /\ files' = [files EXCEPT ![f] = [segs |-> c.segs, size |-> c.size, kills |-> TRUE, safe |-> {c}, near |-> {c}]]
             /\ UNCHANGED <<curs, nums>>
\* bytes a .. a + n - 1 copied from f to g; n < 0: until the end
Copy(f, g, a, n, ok) ==
  LET b == IF n < 0 THEN Max2(a, files[f].size) ELSE a + n IN
  /\ Idle(f) /\ Idle(g)
  /\ (ok = (b <= Max2(a, files[f].size)) \/ (~ok /\ a > files[f].size))
  /\ Set(g, Paste(Content(g), Content(f), a, Min2(b, files[f].size)))
  /\ UNCHANGED <<curs, nums>>
Equal(f, g, a, b, res) ==
  /\ Idle(f) /\ Idle(g)
  /\ IF b <= a THEN res = "yes"
     ELSE IF b <= files[f].size /\ b <= files[g].size
     THEN res = IF Same(Content(f), Content(g), a, b) THEN "yes" ELSE "no"
     ELSE res \in {"no", "threw"}
  /\ UNCHANGED bvars

\* buffers: one position; streams: one for reads, one for writes
Open(k, f, stream) ==
  /\ k \notin DOMAIN curs
  /\ curs' = [x \in DOMAIN curs \cup {k} |-> IF x = k THEN [f |-> f, stream |-> stream, mode |-> "none", pos |-> 0, put |-> 0] ELSE curs[x]]
  /\ UNCHANGED <<files, nums>>
\* (a buffer that reads ahead does not see what others write)
Alone(k) == \A x \in DOMAIN curs : x # k /\ curs[x].f = curs[k].f => curs[x].mode = "none"
Seek(k, what, p) ==
  /\ curs' = [curs EXCEPT ![k] = [@ EXCEPT !.mode = "none",
                                          !.pos = IF @ # -1 /\ what = "put" THEN @ ELSE p,
                                          !.put = IF what = "get" THEN @ ELSE p]]
  /\ UNCHANGED <<files, nums>>
Flush(k) == curs' = [curs EXCEPT ![k].mode = "none"] /\ UNCHANGED <<files, nums>>
CWrite(k, n, t) ==
  /\ curs[k].mode \in {"none", "write"} /\ Alone(k)
  /\ Set(curs[k].f, Put(Content(curs[k].f), curs[k].put, n, t))
  /\ curs' = [curs EXCEPT ![k] = [@ EXCEPT !.mode = "write", !.put = @ + n, !.pos = IF curs[k].stream THEN @ ELSE @ + n]]
  /\ UNCHANGED nums
CNumber(k, n, t, v) ==
  /\ curs[k].mode \in {"none", "write"} /\ Alone(k) /\ t >= 300 /\ n > 0
  /\ Set(curs[k].f, Put(Content(curs[k].f), curs[k].put, n, t))
  /\ curs' = [curs EXCEPT ![k] = [@ EXCEPT !.mode = "write", !.put = @ + n, !.pos = @ + n]]
  /\ nums' = [x \in DOMAIN nums \cup {t} |-> IF x = t THEN v ELSE nums[x]]
\* a buffer throws if there is not enough to read; a stream reads what there is
CRead(k, n, ok, runs) ==
  LET c == curs[k]  all == Min2(n, Rest(Content(c.f), c.pos)) IN
  /\ c.mode \in {"none", "read"} /\ Alone(k)
  /\ ok = (all = n)
  /\ (ok \/ c.stream) => Shown(Content(c.f), c.pos, c.pos + all, runs)
  /\ curs' = [curs EXCEPT ![k] = [@ EXCEPT !.mode = IF ok THEN "read" ELSE "lost",
                                          !.pos = IF ok \/ c.stream THEN @ + all ELSE @,
                                          !.put = IF c.stream THEN @ ELSE @ + all]]
  /\ UNCHANGED <<files, nums>>
\* a number read where it was written
CNumberRead(k, n, v) ==
  LET c == curs[k] IN
  /\ c.mode \in {"none", "read"} /\ Alone(k)
  /\ \E s \in files[c.f].segs : s[1] = c.pos /\ s[2] = c.pos + n /\ s[3] >= 300 /\ nums[s[3]] = v
  /\ curs' = [curs EXCEPT ![k] = [@ EXCEPT !.mode = "read", !.pos = @ + n, !.put = @ + n]]
  /\ UNCHANGED <<files, nums>>
Skip(k, n) ==
  /\ curs[k].mode \in {"none", "read"}
  /\ curs' = [curs EXCEPT ![k] = [@ EXCEPT !.mode = "read", !.pos = @ + n, !.put = IF curs[k].stream THEN @ ELSE @ + n]]
  /\ UNCHANGED <<files, nums>>
\* one character of a stream is put back
Unget(k) == /\ curs[k].stream /\ curs[k].mode \in {"none", "read"} /\ curs[k].pos > 0
            /\ curs' = [curs EXCEPT ![k] = [@ EXCEPT !.mode = "read", !.pos = @ - 1]]
            /\ UNCHANGED <<files, nums>>
Tell(k, p, q) == /\ (curs[k].mode # "lost" \/ curs[k].stream) => (p = curs[k].pos /\ q = curs[k].put)
                 \* (asking a stream writes what it holds)
                 /\ IF curs[k].stream THEN Flush(k) ELSE UNCHANGED bvars
Close(k) == curs' = [x \in DOMAIN curs \ {k} |-> curs[x]] /\ UNCHANGED <<files, nums>>
=================================================================================
