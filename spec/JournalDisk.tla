----------------------------- MODULE JournalDisk -----------------------------
(* The file of a journal as an object on a disk with a write-back cache:      *)
(* four header slots, a size, and data, each with the versions that a power   *)
(* failure may leave, together with what the user was promised.               *)
(* Shared by the design model (Journal) and the trace specification           *)
(* (JournalTrace).                                                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT HS        \* size of the header: the smallest position (41 in joedb)

VARIABLES
  slotC,   \* [1..4 -> Int] header slots as seen by every running process
  slotD,   \* [1..4 -> Int] header slots surely on disk
  slotP,   \* [1..4 -> SUBSET Int] values written since the last sync
  sizeC,   \* size of the file as seen by running processes
  sizeD,   \* size surely on disk
  hist,    \* the headers the file had since the last sync, the one surely on disk included
  strict,  \* header writes may reach the disk in any order (see PowerHeaders)
  pend,    \* set of <<a, b>>: data intervals written since the last sync
  garb,    \* set of <<a, b>>: data intervals whose content was lost by a power failure
  exists,  \* the header was written
  existsD, \* the header is surely on disk
  asked,   \* checkpoint positions asked by the user, in the current history
  softRet, \* highest checkpoint (of any kind) that returned in the current history
  hardRet  \* highest hard checkpoint that ever returned (0: none)

disk == <<slotC, slotD, slotP, hist, strict, sizeC, sizeD, pend, garb, exists, existsD>>
promises == <<asked, softRet, hardRet>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Slots == 1..4

-----------------------------------------------------------------------------
(* Reading a header: the meaning of the file format.                          *)

\* a hard checkpoint is a pair of equal copies
HardOf(h) == Max({HS} \cup {h[2*i-1] : i \in {j \in 1..2 : h[2*j-1] = h[2*j]}})

\* a soft checkpoint is a single negative value, that counts only within the file
SoftOf(h, size) == Max({HS} \cup {-h[k] : k \in {j \in Slots : -h[j] <= size}})

\* a soft checkpoint beyond the end of the file: only a power failure leaves one
Phantom(h, size) == \E k \in Slots : -h[k] > size

RecoverAt(h, size) == Max({HardOf(h), SoftOf(h, size)})

\* What opening a file must do, in each recovery mode.
ReadonlyOpens(h, size) == size > 0 /\ HardOf(h) <= size
WritableOpens(h, size, mode) ==
  \/ size = 0
  \/ mode = "ignore"
  \/ HardOf(h) <= size /\ (mode = "none" => RecoverAt(h, size) = size)
OpenedAt(h, size, mode) ==
  IF size = 0 THEN HS
  ELSE IF mode = "ignore" THEN Max({HS, size})
  ELSE RecoverAt(h, size)

-----------------------------------------------------------------------------
DiskInit ==
  /\ slotC = [k \in Slots |-> 0]
  /\ slotD = [k \in Slots |-> 0]
  /\ slotP = [k \in Slots |-> {}]
  /\ hist = {[k \in Slots |-> 0]} /\ strict = TRUE
  /\ sizeC = 0 /\ sizeD = 0
  /\ pend = {} /\ garb = {}
  /\ exists = FALSE /\ existsD = FALSE
  /\ asked = {} /\ softRet = 0 /\ hardRet = 0

(* One write system call: header values (a set of <<slot, value>>) and a data *)
(* interval [a, b) (empty when a >= b).                                        *)
DiskWrite(hv, sig, a, b) ==
  /\ slotC' = [k \in Slots |-> IF \E p \in hv : p[1] = k
                               THEN (CHOOSE p \in hv : p[1] = k)[2] ELSE slotC[k]]
  /\ slotP' = [k \in Slots |-> slotP[k] \cup {p[2] : p \in {q \in hv : q[1] = k}}]
  /\ hist' = hist \cup {slotC'}
  /\ sizeC' = Max({sizeC} \cup (IF hv # {} THEN {Min({HS, 8 * Max({p[1] : p \in hv})})} ELSE {})
                          \cup (IF sig THEN {HS} ELSE {})
                          \cup (IF a < b THEN {b} ELSE {}))
  /\ pend' = IF a < b THEN pend \cup {<<a, b>>} ELSE pend
  /\ garb' = garb
  /\ exists' = (exists \/ sig)
  /\ UNCHANGED <<slotD, strict, sizeD, existsD>>

\* sync: everything, size included
DiskSync ==
  /\ slotD' = slotC /\ slotP' = [k \in Slots |-> {}]
  /\ hist' = {slotC} /\ strict' = TRUE
  /\ sizeD' = sizeC /\ pend' = {} /\ existsD' = exists
  /\ UNCHANGED <<slotC, sizeC, garb, exists>>

\* datasync: the content of the file within its durable size
DiskDatasync ==
  /\ slotD' = slotC /\ slotP' = [k \in Slots |-> {}]
  /\ hist' = {slotC} /\ strict' = TRUE
  /\ pend' = {<<Max({p[1], sizeD}), p[2]>> : p \in {q \in pend : q[2] > sizeD}}
  /\ existsD' = (existsD \/ (exists /\ sizeD >= HS))
  /\ UNCHANGED <<slotC, sizeC, sizeD, garb, exists>>

(* Every header that a power failure may leave now.  Any subset of the values *)
(* written since the last sync may be on disk, except when a process was      *)
(* killed since then: the next process cannot know what its predecessor left  *)
(* pending, and joedb relies on the header being smaller than a sector, so    *)
(* that the disk holds one of the headers the file went through.              *)
PowerHeaders == IF ~ strict THEN hist ELSE {h \in [Slots -> UNION {{slotD[k]} \cup slotP[k] : k \in Slots}] :
                   \A k \in Slots : h[k] \in {slotD[k]} \cup slotP[k]}

\* a process is killed: what it wrote stays
DiskKill ==
  /\ strict' = (strict /\ hist = {slotC})
  /\ UNCHANGED <<slotC, slotD, slotP, hist, sizeC, sizeD, pend, garb, exists, existsD>>

\* a power failure that leaves header h and size s
DiskPower(h, s) ==
  /\ h \in PowerHeaders
  /\ s \in sizeD..sizeC
  /\ slotC' = h /\ slotD' = h /\ slotP' = [k \in Slots |-> {}]
  /\ hist' = {h} /\ strict' = TRUE
  /\ sizeC' = s /\ sizeD' = s
  /\ garb' = {p \in garb \cup pend : p[1] < s} /\ pend' = {}
  /\ exists' = existsD /\ existsD' = existsD

-----------------------------------------------------------------------------
(* The promises.                                                              *)

Touches(iv, a, b) == \E p \in iv : p[1] < b /\ p[2] > a

(* C01: whatever a power failure leaves now, a hard checkpoint not lower than *)
(* the last one that returned is found, it was asked for, and the whole log   *)
(* up to it is on disk.                                                       *)
PowerSafe ==
  hardRet > 0 =>
    /\ existsD
    /\ \A h \in PowerHeaders :
         LET r == HardOf(h) IN
           /\ r >= hardRet
           /\ r \in asked
           /\ r <= sizeD
           /\ ~ Touches(pend \cup garb, HS, r)

(* C02: a process killed now loses nothing that a checkpoint covers, and the  *)
(* file is found at a checkpoint that was asked for.                          *)
ProcessSafe ==
  exists =>
    /\ RecoverAt(slotC, sizeC) >= softRet
    /\ RecoverAt(slotC, sizeC) \in asked \cup {HS}
    /\ HardOf(slotC) <= sizeC

=============================================================================
