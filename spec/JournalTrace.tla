----------------------------- MODULE JournalTrace -----------------------------
(* Recorded file operations of real journals, replayed on the disk model: the *)
(* promises are evaluated in every state, for every crash image.              *)
EXTENDS JournalDisk, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l,
  phase,   \* "down", "opening", "open"
  mode,    \* recovery mode of the opening in progress
  image,   \* [h, size] found by the opening in progress
  wrote,   \* the opening in progress wrote something
  ck       \* checkpoint of the open journal

tvars == <<tid, l, phase, mode, image, wrote, ck>>
vars == <<disk, promises, tvars>>

\* the property this run decides (C01, C02, C03 or all): which conditions apply
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "all"
C(S) == Prop = "all" \/ Prop \in S

Ev == Traces[tid].ev[l]
IsEvent(e) == l <= Len(Traces[tid].ev) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Header(s) == [k \in Slots |-> s[k]]

Init == DiskInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ phase = "down" /\ mode = "none"
        /\ image = [h |-> [k \in Slots |-> 0], size |-> 0] /\ wrote = FALSE /\ ck = 0

Open1 ==
  /\ IsEvent("open1") /\ phase = "down"
  /\ phase' = "opening" /\ mode' = Ev.mode /\ wrote' = FALSE
  /\ image' = [h |-> slotC, size |-> sizeC]
  \* ignoring the header abandons what it promised
  /\ IF Ev.mode = "ignore" THEN softRet' = 0 /\ hardRet' = 0 ELSE UNCHANGED <<softRet, hardRet>>
  /\ UNCHANGED <<disk, asked, ck>>

Open2 ==
  /\ IsEvent("open2") /\ phase = "opening"
  /\ Ev.ok = WritableOpens(image.h, image.size, mode)
  /\ IF Ev.ok
     THEN LET c == OpenedAt(image.h, image.size, mode) IN
       /\ Ev.cp = c
       /\ phase' = "open" /\ ck' = c
       /\ asked' = {x \in asked : x <= c} \cup {c}
       /\ softRet' = IF mode = "ignore" THEN 0 ELSE c
       \* the part before the hard checkpoint was not lost; the rest is taken as found
       /\ hardRet > 0 => ~ Touches(garb, HS, HardOf(image.h))
       /\ garb' = {}
       /\ UNCHANGED <<slotC, slotD, slotP, hist, strict, sizeC, sizeD, pend, exists, existsD>>
     ELSE
       /\ C({"C03"}) => ~ wrote     \* a refused opening leaves the file as it was
       /\ phase' = "down"
       /\ UNCHANGED <<disk, asked, softRet, ck>>
  /\ UNCHANGED <<hardRet, mode, image, wrote>>

W ==
  /\ IsEvent("w") /\ phase # "down"
  /\ DiskWrite({<<Ev.s[i][1], Ev.s[i][2]>> : i \in 1..Len(Ev.s)}, Ev.sig, Ev.a, Ev.b)
  \* no byte before the checkpoint is ever changed
  /\ Ev.chg >= 0 => Ev.chg >= (IF phase = "open" THEN ck ELSE OpenedAt(image.h, image.size, mode))
  /\ wrote' = TRUE
  /\ UNCHANGED <<promises, phase, mode, image, ck>>

Sync == IsEvent("sync") /\ DiskSync /\ UNCHANGED <<promises, phase, mode, image, wrote, ck>>
Datasync == IsEvent("dsync") /\ DiskDatasync /\ UNCHANGED <<promises, phase, mode, image, wrote, ck>>

Ask ==
  /\ IsEvent("ask") /\ phase = "open"
  /\ asked' = asked \cup {Ev.p}
  /\ UNCHANGED <<disk, softRet, hardRet, phase, mode, image, wrote, ck>>

Ret ==
  /\ IsEvent("ret") /\ phase = "open"
  /\ Ev.p \in asked
  \* nor does a checkpoint at the position taken from the size, ignoring the header
  /\ softRet' = IF mode = "ignore" /\ Ev.p <= image.size THEN softRet ELSE Max({softRet, Ev.p})
  \* a hard checkpoint where the file already shows one does nothing
  /\ hardRet' = IF Ev.k = "h" /\ Ev.p > Max({HS, HardOf(image.h)})
                THEN Max({hardRet, Ev.p}) ELSE hardRet
  /\ ck' = Max({ck, Ev.p})
  /\ Ev.cp = ck'
  /\ UNCHANGED <<disk, asked, phase, mode, image, wrote>>

\* a process-crash image opened by the real code
ProbeProc ==
  /\ IsEvent("probe") /\ Ev.kind = "proc"
  /\ Header(Ev.h) = slotC /\ Ev.size = sizeC
  /\ Ev.ok = (IF Ev.mode = "ro" THEN ReadonlyOpens(slotC, sizeC)
              ELSE WritableOpens(slotC, sizeC, Ev.mode)) \/ Prop = "C01"
  /\ Ev.ok /\ C({"C02", "C03"}) =>
              /\ Ev.cp = OpenedAt(slotC, sizeC, Ev.mode)
              /\ C({"C02", "C03"}) /\ Ev.mode # "ignore" /\ ~ Touches(garb, HS, Ev.cp) => Ev.same
              \* pulling again, or reopening, shows nothing else
              \* (a reader that pulls trusts the header, which may still hold a
              \* soft checkpoint beyond the end of the file after a power failure,
              \* until a writer in overwrite mode has removed it)
              /\ (C({"C02", "C03"}) /\ Ev.mode = "overwrite") \/ (C({"C03"}) /\ Ev.mode = "ro" /\ ~ Phantom(slotC, sizeC))
                   => Ev.again = Ev.cp
  \* a refused opening, or a reader, leaves the file as it was
  /\ C({"C03"}) /\ (~ Ev.ok \/ Ev.mode \in {"ro", "none"}) /\ Ev.size > 0 => ~ Ev.modified
  /\ UNCHANGED <<disk, promises, phase, mode, image, wrote, ck>>

\* a power-failure image opened by the real code
ProbePower ==
  /\ IsEvent("probe") /\ Ev.kind = "power"
  /\ Header(Ev.h) \in PowerHeaders /\ Ev.size \in sizeD..sizeC
  /\ LET h == Header(Ev.h) IN
     /\ Ev.ok = (IF Ev.mode = "ro" THEN ReadonlyOpens(h, Ev.size)
                 ELSE WritableOpens(h, Ev.size, Ev.mode))
     /\ Ev.ok => Ev.cp = OpenedAt(h, Ev.size, Ev.mode)
     /\ C({"C03"}) /\ Ev.mode = "overwrite" /\ Ev.ok => Ev.again = Ev.cp
     /\ C({"C01"}) /\ hardRet > 0 => Ev.ok /\ Ev.hard >= hardRet /\ Ev.same
  /\ UNCHANGED <<disk, promises, phase, mode, image, wrote, ck>>

Close == IsEvent("close") /\ phase = "open" /\ phase' = "down"
         /\ UNCHANGED <<disk, promises, mode, image, wrote, ck>>

Kill == IsEvent("kill") /\ DiskKill /\ phase' = "down"
        /\ UNCHANGED <<promises, mode, image, wrote, ck>>

Power ==
  /\ IsEvent("power") /\ DiskPower(Header(Ev.h), Ev.size) /\ phase' = "down"
  /\ softRet' = 0
  /\ asked' = asked \cup {-Ev.h[k] : k \in Slots}
  /\ UNCHANGED <<hardRet, mode, image, wrote, ck>>

Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars

Next == Open1 \/ Open2 \/ W \/ Sync \/ Datasync \/ Ask \/ Ret \/ ProbeProc \/ ProbePower
        \/ Close \/ Kill \/ Power \/ Done

Spec == Init /\ [][Next]_vars
\* a soft checkpoint in the log of calls promises nothing before the first one returned
ProcessSafeT == C({"C02"}) /\ softRet > 0 => ProcessSafe
PowerSafeT == C({"C01"}) => PowerSafe
=============================================================================
