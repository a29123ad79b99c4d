------------------------------- MODULE Scale --------------------------------
(***************************************************************************)
(* Archives with many files, or with a file of many sectors.  The files are *)
(* numbered 0..n-1 and named after their numbers; one further file (the     *)
(* deep one) has m sectors.  Nothing depends on n or m: every number is     *)
(* found, listed and read, no other name is, every sector is decoded with   *)
(* its own number.  Observations name the numbers that got a wrong answer   *)
(* (the first few), so that whole tables fit into one event.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES ar, built
svars == <<ar, built>>

None == <<>>
Extra == (IF ar.m > 0 THEN 1 ELSE 0) + (IF ar.list THEN 1 ELSE 0)
Stored == ar.n + Extra
Sectors == 0..(ar.m - 1)
\* the smallest table that the format allows for so many files
RECURSIVE Pow2(_, _)
Pow2(k, p) == IF p >= k THEN p ELSE Pow2(k, 2 * p)

SInit == ar = [n |-> 0, m |-> 0, list |-> FALSE, crc |-> FALSE, enc |-> FALSE, ver |-> 1, sector |-> 512] /\ built = FALSE
SBegin(a) == ar' = a /\ built' = FALSE
\* every number has a name of its own and every option is supported: the build succeeds
SBuild(ok) == ~built /\ ok /\ built' = TRUE /\ UNCHANGED ar
\* a build with one of the names twice, however far apart, is refused and makes nothing
Again(e) == built /\ e.of \in 0..(ar.n - 1) /\ e.res = "err" /\ ~e.made /\ UNCHANGED svars
\* an archive of kib KiB of content: version 1 holds no more than 4 GiB and refuses what goes beyond, later versions hold it
FourGiB == 4194304
Vast(e) == /\ e.res = "ok" => e.first /\ e.last /\ e.sizes
           /\ e.res = "err" => ~e.made
           /\ (e.ver = 1 /\ e.kib >= FourGiB) \/ e.each >= FourGiB => e.res = "err"      \* sizes of files have 32 bits in every version
           /\ (e.ver > 1 \/ e.kib < FourGiB - 64) /\ e.each < FourGiB => e.res = "ok"
           /\ UNCHANGED svars
\* all numbers (or those from..to) were looked up and read; wrong holds those not answered rightly
Sweep(e) == /\ built /\ e.asked = ar.n /\ e.wrong = None /\ UNCHANGED svars
\* names that are not stored
Absent(e) == /\ built /\ e.asked > 0 /\ e.found = None /\ UNCHANGED svars
\* the listing by name holds each number once, with its size; enumerations hold as many entries
Named(e) == /\ built /\ e.res = "ok"
            /\ e.count = (IF ar.list THEN Stored ELSE e.count)
            /\ (ar.list => e.missing = None /\ e.twice = None /\ e.other = Extra /\ e.wrong = None)
            /\ UNCHANGED svars
Enumerated(e) == /\ built /\ e.res = "ok" /\ e.count = Stored /\ e.size = e.total /\ UNCHANGED svars
Summary(e) == /\ built /\ e.res = "ok" /\ e.count = Stored /\ e.max >= Stored
              /\ e.ver = ar.ver /\ e.sector = ar.sector /\ e.enc = ar.enc /\ UNCHANGED svars
\* the deep file comes back whole: bad holds the numbers of sectors that differ
Deep(e) == /\ built /\ ar.m > 0 /\ e.res = "ok" /\ e.len = e.want /\ e.bad = None /\ UNCHANGED svars
\* an independent decoder finds every number by probing the hash table, and decodes every sector
Raw(e) == /\ built
          /\ e.hashn = Pow2(e.hashn, 1) /\ e.hashn >= Stored /\ e.blockn >= Stored
          /\ e.asked = ar.n /\ e.wrong = None /\ e.bad = None
          /\ (ar.m > 0 => e.sectors = ar.m)
          /\ UNCHANGED svars
\* one byte of one stored sector of a checksummed file was changed: the file is not read as good
Damage(e) == /\ built /\ ar.crc /\ e.sector \in Sectors
             /\ e.res \in {"err", "same"} /\ (e.raw => e.res = "err")
             /\ UNCHANGED svars
=============================================================================
