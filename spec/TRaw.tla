------------------------------- MODULE TRaw ---------------------------------
(* Trace validation of raw reading, grid snapshots, bit pushing and the    *)
(* version/size relation.                                                  *)
EXTENDS RawReader, IOUtils, Json

Tr == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Kind(i) == IF "ver" \in DOMAIN Tr[i] THEN "ver" ELSE IF "size" \in DOMAIN Tr[i] THEN "size"
           ELSE IF "push" \in DOMAIN Tr[i] THEN "push" ELSE "raw"
Vers == { VersionOfSize(Tr[i].n) : i \in { i \in 1 .. Len(Tr) : Kind(i) = "raw" /\ Tr[i].n \in ValidSizes } }
ZZ == TLCEval([v \in Vers |-> ZigZag(v)])

TrGrids == Len(Tr)
TrGrid(i) == Tr[i].g
TrSide(i) == IF Kind(i) = "raw" THEN Tr[i].n ELSE 0 - 1
TrOrder(v) == TLCGet(3)[v]

SnapOK(t) == t.sn >= 0 => t.sn = t.n /\ t.sb = t.g
Matches(t) ==
  /\ SnapOK(t)
  /\ rph # "any" => /\ t.res = rph
                    /\ rph = "Ok" => /\ t.v = RVer /\ t.e = EccOf(rfmt) /\ t.m = MaskOf(rfmt)
                                     /\ Packed(t.d, t.len, rbits) /\ ~t.dirty
SmallOK(t, k) ==
  IF k = "ver" THEN (IF t.ver \in ValidSizes THEN t.r = VersionOfSize(t.ver)
                    ELSE IF t.ver < 21 \/ t.ver >= 181 THEN t.r = 0 - 1 ELSE t.r \in {0 - 1} \cup 1 .. 40)
  ELSE IF k = "size" THEN t.r = SizeOf(t.size)
  ELSE Packed(t.d, t.len, t.push) /\ ~t.dirty

Next == \/ rc <= Len(Tr) /\ Kind(rc) = "raw" /\ (CheckSize \/ FormatStep \/ Collect)
        \/ /\ rc <= Len(Tr) /\ Kind(rc) = "raw" /\ rph \in {"Ok", "InvalidVersion", "FormatEcc", "any"}
           /\ Matches(Tr[rc]) = TRUE /\ Emit
        \/ /\ rc <= Len(Tr) /\ Kind(rc) # "raw" /\ SmallOK(Tr[rc], Kind(rc)) = TRUE
           /\ rc' = rc + 1 /\ UNCHANGED <<rph, rfmt, rbits>>
Spec == InitRaw /\ [][Next]_rvars

Note == /\ (IF rc > TLCGet(1) THEN TLCSet(1, rc) /\ TLCSet(2, {}) ELSE TRUE)
        /\ (IF rc = TLCGet(1) /\ rph # "size" THEN TLCSet(2, {[expected |-> rph, fmt |-> rfmt, bits |-> Len(rbits)]}) ELSE TRUE)
ASSUME TLCSet(3, ZZ)
ASSUME TLCSet(1, 0) /\ TLCSet(2, {})
Accepted ==
  IF TLCGet(1) = Len(Tr) + 1
  THEN PrintT(<<"ACCEPTED", Len(Tr)>>)
  ELSE PrintT(<<"REJECTED", TLCGet(1), Tr[TLCGet(1)].id, TLCGet(2)>>)
=============================================================================
