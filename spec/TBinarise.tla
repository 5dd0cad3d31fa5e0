----------------------------- MODULE TBinarise ------------------------------
(* Trace validation of the ways to prepare a picture.                      *)
EXTENDS Binarise, IOUtils, Json

Tr == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
TrGreys == Len(Tr)
TrGrey(i) == Tr[i].g
TrW(i) == Tr[i].w
TrH(i) == Tr[i].h

Flat == FlattenSeq(bw)
Matches(t) == /\ t.grey = Flat   \* prepare_from_greyscale
              /\ t.buf = Flat    \* prepare on a caller's buffer
              /\ t.bits = t.g01  \* prepare_from_bitmap takes pixels verbatim
              /\ t.raw = t.g01   \* without_preparation too
              /\ t.dim = <<t.w, t.h, t.w, t.h, t.w, t.h>>
Next == \/ BinRow
        \/ BinDone /\ Matches(Tr[gc]) = TRUE /\ NextGrey
Spec == InitBin /\ [][Next]_gvars
Note == /\ (IF gc > TLCGet(1) THEN TLCSet(1, gc) ELSE TRUE)
        /\ (IF gc <= Len(Tr) /\ row = GHeight(gc) THEN TLCSet(2, bw) ELSE TRUE)
ASSUME TLCSet(1, 0) /\ TLCSet(2, << >>)
Accepted ==
  IF TLCGet(1) = Len(Tr) + 1
  THEN PrintT(<<"ACCEPTED", Len(Tr)>>)
  ELSE PrintT(<<"REJECTED", TLCGet(1), Tr[TLCGet(1)].id, [expected |-> TLCGet(2)]>>)
=============================================================================
